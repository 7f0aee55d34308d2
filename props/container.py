NOTE_NF = ('Every listed instantiation is decided for all element values at the listed sizes: operations are inlined into harness roots, canonicalised by '
           'dataflow passes and compared by value numbering (integers modulo 2^n, floating point as real algebra). Trusts the clang front end, the LLVM '
           'passes and the exporter; rounding, NaN and unlisted sizes or element types are out of reach.')
NF = 'interprocedural value numbering over canonicalised LLVM IR'
PROPS = [
 dict(id='C01', title='Bounds-checked access of containers',
  statement='Checked access with an index i in [-size, size) designates element i counted from the front, or from the back when i is negative, in the container\'s own storage, for reading as for writing. Any other index raises the library\'s out-of-bounds error and gives access to nothing.',
  over=['inputs'], quant='every size, every index, every storage kind (vector, array, valarray, aligned, external pointer), const and mutable',
  tests='Tests check a handful of indices of one container; the guarantee quantifies over every index and size, and over both const and mutable overloads.',
  files=['LitlContainer/LitlContainer/ContiguousContainer.h', 'LitlContainer/LitlContainer/DataContainer.h', 'LitlTypes/LitlTypes/Exceptions.h'],
  mech=[('bounds check before access', 'ContiguousContainer::at'), ('error helper', 'OutOfBoundsError::mayThrow')],
  technique='dataflow: folding of in-bounds obligations and exception typestate over LLVM IR',
  note='Decided for symbolic sizes and indices: paths are folded by constraint propagation, every surviving throw is typed. Trusts clang, LLVM passes and the exporter.'),
 dict(id='C02', title='Sizes and shapes of containers agree with their contents',
  statement='A container or raster made from a size, shape, list, iterable or moved storage has exactly the size those imply, and a raster holds exactly as many elements as the product of its shape. Inconsistent sizes or shapes raise the size error instead of building an object; consistent ones never raise.',
  over=['inputs'], quant='every size and shape, list length, storage kind, moved and copied storage',
  tests='Tests build well-formed objects of one size; neither every mismatch nor every storage is sampled.',
  files=['LitlContainer/LitlContainer/Holders.h', 'LitlContainer/LitlContainer/DataContainer.h', 'LitlContainer/LitlContainer/AlignedBuffer.h', 'LitlRaster/LitlRaster/Raster.h', 'LitlTypes/LitlTypes/Exceptions.h'],
  mech=[('size check', 'SizeError::mayThrow in holders'), ('shape check', 'Raster constructors')],
  technique='dataflow: exception typestate and folding of size obligations over LLVM IR',
  note='Decided for symbolic lengths where the storage allows it. Trusts clang, LLVM passes and the exporter.'),
 dict(id='C03', title='Aligned memory is released exactly once',
  statement='Memory acquired by an aligned buffer is released exactly once, at the address the allocator returned, whatever the sequence of constructions, copies, moves, assignments, releases and destructions. Views of external memory never release it; a moved-from buffer owns nothing; a copy of an owner owns its own memory.',
  over=['histories'], quant='every pairwise combination of owner, view, empty and self source and target, for construction and assignment by copy and move, release and reset',
  tests='A leak or a double release is not observable by the assertions of a unit test, and assignment histories are not exercised.',
  files=['LitlContainer/LitlContainer/AlignedBuffer.h'],
  mech=[('ownership', 'AlignedBuffer constructors, assignments, release, reset, destructor')],
  technique='typestate dataflow with a ghost allocator over LLVM IR',
  note='Covers every pair of operations from the list on single buffers; longer histories follow as each operation is shown to leave its operands in one of the states covered. Allocation failures are assumed away.'),
 dict(id='C04', title='Aligned buffers are aligned and large enough',
  statement='An aligned buffer of n elements starts at an address which is a multiple of the requested alignment, reports so, and all its n elements lie inside the memory it acquired. External memory is used as is when it meets the alignment, and is rejected with the alignment error otherwise.',
  over=['inputs'], quant='every size, every address returned by the allocator, alignment requests from 0 to 4096, element types of 1 to 16 bytes',
  tests='The allocator happens to return well aligned blocks in tests, and overruns of the block are silent.',
  files=['LitlContainer/LitlContainer/AlignedBuffer.h'],
  mech=[('alignment computation', 'AlignedBuffer::AlignedBuffer, alignAs'), ('alignment error', 'AlignmentError::mayThrow')],
  technique='known-bits dataflow and an align-up capacity rule over LLVM IR value numbers',
  note='Decided for symbolic sizes and allocator results. Trusts clang, LLVM passes and the exporter.'),
 dict(id='C05', title='Copies are deep, moves keep the memory, views share it',
  statement='Copying a container yields the same elements in independent memory: later changes of either do not affect the other. Moving one transfers the very same memory, into the container as well as out of it. A view on external memory reads and writes that memory and nothing else.',
  over=['inputs', 'histories'], quant='every element value, storage kind, copy and move construction and assignment',
  tests='Tests check equality after a copy; independence and identity of the memory are not sampled for each storage.',
  files=['LitlContainer/LitlContainer/Holders.h', 'LitlContainer/LitlContainer/DataContainer.h', 'LitlContainer/LitlContainer/AlignedBuffer.h', 'LitlRaster/LitlRaster/Raster.h'],
  mech=[('copy, move, moveTo', 'holders, DataContainer'), ('external storage', 'PtrHolder, AlignedBuffer')],
  technique=NF, note=NOTE_NF),
 dict(id='C08', title='Element-wise mathematical functions',
  statement='Each mathematical function of containers yields in every element the standard function of same name of the elements of same index, in operand order, both as a function returning a new container, which leaves its arguments unchanged, and as a method modifying the container in place and returning it. A scalar second operand is used for every element. The constant pi has the precision of its type.',
  over=['inputs'], quant='every element value, the 31 unary and 7 binary functions, sequences and rasters, integer, single and double precision',
  tests='Tests do not instantiate every function, and one sample per function does not reveal swapped arguments or a wrong overload.',
  files=['LitlContainer/LitlContainer/Math.h', 'LitlContainer/LitlContainer/DataContainer.h'],
  mech=[('function mixins', 'MathFunctionsMixin'), ('function generation by macros', 'Math.h')],
  technique=NF, note=NOTE_NF + ' errno and signgam side effects are ignored.'),
 dict(id='C06', title='Element-wise arithmetic',
  statement='Each arithmetic operator, between two containers of same size or between a container and a scalar on either side, yields in every element the result of that operator on the operands of same index, in operand order. In-place forms change only the left operand and return it; value forms leave their operands unchanged.',
  over=['inputs'], quant='every element value, sequence, raster and vector containers, integer, floating and complex elements, and every operator of the three arithmetic families',
  tests='Tests use one element type and one or two fixed operands per operator; symmetric operands hide swapped or missing operators.',
  files=['LitlContainer/LitlContainer/Arithmetic.h', 'LitlContainer/LitlContainer/DataContainer.h'],
  mech=[('operator mixins', 'VectorArithmetic, EuclidArithmetic'), ('scalar and container in-place operators', 'ArithmeticMixin; value forms derived by boost::operators')],
  technique=NF, note=NOTE_NF),
 dict(id='C07', title='Operands may alias the container they modify',
  statement='In-place operations give the same result whether their operand is independent, is the container itself, or is one of its elements: operands are evaluated as they were before the operation.',
  over=['inputs'], quant='every in-place operator and filling method, every element value, every position of the aliased element',
  tests='Tests never pass an element or the container itself as operand.',
  files=['LitlContainer/LitlContainer/Arithmetic.h', 'LitlContainer/LitlContainer/DataContainer.h'],
  mech=[('scalar operands taken by value', 'in-place operators'), ('step and bounds copied', 'range, linspace, fill')],
  technique=NF, note=NOTE_NF),
 dict(id='C09', title='Generating and applying functions element-wise',
  statement='Generating or applying a function calls it exactly once per element, from first to last, with the elements of same index of the inputs, and stores the result at that index. The inputs are left unchanged and the container itself is returned.',
  over=['inputs'], quant='every function (opaque and stateful), one to three inputs, every element value',
  tests='Tests use commutative or constant functions, which cannot reveal a wrong argument order or call count.',
  files=['LitlContainer/LitlContainer/DataContainer.h', 'LitlTypes/LitlTypes/SeqUtils.h'],
  mech=[('lock-step iteration', 'iterator tuples advanced together, DataContainer::generate and apply')],
  technique=NF, note=NOTE_NF),
 dict(id='C10', title='Filling, ranges, linear spaces and extrema',
  statement='Filling sets every element to the value; a range sets element i to min + i * step; a linear space of n elements sets element i to min + i * (max - min) / (n - 1), and exactly max at the last one. Minimum and maximum designate elements that bound all others; empty containers are left untouched.',
  over=['inputs'], quant='every bound, step and value, including decreasing bounds, sizes 0, 1 and more, integral and floating elements',
  tests='Tests draw one increasing range; empty, single-element, decreasing and rounding cases are never reached.',
  files=['LitlContainer/LitlContainer/DataContainer.h'],
  mech=[('fill, range, linspace', 'DataContainer'), ('min, max, minmax', 'DataContainer')],
  technique=NF, note=NOTE_NF),
 dict(id='C16', title='Container equality',
  statement='Two containers are equal exactly when they have the same size and pairwise equal elements, and different exactly otherwise, whatever their storage.',
  over=['inputs'], quant='every pair of element values and sizes, every storage kind',
  tests='Tests compare equal copies; difference at a single, arbitrary position or in size only is not sampled.',
  files=['LitlContainer/LitlContainer/ContiguousContainer.h', 'LitlContainer/LitlContainer/DataContainer.h'],
  mech=[('operator==, operator!=', 'ContiguousContainer')],
  technique=NF, note=NOTE_NF),
 dict(id='C17', title='Contiguous storage and unchecked access',
  statement='Elements of a container are contiguous: element i is located i places after the first, iteration goes from the first to one past the last in storage order, and front and back designate the first and last elements. Const and mutable access designate the same storage, and a container is reported empty exactly when its size is zero.',
  over=['inputs'], quant='every size and index, every storage kind',
  tests='Tests read back small vectors; they never relate addresses of const and mutable access for all storage kinds and sizes.',
  files=['LitlContainer/LitlContainer/ContiguousContainer.h', 'LitlContainer/LitlContainer/Holders.h', 'LitlContainer/LitlContainer/AlignedBuffer.h'],
  mech=[('data(), size()', 'holders'), ('begin, end, operator[]', 'ContiguousContainer')],
  technique=NF, note='Decided for symbolic sizes and indices by value numbering of addresses. Trusts clang, LLVM passes and the exporter.'),
 dict(id='C15', title='Constant objects are read-only, and conversions are explicit',
  statement='Constant containers, rasters, vectors, boxes and plans give no mutable access to their elements or properties, by any accessor, iterator or view (section, slice, subraster), while other ones do where documented; views of constant pixels are read-only whatever their own constness. Numbers, positions, containers and texts do not silently become containers, rasters, boxes, filters, generators or exceptions. Containers, regions, filters, generators and chronometers can be copied; plans, which own their buffers, can only be moved.',
  over=['programs'], quant='every program which uses the public accessors, for the storage kinds, dimensions and value types of the library',
  tests='A test which compiles does not show what must not compile.',
  files=['LitlContainer/LitlContainer/ContiguousContainer.h', 'LitlContainer/LitlContainer/DataContainer.h', 'LitlRaster/LitlRaster/Raster.h', 'LitlRaster/LitlRaster/SubrasterIterator.h', 'LitlTransforms/LitlTransforms/DftPlan.h'],
  mech=[('const overloads', 'ContiguousContainerMixin, Raster'), ('views', 'Raster::section, Raster::slice, Raster::subraster'), ('explicit constructors', 'all classes')],
  technique='Type-level witnesses (static assertions on the types of expressions) decided by the type checker', note='Decided by clang for the listed expressions and instantiations.'),
 dict(id='C18', title='Containers are printed in full, or abridged when longer than seven',
  statement='Inserting a container, raster, position or vector into a stream inserts its values in order, between brackets and separated by commas; when there are more than seven, the first three and the last three only, with an ellipsis in between. The stream is returned, and the container may be empty.',
  over=['inputs'], quant='every value, for 0 to 24 elements of integral and floating types',
  tests='No test reads what is printed.',
  files=['LitlContainer/LitlContainer/ContiguousContainer.h'], mech=[('insertion', 'operator<<(std::ostream&, ContiguousContainerMixin)')],
  technique='Dataflow analysis of the tokens inserted in a ghost stream, in canonical LLVM IR', note=NOTE_NF + ' The formatting of a value is that of the stream.'),
 dict(id='C11', title='Statistics of a container',
  statement='The distribution of a container yields its size, minimum, maximum, mean, variance (with or without bias), standard deviation, median, interpolated quantiles, median absolute deviation, sigma and histogram according to their definitions, for integral as for floating elements, without changing the container. Values below the first or above the last bin edge are not counted, and those at the upper edge belong to the last bin.',
  over=['inputs'], quant='every order and multiplicity of up to three values, every quantile, integral and floating elements, odd and even sizes',
  tests='Tests use one sorted Gaussian sample with loose tolerances: ties, even sizes, integral rounding, edges of bins and unsorted data are not sampled.',
  files=['LitlContainer/LitlContainer/DataDistribution.h'],
  mech=[('order statistics by partial sorting of a copy', 'DataDistribution'), ('moments', 'DataDistribution'), ('histogram', 'DataDistribution')],
  technique=NF, note=NOTE_NF + ' nth_element and sort are replaced by stand-ins meeting their contract.'),
 dict(id='C12', title='Reproducible noise',
  statement='A uniform, Gaussian or Poisson noise generator with a given seed is a function of its parameters, of the seed and of the rank of the draw only; different generators are independent. Draws follow the distribution of the parameters in their declared order, components of complex parameters apply to the components of the draw, additive noise is the input plus a draw, and Poisson noise of a pixel has that pixel as mean. Without seed, the clock is used.',
  over=['inputs', 'histories'], quant='every parameter, input and seed, sequences of up to three draws, integral, floating and complex elements',
  tests='Tests compare moments of one sample, and seeds by equality of one value.',
  files=['LitlContainer/LitlContainer/Random.h'],
  mech=[('seeding', 'RandomGenerator'), ('real and imaginary distributions', 'ComplexDistribution'), ('uniform, Gaussian and Poisson noise', 'UniformNoise, GaussianNoise, PoissonNoise')],
  technique=NF, note=NOTE_NF + ' The standard engines and distributions are ghosts: their statistical quality is trusted.'),
 dict(id='C13', title='Stable Poisson noise',
  statement='With stable Poisson noise, the output for a pixel is a function of the seed, of the rank of the pixel and of the value of the pixel only: changing one pixel changes no other output.',
  over=['inputs', 'histories'], quant='every seed, every pair of inputs which differ at one pixel, sequences of up to three pixels',
  tests='Tests change one constant in one image and compare a few pixels.',
  files=['LitlContainer/LitlContainer/Random.h'],
  mech=[('one seed per pixel', 'StablePoissonNoise')],
  technique=NF, note=NOTE_NF + ' The standard engines and distributions are ghosts.'),
 dict(id='C14', title='Impulse noise',
  statement='Impulse noise yields each of the given values with its probability and leaves the pixel unchanged with the remaining probability; salt and pepper noise associates the salt probability to the salt value and the pepper probability to the pepper value.',
  over=['inputs'], quant='every value, probability and input, zero to two impulse values, drawn index from first to last',
  tests='Tests count impulses in one sample with one pair of equal probabilities.',
  files=['LitlContainer/LitlContainer/Random.h'],
  mech=[('values and weights in same order, remainder last', 'ImpulseNoise')],
  technique=NF, note=NOTE_NF + ' The standard engines and distributions are ghosts.'),
]
