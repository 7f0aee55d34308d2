L = 'LitlContainer/LitlContainer/'
PROPS = [
 dict(id='G01', title='Operations have no hidden state',
  statement='The result of every operation of the library is a function of its object and arguments alone: no operation reads or writes a variable shared between calls or objects, keeps a value of a previous call, modifies a constant object or argument, reads the clock (apart from default seeds, chronometers and pipelines), the environment or an unseeded source of entropy, or prints on the standard streams. Hence calls on distinct objects, and constant operations on a same object, can run concurrently, and repeated calls give the same result.',
  over=['schedules', 'histories', 'inputs'], quant='every interleaving and history of calls to the operations of all public headers and library sources',
  tests='Tests run one call after the other in one thread, and mostly call each operation once.',
  files=[L + 'DataDistribution.h', L + 'Random.h', 'LitlTransforms/LitlTransforms/DftMemory.h', 'LitlTransforms/LitlTransforms/MedianFilter.h'],
  mech=[('allocator singleton (stateless)', 'FftwAllocator::instantiate'), ('constants', 'pi'), ('const-casts', 'ContiguousContainerMixin::operator[]')],
  technique='Effect analysis of the type-checked syntax tree (with template instantiations): storage durations, mutable members, casts which drop const, and calls to leaves are enumerated and judged',
  note='Complete for the constructs enumerated (variables with static or thread storage, mutable members, const-dropping casts of the object or constant arguments, calls of named leaves); FFTW planning, which is not thread-safe, is that of the dependency.'),
 dict(id='G02', title='Public headers are self-contained, instantiable and linkable',
  statement='Each public header can be included alone and several times, with any supported compiler and C++ standard from 14; the class templates it declares can be instantiated with all their members for the supported types and dimensions (fixed and variable); and it can be included in several translation units of a same program.',
  over=['configurations', 'programs'], quant='every public header, two compilers, three standards, and the explicit instantiations of the class templates',
  tests='Tests include a few headers in one order, use some members for some types, and link one translation unit each.',
  files=[L + 'AlignedBuffer.h', 'LitlRaster/LitlRaster/Raster.h', 'LitlTransforms/LitlTransforms/SeparableKernel.h', 'LitlRun/LitlRun/StepperPipeline.h'],
  mech=[('inclusion guards', 'all headers'), ('circular inclusions', 'LitlRaster/Raster.h'), ('inline definitions', 'LitlTransforms/Dft.h')],
  technique='Type checking of explicit instantiations in each configuration; linkage analysis of the definitions in the syntax tree', note='Template members are type-checked where the other checks or the classes use them.'),
 dict(id='G03', title='No path falls off its end, dangles, or reads unset values',
  statement='No operation of the library ends without returning its value, returns a reference to a local value, reads a value which is not set or was moved from, dereferences null or released memory, leaks, recurses forever or has unsequenced side effects.',
  over=['inputs', 'programs'], quant='every path of every operation of all headers (with the instantiations of G02 and of the harnesses) and library sources',
  tests='Undefined behaviour often gives the expected result in the configuration of the tests.',
  files=[L + 'AlignedBuffer.h', L + 'Holders.h', 'LitlTransforms/LitlTransforms/DftMemory.h', 'LitlIo/LitlIo/Fits.h'],
  mech=[('buffers', 'AlignedBuffer'), ('plans', 'DftPlan'), ('handles', 'Fits')],
  technique='Flow-sensitive diagnostics and path-sensitive checkers of clang over everything instantiated', note='Not complete: clang reports what its checkers recognise. The thorough tier also runs the path-sensitive checkers on all the instantiations of the harnesses.'),
 dict(id='G04', title='Accesses stay inside of their objects',
  statement='No operation of the library reads or writes out of the bounds of an object it creates or is given as a container (members, local and temporary buffers, storage of containers, shapes, windows, kernels, workspaces, constants), shifts by more than the width of an integer, or ends without returning its value, whatever its arguments in the domain of the operation, including the paths which throw.',
  over=['inputs', 'histories'], quant='every access of objects of known or computed size in the operations which the harnesses of the other properties instantiate, for every value of the unknowns',
  tests='An access out of bounds of a buffer mostly falls in the padding of the allocator or in a neighboring variable, and gives the expected result.',
  files=['LitlRaster/LitlRaster/impl/Raster.hpp', 'LitlRaster/LitlRaster/Box.h', L + 'DataDistribution.h', 'LitlTransforms/LitlTransforms/MedianFilter.h', 'LitlTransforms/LitlTransforms/LineKernel.h', 'LitlTransforms/LitlTransforms/DftPlan.h'],
  mech=[('unchecked element access', 'DataContainer::operator[]'), ('reduced shapes', 'Raster::slice, Raster::section'), ('workspaces', 'MedianFilter::applyTo')],
  technique='Bounds obligations inserted in the intermediate representation after inlining at each access of an object of known or computed size, discharged by the dataflow passes, orderings and linear constraints', note='Complete for the operations instantiated, up to the listed undecided ones; memory given by the caller as a pointer has no known size: its accesses are compared with their specification by the other properties.'),
 dict(id='G05', title='Sizes, positions and indices keep their width',
  statement='Sizes, lengths, strides, positions, indices and offsets are 64-bit integers all along: no operation of the library converts one to a narrower integer (explicitly, implicitly, as a parameter, a result, a variable, an accumulator or a counter). Hence containers and rasters of more than 2^31 elements, or with such coordinates, are sized, compared, indexed and visited as smaller ones. Only numbers of axes and of arguments, and the lengths given to FFTW, are narrower integers, as the interfaces of these libraries require.',
  over=['inputs'], quant='every conversion of a 64-bit integer and every loop counter of the operations of all public headers, library sources and their instantiations',
  tests='No test allocates or addresses more than 2^31 elements.',
  files=['LitlRaster/LitlRaster/Vector.h', 'LitlRaster/LitlRaster/impl/Raster.hpp', L + 'Holders.h', L + 'DataDistribution.h', 'LitlRaster/LitlRaster/Box.h'],
  mech=[('strides', 'shapeStride'), ('indices', 'Internal::IndexRecursionImpl'), ('sizes', 'SizeError::mayThrow')],
  technique='Typed query over the syntax tree with all its template instantiations: integral and floating to integral conversions, accumulators and loop counters are enumerated and judged by width', note='Conversions to a type chosen by the caller are those of values and are left to the other properties.'),
]
