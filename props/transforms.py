from .container import NF, NOTE_NF
from .raster import LD, NOTE_LD

B = 'LitlTransforms/LitlTransforms/'
PROPS = [
 dict(id='X01', title='Extrapolation follows the boundary conditions',
  statement='Inside the domain of the raster, an extrapolator yields the pixel itself. Outside, the constant extrapolator yields its constant (0 by default), the nearest-neighbor one yields the in-domain pixel whose coordinates are clamped along each axis, and the periodic one yields the pixel whose coordinates are the Euclidean modulo along each axis. Extrapolators and interpolators expose the very raster they decorate, its shape and its domain.',
  over=['inputs'], quant='every raster shape, value, constant and position (inside or out of the domain along any combination of axes), fixed dimensions 1 to 3 and variable dimension',
  tests='Tests check a few positions, mostly within one pixel of the domain.',
  files=[B + 'Interpolation.h', B + 'InterpolationMethods.h'], mech=[('decorator', 'Extrapolator::operator[]'), ('formulae', 'OutOfBoundsConstant::at, NearestNeighbor::at, Periodic::at')],
  technique=LD, note=NOTE_LD),
 dict(id='X02', title='Interpolation weights the right neighbors',
  statement='At an integral position, an interpolator yields the underlying pixel. At a floating position, negative or not, nearest-neighbor interpolation yields the pixel at the nearest integral position (halves are rounded up), linear interpolation is the sum of the 2^N pixels at the floor of the position and the next ones, weighted by the product along the axes of the distances to the opposite pixels, and cubic interpolation is the sum of the 4^N neighboring pixels weighted by the product of the Catmull-Rom weights; the result is of floating type. Out-of-domain neighbors are those of the extrapolator, if any.',
  over=['inputs'], quant='every pixel value and every floating position (exact real arithmetic), dimensions 1 to 3, integer and floating pixels',
  tests='Tests interpolate a few positions of one raster; the swap of linear weights and the rounding of negative coordinates went through.',
  files=[B + 'Interpolation.h', B + 'InterpolationMethods.h'], mech=[('formulae', 'NearestNeighbor::at, Linear::at, Cubic::at')],
  technique=LD + '; pixels are uninterpreted functions of the position, floors are decided over cells', note=NOTE_LD + ' Rounding errors are not modelled: weights are compared over the reals.'),
 dict(id='X03', title='Line kernels weight the neighbors which lie inside the data',
  statement='Correlating 1D data with a line kernel of values k and origin o yields at each sample p of the input sampling the sum of k[q] * in[p + q - o] over the q whose p + q - o lies inside the data (out-of-bounds values are ignored): data are never read outside of their bounds, whatever the sampling, stride, step and extent of the data with respect to the kernel, including kernels which do not contain their origin. Outputs are written in order to the samples of the output sampling, and nothing else is written. The same holds along any axis of a raster and along both axes of an image. The origin, size, window and values of a kernel are those it was made from; the default origin is the size divided by 2.',
  over=['inputs'], quant='every value of the kernel and data (exact real or integer arithmetic), over a family of kernel sizes and origins, data extents, samplings and strides (about 150 geometries, each decided for all values)',
  tests='Tests correlate with two kernels of odd size, larger data and default sampling; out-of-bounds reads at the borders went through.',
  files=[B + 'LineKernel.h', B + 'Convolution.h'], mech=[('bounds', 'LineKernel::correlate, Kernel1d::sparseCorrelate1dTo'), ('along axes', 'Kernel1d::correlateAlong, correlate2dTo, sparseCorrelate2dTo'), ('construction', 'kernelize, LineKernel::LineKernel')],
  technique=LD + '; geometries are enumerated, values are symbolic', note=NOTE_LD + ' Geometries (sizes, origins, samplings) are enumerated, not symbolic: values are decided for all inputs, extents are not.'),
 dict(id='X04', title='Kernels weight the extrapolated neighbors',
  statement='Correlating an extrapolated raster with a kernel of any dimension yields at each position p the sum of kernel(q) * in(p + q) over the window of the kernel, where out-of-domain values are those of the extrapolator (constant, nearest neighbor or periodic), whatever the relative sizes of the raster and kernel and the position of the origin of the kernel, including outside of it. Every output pixel is set exactly to that, and nothing outside of the output raster is written. Kernel values, origin, window and shape are those it was made from.',
  over=['inputs'], quant='every value of the kernel, raster and extrapolation constant (exact arithmetic), over a family of shapes and windows of dimension 1 to 3 and variable dimension (including kernels larger than the raster, of even size, or away from their origin)',
  tests='Tests correlate with centered kernels of odd size smaller than the raster.',
  files=[B + 'Kernel.h', B + 'Interpolation.h'], mech=[('inner and border boxes', 'Kernel::correlateTo, correlateMonolithTo'), ('window', 'Kernel::window, Kernel::origin, kernelize')],
  technique=LD + '; geometries are enumerated, values are symbolic', note=NOTE_LD + ' Geometries (shapes, windows) are enumerated, not symbolic.'),
 dict(id='X05', title='Separable kernels are the products of their components',
  statement='Applying a separable kernel made of line kernels along distinct axes (built from one line kernel along several axes, from products or from a map, in any order of axes) equals the weighted sum with weights the products of the components, with values outside of the raster ignored. Its window and its composition into a non-separable kernel are the outer product of those of the components, in every dimension; composing neither alters nor reorders the values. Products and copies leave their operands unchanged. The Prewitt, Sobel and Scharr kernels are (sign, 0, -sign) along their first axis and (1, 1, 1), (1, 2, 1), (3, 10, 3) along the others; the Laplacian is (sign, -2 sign, sign) along each axis.',
  over=['inputs'], quant='every value of the components and raster (exact arithmetic), over a family of axes, sizes, origins and shapes of dimension 1 to 3',
  tests='Tests check the composition of one symmetric kernel and the Sobel kernel in 2D.',
  files=[B + 'SeparableKernel.h', B + 'LineKernel.h'], mech=[('application', 'SeparableKernel::operator*'), ('composition', 'SeparableKernel::compose, window'), ('named kernels', 'prewitt, sobel, scharr, laplacian')],
  technique=LD + '; geometries are enumerated, values are symbolic', note=NOTE_LD + ' Geometries are enumerated. std::map is replaced by a sorted array of the same interface. Products of kernels which share an axis are out of scope (see the findings in DESIGN.md).'),
 dict(id='X06', title='Filters yield the order statistics of the neighbors',
  statement='At each position p of the region to filter, the median filters (MedianFilter and StructuringElement) yield the median of the values in[p + q] over the positions q of the window (the mean of the two central values if there is an even number of them, whatever the order in which the selection algorithm leaves the values), erosion yields their minimum and dilation their maximum. The window need neither be centered nor symmetric, and can be a ball; out-of-domain neighbors are those of the extrapolator. The default region is the whole output; output pixels out of the region are not written. Filters can be made from a window or a radius, and reused.',
  over=['inputs'], quant='every value of the raster and extrapolation constant, over a family of raster shapes, windows and regions of dimension 1 to 3 and each extrapolator',
  tests='Tests take the median over one centered window of odd size.',
  files=[B + 'MedianFilter.h', B + 'StructuringElement.h'], mech=[('selection', 'MedianFilter::median, StructuringElement::neighborsMedian, neighborsMin, neighborsMax'), ('neighborhood', 'MedianFilter::applyTo, StructuringElement::loadNeighbors')],
  technique=LD + '; geometries are enumerated, values are symbolic', note=NOTE_LD + ' Geometries are enumerated. std::nth_element is replaced by a ghost meeting its contract with increasing or decreasing remainders.'),

 dict(id='X07', title='DFT plans transform the geometry and buffers they declare',
  statement='A real or complex DFT plan of any dimension hands FFTW its logical lengths in the order which makes the first axis the contiguous one, its direction (forward for direct plans, backward for inverse ones), and its own buffers. Real direct outputs and real inverse inputs have length n/2 + 1 along their first axis, all the other buffers have the logical shape. transform() fills the output buffer with the transform of the values put in the input buffer after construction, and can be run again; normalize() divides the output by the logical number of elements (not the number of coefficients). The inverse plan has the same logical shape and the swapped buffers, and the inverse of the inverse is the direct transform.',
  over=['inputs'], quant='every input value, over a family of shapes of dimension 1 to 3 with even and odd lengths, for the four kinds of plans',
  tests='Tests transform one shape back and forth, which a wrong axis order, direction or flag survives for symmetric data.',
  files=[B + 'Dft.h', B + 'DftPlan.h', B + 'DftMemory.h'], mech=[('plans', 'allocateFftwPlan, fftwShape'), ('shapes', 'inShape, outShape'), ('normalization', 'DftPlan::normalize')],
  technique=LD + '; FFTW is a ghost library whose transforms are uninterpreted functions', note=NOTE_LD + ' FFTW itself (numerical results, documented side effects) is trusted.'),
 dict(id='X08', title='DFT plans and their buffers are released once',
  statement='Every FFTW plan created is destroyed exactly once, and every buffer allocated is released exactly once, along construction with or without given buffers, inversion, composition, move construction, move assignment (including over a plan in use) and swap; no destroyed plan is executed. Moving neither allocates nor replans, and the moved plan works on the same buffers. Inverse and composed plans share the buffers instead of copying them. Given buffers are used as is and never released.',
  over=['histories', 'inputs'], quant='every path of the enumerated operation sequences, for all values',
  tests='Tests never move a plan nor count the plans alive; FFTW leaks are silent.',
  files=[B + 'DftPlan.h', B + 'DftMemory.h'], mech=[('ownership', 'DftPlan::~DftPlan, operator=, FftwAllocator::destroyPlan'), ('sharing', 'DftPlan::inverse, compose')],
  technique='Typestate analysis: the states of plans and allocations are ghost automata propagated through canonical LLVM IR', note=NOTE_LD + ' Operation sequences are enumerated. FFTW is a ghost library.'),
 dict(id='X09', title='DFT functions return the transform of their input',
  statement='realDft, complexDft, inverseRealDft and inverseComplexDft return a raster of the right shape which owns the transform of the values of the input raster (real values are valid input of the complex DFT); inverse functions normalize by the logical number of elements. The values are copied after the planning, which overwrites the buffers. The input is not modified, all temporary plans and buffers are released, and the returned buffer is not.',
  over=['inputs'], quant='every input value, over a family of shapes of dimension 1 to 3',
  tests='Tests check a back and forth transform of one shape.',
  files=[B + 'Dft.h', B + 'DftPlan.h'], mech=[('functions', 'realDft, complexDft, inverseRealDft, inverseComplexDft')],
  technique=LD + '; FFTW is a ghost library whose transforms are uninterpreted functions', note=NOTE_LD + ' FFTW itself is trusted.'),
]
