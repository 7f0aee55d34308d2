from .container import NF, NOTE_NF

LD = NF + ' and linear constraint propagation (convex polyhedra)'
NOTE_LD = ('Every listed dimension is decided for all bounds and positions: operations are inlined into harness roots, compared by value numbering, and branch conditions are '
           'decided in a domain of linear constraints, which over-approximates loops. Trusts the clang front end, the LLVM passes, the exporter and the domain; '
           'dimensions above 4 and index overflows (magnitudes above 100000) are out of reach.')
B = 'LitlRaster/LitlRaster/'
PROPS = [
 dict(id='R01', title='Pixels are stored in row-major order',
  statement='The pixel at position (p0, p1, p2...) of a raster of shape (s0, s1, s2...) is stored at offset p0 + s0 (p1 + s1 (p2 + ...)): index() returns that offset, and operator[] designates that element, for reading as for writing. Shape, length along each axis and dimension are those the raster was made with. A position of another dimension is rejected with the size error.',
  over=['inputs'], quant='every shape and position, fixed dimensions 1 to 6 and variable dimension, every storage kind',
  tests='Tests check single rasters of two or three dimensions at a few positions.',
  files=[B + 'Raster.h', B + 'Vector.h'], mech=[('index', 'Raster::index, IndexRecursionImpl'), ('position access', 'Raster::operator[]')],
  technique=LD, note=NOTE_LD),
 dict(id='R02', title='Bounds-checked access of rasters',
  statement='Checked access at a position whose coordinates are each in [-length, length) designates the pixel whose negative coordinates are counted from the back of their axis. When any coordinate is out of these bounds, the library\'s out-of-bounds error is raised and no pixel is accessed.',
  over=['inputs'], quant='every shape, every position, every axis, const and mutable, fixed and variable dimension',
  tests='Tests check single positions; a wrong bound or axis only shows at the boundary of one particular axis.',
  files=[B + 'Raster.h', 'LitlTypes/LitlTypes/Exceptions.h'], mech=[('checked access', 'Raster::at')],
  technique=LD, note=NOTE_LD),
 dict(id='R04', title='Domain and membership of positions',
  statement='The domain of a raster is the box from the null position to shape - 1. A position, integral or floating, is contained if and only if each coordinate p satisfies 0 <= p < length; NaN coordinates are not.',
  over=['inputs'], quant='every shape and position, fixed dimensions 1 to 3 and variable dimension, integral, single and double precision coordinates',
  tests='Tests hardly sample boundary and no invalid positions.',
  files=[B + 'Raster.h', B + 'Box.h'], mech=[('membership', 'Raster::contains'), ('domain', 'Raster::domain')],
  technique=LD, note=NOTE_LD),
 dict(id='R07', title='Box geometry',
  statement='A box is the set of positions between its front and back, both included: shape is back - front + 1, size is the number of positions (0 when a length is null or negative). Growing, shrinking, shifting, negating and projecting act on each bound of each axis, in place or as a value. Boxes are equal iff all bounds are. Clamping a position to a box or shape returns the position of the box with each coordinate nearest to it.',
  over=['inputs'], quant='every front and back, margins and shifts, fixed dimensions 1 to 6 and variable dimension, integral and floating positions',
  tests='Tests use few symmetric boxes, where front and back or axes can be swapped unnoticed.',
  files=[B + 'Box.h', B + 'Vector.h'], mech=[('algebra', 'Box operators'), ('clamp', 'clamp(position, box)')],
  technique=LD, note=NOTE_LD),
 dict(id='R08', title='Boxes are iterated in row-major order, each position once',
  statement='Iterating over a box visits each of its positions exactly once, in increasing row-major order, and then ends; empty boxes are not iterated over. Pre-increment moves to the next position, post-increment returns the previous one, and iterators are equal iff they designate the same position.',
  over=['inputs', 'histories'], quant='every box and every position in it, fixed dimensions 1 to 6 and variable dimension, every number of carries',
  tests='Tests iterate over a handful of boxes starting at 0.',
  files=[B + 'BoxIterator.h', B + 'Box.h'], mech=[('next position', 'Box::Iterator::next'), ('end position', 'Box::Iterator::endPosition')],
  technique=LD, note=NOTE_LD),
 dict(id='R15', title='Components of complex rasters',
  statement='real, imag, abs, arg and norm of a complex raster yield a real raster of same shape whose pixels are the component of same name of the pixels of same position; the input is unchanged.',
  over=['inputs'], quant='every pixel value, single and double precision, dimensions 1 to 3',
  tests='Tests compare one raster at default precision.',
  files=['LitlRaster/LitlRaster/Raster.h', 'LitlContainer/LitlContainer/Math.h'],
  mech=[('complex to real functions', 'Raster.h')],
  technique=NF, note=NOTE_NF),
 dict(id='R05', title='Sections and slices view the right pixels',
  statement='A section of a raster along its last axis, for one index or a range, and a slice of it along its last axes, are rasters of the documented shape whose pixels are those of the parent at the same position (offset by the front of the section or slice): same address, not a copy, read-only iff the parent is. A region which spans several positions along a dropped axis, or is not contiguous in memory, is rejected with the library error.',
  over=['inputs'], quant='every shape, section index or range, region and position, fixed dimensions 2 to 4 and variable dimension, const and mutable parents',
  tests='Tests slice one small raster; a wrong offset or stride shows only for particular shapes.',
  files=[B + 'Raster.h'], mech=[('sections', 'Raster::section'), ('slices', 'Raster::slice'), ('contiguity', 'Raster::isContiguous')],
  technique=LD, note=NOTE_LD),
 dict(id='R06', title='Subrasters iterate over the pixels of their region',
  statement='A subraster refers to the raster and box it was made from. Its iterators visit the pixels at the positions of the box, in row-major order of the positions, each exactly once, by reference, and then end; pre- and post-increment behave as those of standard iterators.',
  over=['inputs', 'histories'], quant='every parent shape and front position, box lengths 1 to 3 per axis, dimensions 1 to 3 and variable dimension, const and mutable parents',
  tests='Tests iterate over one region of one raster.',
  files=[B + 'Subraster.h', B + 'SubrasterIterator.h'], mech=[('row by row iteration', 'Subraster::Iterator')],
  technique=LD, note=NOTE_LD),
 dict(id='R12', title='Vectors, shapes and strides',
  statement='zero(), one() and inf() have all their coordinates at that value, and isZero(), isOne(), isInf() hold iff all coordinates are. A slice of a vector keeps its first coordinates, an extension keeps all of its coordinates and takes the following ones from the padding (0 by default). The stride along an axis is the product of the lengths along the previous axes, and the size of a shape is the product of its lengths (0 for the empty shape).',
  over=['inputs'], quant='every coordinate, dimensions 1 to 7, fixed and variable, integral and floating coordinates',
  tests='Tests do not cover the constants, strides and extensions.',
  files=[B + 'Vector.h'], mech=[('constants', 'Vector::zero'), ('strides', 'shapeStride')],
  technique=LD, note=NOTE_LD),
 dict(id='R13', title='Samplings visit front, front + step... up to back',
  statement='A sampling of an axis has as many samples as there are values front, front + step, front + 2 step... not after back, and its iterators visit them in this order; a sampling of positions is one sampling per axis, with the bounds of its box and given steps (1 by default). Data samples designate the elements at (front + i step) stride of their data, the default back is the last element, and moving the samples moves the data by the same number of elements.',
  over=['inputs', 'histories'], quant='every front, back, stride and data; every step for positions, several steps for the number of samples',
  tests='Tests check few samplings, most of whose step divides the length.',
  files=[B + 'Sampling.h'], mech=[('count', 'AxisSampling::size'), ('data iterator', 'DataSamples::Iterator')],
  technique=LD, note=NOTE_LD),
 dict(id='R14', title='Rasters are equal iff their shapes and pixels are',
  statement='Two rasters are equal if and only if they have the same shape and the same pixel values, whatever their storage; != is the negation.',
  over=['inputs'], quant='every data and shapes which differ along any one axis or in dimension only, fixed and variable dimensions',
  tests='Tests compare few rasters, which differ in no or all pixels.',
  files=[B + 'Raster.h', 'LitlContainer/LitlContainer/DataContainer.h'], mech=[('equality', 'Raster::operator==')],
  technique=LD, note=NOTE_LD),
 dict(id='R16', title='Rasterizing makes views, not copies',
  statement='rasterize() makes a raster of given shape (1D by default) of which each pixel is the element of given data at the row-major offset of its position: the very same element for pointers and lvalue containers. When the shape and the size of the container do not match, the size error is raised.',
  over=['inputs'], quant='every shape and data, const and mutable, pointers, arrays and vectors',
  tests='Tests check one raster of each kind.',
  files=[B + 'Raster.h'], mech=[('factory', 'rasterize')],
  technique=LD, note=NOTE_LD),
 dict(id='R09', title='The surroundings of a box are a partition',
  statement='The boxes returned by surround(margin) are not empty, do not overlap each other nor the box, and together with the box cover exactly the box grown by the margin; there is one of them for each face whose margin is not null. The box is unchanged.',
  over=['inputs'], quant='every non-empty box and every margin with front <= 0 <= back, each subset of null margins, fixed dimensions 1 to 3 and variable dimension',
  tests='The test checks one box and margin.',
  files=[B + 'Box.h'], mech=[('partition', 'Box::surround')],
  technique=LD, note=NOTE_LD),
 dict(id='R10', title='Balls contain and visit exactly the positions within their radius',
  statement='A ball has given radius and center, its bounding box and shape extend by the integral part of the radius on each side, and shifts and negation act on its center, in place or as a value. Iterating over a ball of norm 1 or 2 visits, in the order of its bounding box, each position whose distance to the center is not greater than the radius, and no other, and then ends.',
  over=['inputs', 'histories'], quant='every center and radius, dimensions 1 to 3 for the properties, each step from any position of the bounding box in dimensions 1 to 3',
  tests='Tests iterate over balls of radius 1.',
  files=[B + 'Ball.h', B + 'BallIterator.h'], mech=[('membership', 'Ball::Iterator::next'), ('bounding box', 'Ball::box')],
  technique=LD, note=NOTE_LD),
 dict(id='R11', title='Iterators over regions are independent values',
  statement='A copied, moved or assigned iterator over a box, ball or subraster designates the same position in the same region as its original; incrementing one does not move the other. Modifying or destroying the region an iterator was made from does not change the positions it visits.',
  over=['histories', 'inputs'], quant='every region and position, fixed dimensions 1 to 3 and variable dimension, sequences of copies, assignments and increments',
  tests='Tests use each iterator in a single loop, over a region which outlives it.',
  files=[B + 'BoxIterator.h', B + 'BallIterator.h', B + 'SubrasterIterator.h'], mech=[('stored region', 'Box::Iterator, Ball::Iterator, Subraster::Iterator')],
  technique=LD, note=NOTE_LD),
]
