from .container import NF, NOTE_NF
from .raster import LD, NOTE_LD

B = 'LitlIo/LitlIo/'
PROPS = [
 dict(id='I01', title='FITS images keep the type, shape and values of rasters',
  statement='Writing a raster creates the file of given name with an image of the dimension and shape of the raster and of the BITPIX which represents its value type exactly (8 to 64-bit signed and unsigned integers, and single and double-precision floats), and writes all its values, from the first one, with the memory type of the raster; the raster is not modified. Reading opens the file of given name read-only, yields a raster of the shape of the image (variable or matching fixed dimension), and fills exactly its values in its own type. The file is closed afterwards, once, and a Fits object can be reused for other operations.',
  over=['inputs'], quant='every pixel value and file name, for 12 value types, over a family of shapes of dimension 1 to 3 and variable dimension',
  tests='The only test writes and reads 8-bit integers in 2D; wider types were read and written as bytes.',
  files=[B + 'Fits.h'], mech=[('codes', 'fitsTypeCode'), ('input', 'Fits::read'), ('output', 'Fits::write')],
  technique=LD + '; CFITSIO is a ghost library', note=NOTE_LD + ' CFITSIO itself and the file system are trusted; the type conversions of CFITSIO are not modelled.'),
 dict(id='I02', title='FITS failures throw and close the file',
  statement='When any CFITSIO operation fails while reading or writing (missing file, existing file, wrong image, read or write error, error at closing), an exception of the hierarchy of the library is thrown, the file handle, if open, is closed exactly once, and the Fits object can be used again. Reading an image whose dimension is not that of the raster type throws instead of overflowing the shape. No failure is silent.',
  over=['inputs', 'fault_sequences'], quant='every combination of failing operations',
  tests='Tests never make an operation fail; failures were silent and handles leaked.',
  files=[B + 'Fits.h'], mech=[('status', 'Fits::mayThrow'), ('dimension', 'Fits::read')],
  technique='Typestate analysis over all paths, including exceptional ones: the states of the ghost CFITSIO (file open, failed, closed) are propagated through canonical LLVM IR', note=NOTE_LD + ' CFITSIO is a ghost library; failures of memory allocation are out of scope.'),
]
