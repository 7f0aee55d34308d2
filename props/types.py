from .container import NF, NOTE_NF

PROPS = [
 dict(id='T01', title='Exceptions: hierarchy, conditions and messages',
  statement='Every exception class of the library is a Litl exception and a standard exception. Bounds, null pointer and size checks throw their own error type exactly when the value is outside of the closed interval, the pointer is null, or the sizes differ. The message is the prefix, a colon and the text, followed by the appended lines in order, each indented by two spaces per level; it reports the value and the bounds or sizes.',
  over=['inputs'], quant='every value, bounds, pointer, size, text and indentation, integral and floating values',
  tests='The only test looks for two substrings in one message.',
  files=['LitlTypes/LitlTypes/Exceptions.h', 'LitlContainer/LitlContainer/Holders.h', 'LitlContainer/LitlContainer/AlignedBuffer.h'],
  mech=[('composition of the message', 'Exception'), ('conditional throws', 'mayThrow of each error class')],
  technique=NF, note=NOTE_NF + ' Strings are ghosts: their image is a 64-bit polynomial.'),
 dict(id='T02', title='Limits, clamp, floor and segments',
  statement='The limits of each supported type are those of the language, with both components set for complex types; clamp returns the value itself inside of the bounds and the nearest bound outside; floor returns the largest integer which is not greater than the value; a segment made of a front and a size ends at front + size - 1.',
  over=['inputs'], quant='11 integral, 2 floating and 2 complex types, every value and bounds',
  tests='There is no test of these helpers: they are used through other functions with positive values.',
  files=['LitlTypes/LitlTypes/TypeUtils.h', 'LitlTypes/LitlTypes/Segment.h'],
  mech=[('numeric limits', 'Limits'), ('scalar to complex', 'TypeTraits'), ('clamp and floor', 'TypeUtils.h'), ('segments', 'Segment')],
  technique=NF + '; piecewise evaluation over the cells where truncation is constant', note=NOTE_NF + ' Floor is decided for values in [-8, 8].'),
 dict(id='T04', title='Sequence helpers call functions once per item, in order',
  statement='Helpers on tuples, arrays, vectors and tuples of iterators call the function exactly once per item (or once per tuple), from first to last, with the item itself or a reference to it when it can be modified, and put the results in the same order; tuples of iterators are advanced by one. Serialization separates the arguments and nothing else.',
  over=['inputs'], quant='every item, every function with state, sequences of zero to three items',
  tests='Tests use functions without state, for which order and number of calls cannot be seen.',
  files=['LitlTypes/LitlTypes/SeqUtils.h'],
  mech=[('pack expansion in order', 'Internal::tupleForeachImpl, tupleTransformImpl'), ('iterator increment', 'Internal::iteratorTupleApplyImpl'), ('dispatch', 'isTuple, isIterable')],
  technique=NF, note=NOTE_NF),
]
