from .container import NF, NOTE_NF
from .raster import LD, NOTE_LD

B = 'LitlRun/LitlRun/'
GH = ' The clock is a ghost clock whose readings are unknown.'
PROPS = [
 dict(id='U01', title='Pipelines evaluate each step once, after its prerequisites',
  statement='Requesting a step of a pipeline evaluates its prerequisites (none, one, several, a tuple of one or an empty tuple, recursively) before it, each at most once whatever the number of dependants and of requests, and returns its value as declared (references are not copied). A step is evaluated iff it was requested or is a prerequisite of a requested step; its time is that of its own evaluation in milliseconds, or -1 if not evaluated, and the total is the sum of the times. Resetting forgets all evaluations. A step which throws propagates its exception, stops the request, is not marked as evaluated, and can be requested again. Pipelines are independent from each other.',
  over=['inputs', 'histories', 'fault_sequences'], quant='every value of the steps, every reading of the clock, and the histories of requests, resets and failures of a pipeline of ten steps',
  tests='Tests request four steps in one order; they never fail, reset or compare times.',
  files=[B + 'StepperPipeline.h'], mech=[('prerequisites', 'StepperPipeline::get'), ('laziness', 'StepperPipeline::evaluateGet')],
  technique='Typestate analysis of the steps (never evaluated, evaluated) along each history, including exceptional paths: the log of a ghost pipeline is propagated through canonical LLVM IR',
  note=NOTE_LD + GH + ' The registry of steps is a ghost map; thread-safety is explicitly not provided by the library.'),
 dict(id='U02', title='Chronometers account for every increment exactly',
  statement='A chronometer measures the time between each start and stop, truncated to its unit: stop() returns it, last() repeats it, increments() lists them in order, count() is their number, and elapsed() is the offset plus their sum. Restarting discards the previous start. The mean, the minimum, the maximum and the biased standard deviation are those of the increments alone, and the latter is never the square root of a negative number. Resetting forgets everything but the new offset. isRunning() holds from start to stop or reset. Copies are independent.',
  over=['inputs', 'histories'], quant='every reading of the clock and offset, over histories of up to five increments in four units',
  tests='Tests sleep for a few milliseconds and compare with tolerances; large or equal increments are not sampled.',
  files=[B + 'Chronometer.h'], mech=[('increment', 'Chronometer::stop'), ('statistics', 'Chronometer::mean, Chronometer::stdev'), ('state', 'Chronometer::reset')],
  technique=LD + '; sign analysis of the argument of the square root', note=NOTE_LD + GH + ' Floating-point sums are compared up to reassociation.'),
 dict(id='U03', title='Program options declare and parse what they are asked to',
  statement='Each named, positional or flag option is declared once, in order, with its name, type, default value and description; positional options are also listed in order with the number of arguments they take; flags are false by default and true when given without value. The help title contains the description. Copies are independent. Parsing a command line given as a main-like array, a vector of C or C++ strings or a space-separated string yields, for each option, the value in that command line: all its arguments are used, with all the declared options, exactly once, and values of previously parsed command lines are forgotten. A wrong command line is reported by an exception and leaves the previous values unchanged.',
  over=['inputs', 'histories', 'fault_sequences'], quant='every name, description, default value and command line (as opaque words), over declarations of up to four options and command lines of one to four words',
  tests='Tests declare seven options and parse half a dozen command lines; they never parse the same option twice, nor copy options.',
  files=[B + 'ProgramOptions.h'], mech=[('declaration', 'ProgramOptions::named, ProgramOptions::positional'), ('parsing', 'ProgramOptions::parse')],
  technique=LD + '; Boost.ProgramOptions is a ghost library which records declarations and command lines', note=NOTE_LD + ' The grammar of command lines and the conversion of words to values are those of Boost, which is trusted.'),
 dict(id='U04', title='All benchmarked loops compute the same sum',
  statement='Each method of the iteration benchmark (loops over x-y-z and z-y-x, positions, indices, values, operator, generator) sets each value of the output to the sum of the values of the two operands at the same position, converted to the value type, leaves the operands and the shapes unchanged, and returns the time between its start and its end. Running again gives the sums and the time of the new run.',
  over=['inputs'], quant='every value of the operands and of the previous output, and every reading of the clock, for cubes of side 1 to 3',
  tests='The benchmark has no test.',
  files=[B + 'IterationBenchmark.h', 'LitlRun/src/lib/IterationBenchmark.cpp'], mech=[('loops', 'IterationBenchmark')],
  technique=LD, note=NOTE_LD + GH + ' Random values are unknown.'),
]
