from lib import core


def run(rep, tier, work):
    rep.expl = 'DFT plans of every kind and direction over a ghost FFTW: recorded geometry, direction, buffers, normalization factor, and data flow from input to output.'
    rep.assumptions = ['FFTW is replaced by a ghost library: plans record their arguments, planning and transforms overwrite what the documentation of FFTW says they do, and transforms are uninterpreted functions of the geometry and input values. The numerical results of FFTW are trusted.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'dft', 'opts': {'walk': 8}, 'flags': ['-fno-threadsafe-statics'], 'only': 'h_(plan|run)', 'min': 16}])
