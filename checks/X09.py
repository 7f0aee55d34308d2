from lib import core


def run(rep, tier, work):
    rep.expl = 'Free DFT functions over a ghost FFTW: returned values as uninterpreted functions of the input raster, release of the plans, ownership of the returned buffer.'
    rep.assumptions = ['FFTW is replaced by a ghost library: plans record their arguments, planning and transforms overwrite what the documentation of FFTW says they do, and transforms are uninterpreted functions of the geometry and input values. The numerical results of FFTW are trusted.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'dft', 'opts': {'walk': 8}, 'flags': ['-fno-threadsafe-statics'], 'only': 'h_fun', 'min': 9}])
