from lib import core


def run(rep, tier, work):
    rep.expl = 'DFT plans along construction, moves, assignment, swap, inversion, composition and given buffers, over a ghost FFTW and a ghost allocator whose states are automata (live, released once).'
    rep.assumptions = ['FFTW is replaced by a ghost library: plans record their arguments, planning and transforms overwrite what the documentation of FFTW says they do, and transforms are uninterpreted functions of the geometry and input values. The numerical results of FFTW are trusted.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'dft', 'opts': {'walk': 8}, 'flags': ['-fno-threadsafe-statics'], 'only': 'h_own', 'min': 7}])
