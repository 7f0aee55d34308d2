from lib import core


def run(rep, tier, work):
    rep.expl = 'FITS images read and written while any operation of the ghost CFITSIO can fail: on every path, an exception of the library is thrown and the file is closed once, and the object can be used again.'
    rep.assumptions = ['CFITSIO is replaced by a ghost library which records its arguments, can fail at any call and does nothing once the status is set.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'fits', 'opts': {'walk': 8}, 'only': 'h_(x_|reuse)', 'min': 16}])
