from lib import core


def run(rep, tier, work):
    rep.expl = 'FITS images read from and written to a ghost CFITSIO: type codes, geometry, range, file name and mode, and every pixel.'
    rep.assumptions = ['CFITSIO is replaced by a ghost library which records its arguments, can fail at any call and does nothing once the status is set.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'fits', 'opts': {'walk': 8}, 'only': 'h_io', 'min': 38}])
