from lib import core


def run(rep, tier, work):
    rep.expl = 'Domain bounds of rasters, and membership of integral and floating positions, inside or outside of each bound of each axis (NaN included), with symbolic shapes.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'raster_index', 'only': 'h_ix|h_has', 'min': 90}])
