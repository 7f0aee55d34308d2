from lib import core


def run(rep, tier, work):
    rep.expl = 'Sections along the last axis and slices of fixed and variable dimension, const and mutable: shape and address of every pixel, compared by value number with the row-major polynomial; slices of a region which spans more than one position along a dropped axis, or is not contiguous, must throw.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'raster_views', 'only': 'h_(sec|sek|sl|x_sl)', 'min': 200}])
