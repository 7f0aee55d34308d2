from lib import core


def run(rep, tier, work):
    rep.expl = 'Equality and inequality of rasters of the same or different shapes, data, dimension or storage, path-sensitively.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'raster_views', 'only': 'h_(eq|sh)', 'min': 20}])
