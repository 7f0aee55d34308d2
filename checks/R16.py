from lib import core


def run(rep, tier, work):
    rep.expl = 'rasterize() of pointers, arrays, vectors and rasters: shape, size and address of the pixels; mismatched sizes must throw.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'raster_views', 'only': 'h_(wrap|x_wrap)', 'min': 15}])
