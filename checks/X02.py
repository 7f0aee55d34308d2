from lib import core


def run(rep, tier, work):
    rep.expl = 'Interpolators evaluated at symbolic floating positions over rasters whose pixels are uninterpreted functions of the position, against the weighted sums of the neighbors.'
    rep.assumptions = ['Arithmetic is that of the reals.']
    core.harnesses(rep, work, [{'file': 'interp', 'only': 'h_(near|lin|cub_[12]|over)', 'min': 16}, {'file': 'interp', 'name': 'interp_cubic3', 'only': 'h_cub_3', 'min': 1}])
