from lib import core


def run(rep, tier, work):
    rep.expl = 'Subrasters: parent, box, and every step of their iterators, whose address is compared by value number with the row-major offset of the position; symbolic shapes and fronts, box lengths 1 to 3.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'raster_views', 'only': 'h_(sub|it)', 'min': 200}])
