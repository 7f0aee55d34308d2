from lib import core


def run(rep, tier, work):
    rep.expl = 'Median and morphological filters of concrete geometries over extrapolated rasters of symbolic values, compared to the order statistics of the neighbors.'
    rep.assumptions = ['std::nth_element and std::sort are replaced by loop-free ghosts which meet their contract in two adversarial orders.']
    core.harnesses(rep, work, [{'file': 'filter', 'opts': {'walk': 8}, 'min': 100}])
