from lib import core


def run(rep, tier, work):
    rep.expl = ('Data distributions of one to three symbolic values, sorted or not: order statistics, quantiles, moments, median absolute deviation and histograms are put in normal form and '
                'compared to their definitions, by enumerating the orderings of the compared values. The standard sort and selection are replaced by loop-free stand-ins meeting their contracts adversarially.')
    rep.assumptions = ['bins are sorted', 'floating values are not NaN']
    core.harnesses(rep, work, [{'file': 'distrib', 'opts': {'peel': 2, 'peel_rounds': 1}, 'min': 250}])
