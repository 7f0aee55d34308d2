from lib import core


def run(rep, tier, work):
    rep.expl = 'One step from any position of any box, for each number of carries, is the row-major successor or the end; begin is the front, or the end for empty boxes; resets, copies and comparisons of iterators. By induction the sequence is the row-major sequence.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'box', 'only': 'h_(st|en|ne)_', 'min': 150}])
