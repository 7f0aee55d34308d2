from lib import core


def run(rep, tier, work):
    rep.expl = 'Copies, moves and assignments of box, ball and subraster iterators, followed by increments of either, with symbolic regions and positions; iterators of regions which are then modified or destroyed.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.', 'Floating point arithmetic is taken as exact; NaN radii are excluded.']
    core.harnesses(rep, work, [{'file': 'iters', 'min': 70, 'opts': {'peel': 2}}])
