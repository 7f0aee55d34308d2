from lib import core


def run(rep, tier, work):
    rep.expl = 'Properties and operators of balls of dimensions 1 to 3, and iteration step by step: a position inside the ball is visited, a position outside is skipped towards the next one of the box, for each number of carries; the visited positions are in the ball; the end is that of the bounding box. Symbolic center and radius.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.', 'Floating point arithmetic is taken as exact; NaN radii are excluded.']
    core.harnesses(rep, work, [{'file': 'ball', 'min': 400, 'opts': {'peel': 2}}])
