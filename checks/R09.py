from lib import core


def run(rep, tier, work):
    rep.expl = 'For each set of faces with a margin (4 in dimension 1, 16 in dimension 2, 64 in dimension 3), with symbolic bounds and margins: one box per face, non-empty, inside the grown box, outside of the inner box, pairwise disjoint, and whose sizes and that of the inner box sum to that of the grown box (polynomial identity).'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'surround', 'min': 800}])
