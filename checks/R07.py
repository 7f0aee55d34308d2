from lib import core


def run(rep, tier, work):
    rep.expl = 'Every property and operator of boxes of dimensions 1 to 6 (fixed and variable) against its definition coordinate by coordinate; size of empty and non-empty boxes; equality; projections; clamping in each third of each axis. Symbolic bounds.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'box', 'only': 'h_(ba|vo|nv|ce|op|eq|cl|cs|whole|len)', 'min': 500}])
