from lib import core


def run(rep, tier, work):
    rep.expl = 'The eight loops of the iteration benchmark over symbolic operands, output and clock, in one or two runs.'
    rep.assumptions = ['Random generators and clocks are replaced by ghosts.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'bench', 'opts': {'walk': 8}, 'flags': [f'-I{core.REPO}/LitlRun/src/lib'], 'min': 120}])
