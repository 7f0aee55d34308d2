from lib import core


def run(rep, tier, work):
    rep.expl = 'Extrapolators evaluated at symbolic positions on each side of the domain along each axis: address of the yielded pixel, or constant.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'interp', 'only': 'h_(pr|co|nn|cst|per)', 'min': 120}])
