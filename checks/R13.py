from lib import core


def run(rep, tier, work):
    rep.expl = 'Axis, position and data samplings: number of samples in the linear constraint domain, each step of their iterators by value number, with symbolic front, back, step, stride and data.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'vec_samp', 'only': 'h_(ax|pos|data)', 'min': 100}])
