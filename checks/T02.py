from lib import core


def run(rep, tier, work):
    rep.expl = ('Limits of 11 integral, 2 floating and 2 complex types are folded and compared to the limits of the C standard; clamp by enumeration of the orderings of its operands; '
                'floor on every cell of the real line where its truncation is constant; segments in normal form; type traits by static assertions.')
    rep.assumptions = ['floor: inputs in [-8, 8]; clamp: bounds are ordered and not NaN']
    core.harnesses(rep, work, [{'file': 'types', 'min': 170}])
