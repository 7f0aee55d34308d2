from lib import core


def run(rep, tier, work):
    rep.expl = ('Conditions under which each error type is thrown, over symbolic values, and composition of the texts (of constructed exceptions and of those which the checks throw), with a '
                'ghost string whose concatenation is linear so that texts with symbolic parts have a normal form. The class hierarchy is asserted by the type system.')
    rep.assumptions = ['two different texts have different images by the ghost string (a 64-bit polynomial hash)']
    core.harnesses(rep, work, [{'file': 'errors', 'opts': {'textops': '^$'}, 'min': 55}, {'file': 'thrown', 'opts': {'textops': '^$'}, 'min': 7}])
