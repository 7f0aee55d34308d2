from lib import core


def run(rep, tier, work):
    rep.expl = 'Type-level witnesses: the types of accessors, views and iterators of constant and other objects, the implicit conversions, copies and moves, as computed by the type checker for the current tree.'
    core.harnesses(rep, work, [{'file': 'constness', 'min': 30}])
