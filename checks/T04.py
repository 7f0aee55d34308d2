from lib import core


def run(rep, tier, work):
    rep.expl = ('Tuple, array, iterator tuple and vector helpers called with a function which records the rank and argument of each call: trace, results and modified items in normal form; '
                'type predicates by static assertions; serialization into a recording logger.')
    core.harnesses(rep, work, [{'file': 'sequtils', 'min': 70}])
