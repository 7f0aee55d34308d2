from lib import core


def run(rep, tier, work):
    rep.expl = ('Constructors of sequences and rasters from sizes, shapes, lists, iterables and moved containers, on vector, array, valarray and pointer storage: '
                'no throw may survive for consistent sizes, no return for inconsistent ones, and every surviving throw is the size error. Lengths are symbolic.')
    core.harnesses(rep, work, [{'file': 'ctor', 'only': 'h_(x_)?size_', 'min': 25}])
