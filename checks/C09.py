from lib import core


def run(rep, tier, work):
    rep.expl = ('generate and apply with one to three inputs, an opaque function symbol and a stateful functor: stored values must have the normal form f(inputs of same index), and the functor state that of one call per element in order.')
    core.harnesses(rep, work, [{'file': 'seq_gen', 'only': 'h_gen', 'min': 20}, {'file': 'large', 'only': 'h_gen_?', 'opts': {'roots': '^h_gen'}, 'min': 8}])
