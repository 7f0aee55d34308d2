from lib import core


def run(rep, tier, work):
    rep.expl = ('operator== and operator!= over pairs of containers of same and different sizes and storages: the result must fold to the conjunction of element equalities.')
    core.harnesses(rep, work, [{'file': 'seq_eq', 'only': '.', 'min': 10}, {'file': 'large', 'only': 'h_eq_?', 'opts': {'roots': '^h_eq'}, 'min': 4}])
