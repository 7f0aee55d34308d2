from lib import core


def run(rep, tier, work):
    rep.expl = ('Every in-place operator and filling method is instantiated with an operand that is an element of the container, or the container itself; the stored values must have the normal form of the operation on the values held at entry.')
    core.harnesses(rep, work, [{'file': 'seq_alias', 'only': '.', 'min': 10}, {'file': 'large', 'only': 'h_alias_?', 'opts': {'roots': '^h_alias'}, 'min': 2}])
