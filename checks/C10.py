from lib import core


def run(rep, tier, work):
    rep.expl = ('fill, range, linspace, min, max and minmax over symbolic bounds and values at sizes 0 to 9: stored values are compared with the definition by value numbering; extrema by enumeration of all orderings of the elements.')
    core.harnesses(rep, work, [{'file': 'seq_gen', 'only': 'h_(rf|lin|ext)_', 'min': 60}, {'file': 'large', 'only': 'h_(fill|ext)_?', 'opts': {'roots': '^h_(fill|ext)'}, 'min': 30}])
