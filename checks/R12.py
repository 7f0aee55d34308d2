from lib import core


def run(rep, tier, work):
    rep.expl = 'Constants of vectors, comparisons to constants, slices, extensions, strides and sizes of shapes, coordinate by coordinate with symbolic coordinates.'
    core.harnesses(rep, work, [{'file': 'vec_samp', 'only': 'h_(cst|noc|slice|extend|str)', 'min': 60}])
