from lib import core


def run(rep, tier, work):
    rep.expl = ('Every arithmetic operator of sequences, rasters and vectors is instantiated over int, unsigned char, long, float, double and complex elements, '
                'inlined and canonicalised; the value number of each result element must equal the value number of the operator applied to the operands of same index.')
    core.harnesses(rep, work, [{'file': 'arith', 'min': 500}, {'file': 'large', 'only': 'h_arith_?', 'opts': {'roots': '^h_arith'}, 'min': 4}])
