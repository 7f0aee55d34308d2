from lib import core


def run(rep, tier, work):
    rep.expl = ('Checked access of eight container types is analysed for a symbolic size and index: for indices assumed in range, the address must equal data() + i or data() + size + i '
                'and no throw may survive; for indices assumed out of range, no return may survive and every throw has the out-of-bounds type.')
    core.harnesses(rep, work, [{'file': 'seq_access', 'only': 'h_(x_)?at_', 'min': 80}])
