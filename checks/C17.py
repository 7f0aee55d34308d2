from lib import core


def run(rep, tier, work):
    rep.expl = ('Addresses of data(), begin, end, operator[], front and back, const and mutable, compared by value numbering for symbolic sizes and indices over eight container types.')
    core.harnesses(rep, work, [{'file': 'seq_access', 'only': 'h_con_', 'min': 100}])
