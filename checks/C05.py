from lib import core


def run(rep, tier, work):
    rep.expl = ('Copies, moves and assignments of containers on every storage: element values by value numbering, independence of the copies, identity of moved-in and moved-out memory, '
                'and address and size of views.')
    core.harnesses(rep, work, [{'file': 'ctor', 'only': 'h_(?!x_|size_)', 'min': 100}, {'file': 'large', 'only': 'h_copy_?', 'opts': {'roots': '^h_copy'}, 'min': 4}])
