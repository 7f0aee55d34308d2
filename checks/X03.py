from lib import core


def run(rep, tier, work):
    rep.expl = 'Line kernels (both classes) applied to data samples of every small extent, offset, stride and step, with symbolic values, against the weighted sum of the in-bounds neighbors; outputs outside of the sampling are compared to their former value.'
    core.harnesses(rep, work, [{'file': 'linek', 'opts': {'peel': 4, 'roots': 'h_(dense_.*[0-9]$|samp|into)'}, 'only': 'h_(dense_.*[0-9]$|samp|into)', 'name': 'linek_1d', 'min': 100}, {'file': 'linek', 'opts': {'peel': 4, 'roots': '_(long|wide)$'}, 'only': '_(long|wide)$', 'name': 'linek_long', 'min': 16, 'heavy': True}, {'file': 'linek', 'opts': {'walk': 8, 'roots': 'h_(along|both|made)'}, 'only': 'h_(along|both|made)', 'name': 'linek_nd', 'min': 10}])
