from lib import core


def run(rep, tier, work):
    rep.expl = 'N-dimensional kernels applied to rasters of concrete shapes with symbolic values, with each extrapolator, against the weighted sum of the neighbors.'
    core.harnesses(rep, work, [
        {'file': 'kernel', 'opts': {'walk': 8, 'roots': 'h_(const|near|period)_[123][a-z]$|h_(prop|times|variable)'}, 'only': '([123][a-z]$|prop|times|variable)', 'min': 30},
        {'file': 'kernel', 'name': 'kernel_large1', 'opts': {'walk': 8, 'roots': '_1(large|wide)$'}, 'only': '_1(large|wide)$', 'min': 12, 'heavy': True},
        {'file': 'kernel', 'name': 'kernel_large2', 'opts': {'walk': 8, 'roots': '_2large$'}, 'only': '_2large$', 'min': 9, 'heavy': True},
        {'file': 'kernel', 'name': 'kernel_wide2', 'opts': {'walk': 8, 'roots': '_2(flat|wide)$'}, 'only': '_2(flat|wide)$', 'min': 12, 'heavy': True},
    ])
