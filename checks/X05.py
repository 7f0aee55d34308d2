from lib import core


def run(rep, tier, work):
    rep.expl = 'Separable kernels of concrete geometries and symbolic values: application, products, composition, windows and named kernels.'
    core.harnesses(rep, work, [{'file': 'sepk', 'opts': {'walk': 8}, 'min': 14}])
