from lib import core


def run(rep, tier, work):
    rep.expl = ('Uniform, Gaussian and Poisson generators over integer, real and complex elements: each draw must be the uninterpreted distribution of the given parameters at the given seed and rank, '
                'so that neither the environment nor another generator can contribute. Engines, distributions and the clock are ghosts.')
    core.harnesses(rep, work, [{'file': 'noise', 'opts': {'peel': 2, 'peel_rounds': 1}, 'only': 'h_seed_', 'min': 70}])
