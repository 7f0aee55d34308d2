from lib import core


def run(rep, tier, work):
    rep.expl = ('Stable Poisson noise over integer, real and complex elements: the k-th draw must be the uninterpreted Poisson distribution of the input, with a fresh engine seeded by the k-th value '
                'of the seeder, whatever the previous inputs are.')
    core.harnesses(rep, work, [{'file': 'noise', 'opts': {'peel': 2, 'peel_rounds': 1}, 'only': 'h_stable_', 'min': 30}])
