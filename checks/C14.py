from lib import core


def run(rep, tier, work):
    rep.expl = ('Impulse noise and salt and pepper: weights handed to the discrete distribution and value returned for each of its outcomes, for zero, one and two values, with symbolic values and inputs. '
                'The map is a bounded sorted ghost, the discrete distribution and the engine are uninterpreted.')
    core.harnesses(rep, work, [{'file': 'noise', 'opts': {'peel': 2, 'peel_rounds': 1}, 'only': 'h_impulse_', 'min': 80}])
