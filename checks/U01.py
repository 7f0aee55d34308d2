from lib import core


def run(rep, tier, work):
    rep.expl = ('Pipelines of eight steps (no prerequisite, one, several, a tuple of one, an empty tuple) over a ghost clock: order and number of evaluations, values, times, '
                'along requests, resets and failures of each step.')
    rep.assumptions = ['std::map and std::type_index are replaced by ghosts with the same interface.', 'The clock is replaced by a ghost clock whose readings are unknown.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'pipeline', 'opts': {'walk': 8}, 'min': 80}])
