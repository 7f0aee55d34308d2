from lib import core


def run(rep, tier, work):
    rep.expl = 'The tokens inserted into a ghost stream by containers, rasters, positions and vectors of 0 to 24 symbolic values, against the expected text.'
    core.harnesses(rep, work, [{'file': 'print', 'min': 60}])
