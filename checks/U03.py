from lib import core


def run(rep, tier, work):
    rep.expl = 'Declarations of options (named, positional, flags, custom) recorded by a ghost Boost.ProgramOptions, copies, and parsing of command lines in four forms, once, several times, and with failures of each parsing step.'
    rep.assumptions = ['Boost.ProgramOptions is replaced by a ghost library with the same interface.', 'Strings are replaced by ghost strings.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'options', 'opts': {'walk': 8}, 'flags': [f'-I{core.VERIF}/harness/ghost_boost'], 'min': 160}])
