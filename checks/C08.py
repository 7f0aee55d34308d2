from lib import core


def run(rep, tier, work):
    rep.expl = ('Each mathematical function is instantiated on sequences and rasters, as a new instance and in place, with a container, a scalar, an element of the container or the container itself; '
                'stored values must be the application of the standard function of same name (an uninterpreted pure function) to the operands of same index, in order.')
    core.harnesses(rep, work, [
        {'file': 'math', 'flags': ['-fno-math-errno'], 'only': 'h_(un|bin|int)_', 'min': 300},
        {'file': 'math', 'name': 'pi', 'flags': ['-fno-math-errno', '-fno-threadsafe-statics'], 'opts': {'guards': True, 'roots': '^h_first_'}, 'only': 'h_first_', 'min': 2},
        {'file': 'large', 'only': 'h_math_?', 'flags': ['-fno-math-errno'], 'opts': {'roots': '^h_math'}, 'min': 1},
    ])
