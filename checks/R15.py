from lib import core


def run(rep, tier, work):
    rep.expl = ('real, imag, abs, arg and norm of complex rasters are compared, element by element, to the standard function of same name, and the shape of the result to the shape of the input.')
    core.harnesses(rep, work, [{'file': 'math', 'flags': ['-fno-math-errno'], 'only': 'h_cr', 'min': 20}])
