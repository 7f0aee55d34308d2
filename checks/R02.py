from lib import core


def run(rep, tier, work):
    rep.expl = 'Checked access with every coordinate in [-length, length) is compared with the row-major polynomial of the wrapped coordinates; with any coordinate below or above, the access must throw OutOfBoundsError. Symbolic shapes and positions, path-sensitive in a linear constraint domain.'
    rep.assumptions = ['Index and coordinate magnitudes stay below 100000, such that no product overflows.']
    core.harnesses(rep, work, [{'file': 'raster_index', 'only': 'h_at|h_x_at', 'min': 50}])
