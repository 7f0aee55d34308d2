from lib import core


def run(rep, tier, work):
    rep.expl = 'Index, position access, shape, length of rasters of fixed dimensions 1 to 6 and variable dimensions 1 to 6, with symbolic shapes and positions, compared by value number with the row-major polynomial; mismatched dimensions must throw SizeError.'
    core.harnesses(rep, work, [{'file': 'raster_index', 'only': 'h_ix|h_x_ix|h_len', 'min': 90}])
