import glob, os
from lib import core, src

# Bindings to FFTW, whose interface takes the lengths of each axis as int
FFTW = [f'LitlTransforms/LitlTransforms/{f}' for f in ('Dft.h', 'DftMemory.h', 'DftPlan.h')]


def run(rep, tier, work):
    rep.expl = ('Conversions of 64-bit integers to narrower ones, explicit or not, and loops whose counter is narrower than their bound, in the type-checked syntax tree of all '
                'headers, sources and instantiations (those of the harnesses included).')
    rep.assumptions = ['Numbers of axes and of arguments (as opposed to numbers of elements) fit in any integer.', 'FFTW takes lengths as int: Dft.h, DftMemory.h and DftPlan.h are out.',
                       'Conversions to a type chosen by the caller (a template parameter) are those of values, not of sizes.']
    harness = sorted(f for f in glob.glob(os.path.join(core.VERIF, 'harness', '*.cpp')) if os.path.basename(f) != 'all.cpp')
    every = [src.everything(work), os.path.join(core.VERIF, 'harness', 'all.cpp'), *src.sources()]
    t, errors = src.tree(work, every)
    for e in errors[:3]:
        rep.undecided('parse', 'everything', e[-300:])

    def one(f):
        try:
            return src.tree(work, [f], flags=['-DNDEBUG', '-include', 'stdexcept', '-Wno-c++11-narrowing', '-ferror-limit=0', f'-I{core.VERIF}/harness'])[0]
        except core.Broken as e:
            return str(e)[-200:]
    for f, u in zip(harness, src.parallel(one, harness)):
        if isinstance(u, str):
            rep.undecided('parse', os.path.basename(f), u)
            continue
        for k in ('functions', 'narrowings', 'counters'):
            t[k] += [x for x in u[k] if k == 'functions' or x not in t[k]]
    for k in ('narrowings', 'counters'):
        t[k] = [x for x in t[k] if x['file'] not in FFTW]
    rep.functions |= set(t['functions'])
    bad = {(x['file'], x['function']) for k in ('narrowings', 'counters') for x in t[k]}
    for x in t['narrowings']:
        rep.violation('narrowing', f"{x['function']}/{x['to']}", f"{x['file']}:{x['line']}", f"a size, index or offset ({x['from']}) becomes a narrower integer ({x['to']}) in {x['function']}")
    for x in t['counters']:
        rep.violation('counter', f"{x['function']}/{x['counter']}", f"{x['file']}:{x['line']}", f"the counter {x['counter']} ({x['type']}) is narrower than its bound in {x['function']}")
    for f in sorted(set(t['functions'])):
        if f not in {n for _, n in bad}:
            rep.held('width', f)
