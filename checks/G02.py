import itertools, os, re
from lib import core, inst, src

CONFIGS = [(c, s) for s in ('c++14', 'c++17', 'c++20') for c in ('clang++-18', 'g++')]


def run(rep, tier, work):
    rep.expl = 'Each public header is included alone, twice, with explicit instantiations of its class templates (hence all their members), and type-checked by two compilers in three standards; the definitions of the headers are checked for linkage in the syntax tree.'
    rep.assumptions = ['Headers which need a library that is not installed (Png.h, Tiff.h) and unfinished ones (Matrix.h, Affinity.h) are out.']
    skip = {'LitlIo/Png.h', 'LitlIo/Tiff.h', 'LitlRaster/Matrix.h', 'LitlTransforms/Affinity.h'}
    present = src.headers()
    for h in inst.HEADERS:
        if h not in present:
            rep.violation('header', h, h, 'public header which does not exist any more')
    jobs = [(h, c) for h in present if h not in skip for c in CONFIGS]

    def one(a):
        h, (c, s) = a
        f = src.write(work, f'{h.replace("/", "_")}.{c}.{s}.cpp', inst.unit([h]))
        r = core.sh([c, f'-std={s}', '-fsyntax-only', '-w', *src.INC, f], timeout=300)
        return a, r.returncode, r.stderr
    ill = set()
    for (h, (c, s)), rc, err in src.parallel(one, jobs):
        i = f'{h}/{c}/{s}'
        if rc == 0:
            rep.held('well-formed', i)
            continue
        bad = re.findall(r'^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$', err, re.M)
        own = [b for b in bad if b[0].startswith(core.REPO)]
        if own:
            f, l, m = own[0]
            if h not in ill:
                rep.violation('well-formed', h, f'{core.rel(f)}:{l}', f'{c} -std={s}: {m}')
            ill.add(h)
        else:
            rep.undecided('well-formed', i, '; '.join(b[2] for b in bad[:2]) or err[-300:])
    t, errors = src.tree(work, [src.everything(work), os.path.join(core.VERIF, 'harness', 'all.cpp')])
    for e in errors[:3]:
        rep.undecided('parse', 'everything', e[-300:])
    bad = set()
    for d in t['definitions']:
        if d['file'].endswith(('.h', '.hpp')):
            bad.add(d['function'])
            rep.violation('one-definition', f"{d['file']}/{d['function']}".replace(' ', ''), f"{d['file']}:{d['line']}",
                          'external function defined in a header and not inline: two translation units which include it cannot be linked')
    for f in t['functions']:
        if f not in bad:
            rep.held('one-definition', f.replace(' ', ''))
    rep.units |= set(present)
    if not rep.viol:
        rep.expect(600)
