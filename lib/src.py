"""Source-level analyses: the type-checked syntax tree, and the dataflow diagnostics of the compilers."""
import concurrent.futures, json, os, re
from . import core, inst

INC = [f'-I{core.REPO}/{m}' for m in core.MODULES] + ['-isystem', '/usr/include/eigen3']


def headers():
    """Public headers of the tree (not the implementation ones)."""
    out = []
    for m in core.MODULES:
        d = os.path.join(core.REPO, m, m)
        out += [f'{m}/{f}' for f in sorted(os.listdir(d)) if f.endswith('.h')]
    return out


def sources():
    out = []
    for m in core.MODULES:
        d = os.path.join(core.REPO, m, 'src', 'lib')
        if os.path.isdir(d):
            out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
    return out


def write(work, name, text):
    p = os.path.join(work.dir, name)
    open(p, 'w').write(text)
    return p


def everything(work):
    """One translation unit with all the public headers which exist, and their instantiations."""
    hs = [h for h in inst.HEADERS if os.path.exists(os.path.join(core.REPO, h.split('/')[0], h))]
    return write(work, 'everything.cpp', inst.unit(hs, False))


def tree(work, files, std='c++14', flags=()):
    """Export of the syntax trees of these files, merged."""
    exe = core.astx()
    out = {k: [] for k in ('variables', 'mutables', 'casts', 'calls', 'definitions', 'externals', 'functions', 'classes', 'narrowings', 'counters')}

    def one(f):
        r = core.sh([exe, f'--root={core.REPO}', f, '--', f'-std={std}', '-w', *INC, *flags], timeout=300)
        try:
            return f, json.loads(r.stdout), [e for e in r.stderr.split('\n') if 'error:' in e]
        except ValueError:
            raise core.Broken(f'{f} cannot be parsed: {r.stderr[-2000:]}')
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, files))
    errors = []
    for f, d, e in res:
        errors += e
        for k, v in d.items():
            for x in v:
                if x not in out.setdefault(k, []):
                    out[k].append(x)
    return out, errors


def parallel(f, xs):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(f, xs))
