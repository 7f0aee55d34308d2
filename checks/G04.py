import importlib
import os
from lib import core

# Operations whose misuse is undefined, which the front end guards (divisions, conversions and overflows need bounds on all operands and are left to the other checks)
GUARDS = ['-fsanitize=shift,bool,enum,return,unreachable,vla-bound', '-fsanitize-trap=all']

# Large harnesses are analysed by parts, the last of which in the thorough tier only
SPLIT = {'sepk': ['h_(along_[012]$|along_away|map|copy)', 'h_(along_[0-9][0-9]|along_volume)', 'h_(times_01|named_prewitt|named_laplacian)', 'h_(times_10|named_s|to)', 'h_times_021']}


class Nothing:
    """Collects the harnesses of another check, without analysing them."""
    def __init__(self):
        self.assumptions = []

    def __getattr__(self, name):
        return lambda *a, **k: None


def specs(tier):
    """The harnesses of the other checks, once per set of options."""
    found, files = {}, {}
    kept = core.harnesses
    for f in sorted(os.listdir(os.path.dirname(__file__))):
        if not f.endswith('.py') or f[0] in '_G':
            continue
        got = []
        core.harnesses = lambda rep, work, specs: got.extend(specs)
        try:
            importlib.import_module('checks.' + f[:-3]).run(Nothing(), tier, None)
        finally:
            core.harnesses = kept
        for s in got:
            s = {'file': s} if isinstance(s, str) else dict(s)
            if s['file'] == 'thrown':  # replaces the throw itself; the same functions are in errors
                continue
            if s.get('heavy') and tier != 'thorough':
                continue
            only = s.get('only')
            s = {k: v for k, v in s.items() if k in ('file', 'src', 'flags', 'opts')}
            key = repr(sorted(s.items()))
            found.setdefault(key, (s, []))[1].append(only or '^h_')
            files.setdefault(s['file'], set()).add(key)
    out = []
    for k, (key, (s, only)) in enumerate(sorted(found.items())):
        opts = dict(s.get('opts', {}), bounds=True)
        if len(files[s['file']]) > 1:
            opts['roots'] = '|'.join(sorted(set(only)))
        parts = SPLIT.get(s['file'])
        if parts:
            out += [dict(s, name=f"{s['file']}.{k}.{i}", flags=list(s.get('flags', [])) + GUARDS, opts=dict(opts, roots=r)) for i, r in enumerate(parts[:None if tier == 'thorough' else -1])]
            continue
        out.append(dict(s, name=f"{s['file']}.{k}", flags=list(s.get('flags', [])) + GUARDS, opts=opts, min=0 if s['file'] == 'constness' else 1))
    return out


def run(rep, tier, work):
    rep.expl = ('Every harness is compiled again with an obligation at each access of an object of known size (stack, heap, global; the size may be an unknown), namely that the bytes accessed are inside, '
                'and at each shift, use of a Boolean or enumeration, and missing return: that it is defined. '
                'They are inserted after inlining and before the passes which rely on undefined behavior; those which are not folded by the dataflow passes are decided as predicates. '
                'An obligation of this report is a root without any obligation left, or a source location of a root where some are left; the notes count the accesses considered per harness.')
    rep.assumptions = ['Memory handed by the caller as a pointer is as large as declared (its accesses are compared with their specification by the other checks).', 'Divisions by zero, conversions out of range and overflows are out of scope.']
    only = os.environ.get('LITL_ONLY')
    core.harnesses(rep, work, [s for s in [dict(file='bounds', flags=GUARDS, opts={'bounds': True})] + specs(tier) if not only or s['file'] in only.split(',')])
