"""Shared machinery: building the exporters, compiling harnesses, verdicts, evidence."""
import hashlib, json, os, re, resource, signal, subprocess, sys, time, shutil
from . import ir, lin

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LITL_REPO', '/repo')
MODULES = ['LitlTypes', 'LitlContainer', 'LitlRaster', 'LitlTransforms', 'LitlIo', 'LitlRun']
CLANG = '/usr/lib/llvm-18/bin/clang++'
LLVMCONFIG = '/usr/lib/llvm-18/bin/llvm-config'
BUILD = os.path.join(VERIF, '.build')
EVID = os.environ.get('LITL_EVID', os.path.join(VERIF, 'evidence'))

INC = [f'-I{REPO}/{m}' for m in MODULES] + ['-I/usr/include/eigen3', f'-I{VERIF}/harness']
CXXFLAGS = ['-std=c++14', '-DNDEBUG', '-Wno-c++11-narrowing', '-Wno-everything', '-fcx-limited-range', '-ferror-limit=0', '-include', 'stdexcept']

_FN = ('function<eager-inv>(sroa<modify-cfg>,early-cse<memssa>,jump-threading,correlated-propagation,simplifycfg,'
       'instcombine<no-verify-fixpoint>,tailcallelim,simplifycfg,reassociate,'
       'loop-mssa(loop-instsimplify,loop-simplifycfg,licm,loop-rotate,licm,simple-loop-unswitch),simplifycfg,'
       'instcombine<no-verify-fixpoint>,loop(indvars,loop-deletion,loop-unroll-full),sroa<modify-cfg>,mldst-motion,gvn,'
       'sccp,bdce,instcombine<no-verify-fixpoint>,constraint-elimination,jump-threading,correlated-propagation,adce,'
       'memcpyopt,dse,loop-mssa(licm),simplifycfg,instcombine<no-verify-fixpoint>)')
PASSES = f'function(lower-expect),always-inline,globaldce,inferattrs,globalopt,{_FN},always-inline,{_FN},always-inline,{_FN},function(loop-simplify,lcssa),globaldce'
TEXTOPS = (r'(^std::__cxx11::basic_string|^std::__cxx11::to_string|^std::to_string|^Litl::toString$|^std::.*stream.*::|'
           r'\{text\}$|Litl::[A-Za-z]*(Error|Exception)::~?[A-Za-z]*(Error|Exception)$|^Litl::Exception::append$|'
           r'^__cxa_allocate_exception$|^__cxa_free_exception$|^std::allocator<char>)')


class Broken(Exception):
    """The analysis itself could not be carried out (error exit, neither pass nor violation)."""


class Exhausted(Exception):
    """A translation unit could not be analysed within the time given: its obligations are undecided."""


def sh(cmd, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    except subprocess.TimeoutExpired:
        raise Exhausted(f'{os.path.basename(cmd[0])} {os.path.basename(cmd[-1])}: more than {kw.get("timeout")} s')


def _tool(name, extra):
    src = os.path.join(VERIF, 'tools', name, name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, f'{name}-{h}')
    if not os.path.exists(exe):
        cxxf = sh([LLVMCONFIG, '--cxxflags']).stdout.split()
        cxxf = [f for f in cxxf if f != '-fno-exceptions']
        r = sh([CLANG, '-O1', '-fno-rtti', *cxxf, src, '-o', exe + f'.{os.getpid()}', '-L/usr/lib/llvm-18/lib', *extra])
        if r.returncode:
            raise Broken(f'cannot build {name}: {r.stderr[-2000:]}')
        os.replace(exe + f'.{os.getpid()}', exe)
    return exe


def irx():
    return _tool('irx', ['-lLLVM-18'])


def astx():
    return _tool('astx', ['-l:libclang-cpp.so.18.1', '-lLLVM-18'])


class Unmodelled(Broken):
    """The current tree is not expressible with the ghosts of a harness."""


class Refuted(Exception):
    """Type-level witnesses of a harness which the compiler refutes."""


def witnesses(rep, name, err):
    """Violations for the static assertions of a harness which failed."""
    for f, l, m in err.args[0]:
        rep.violation('type-level', f'{name}/{m}', f'{os.path.basename(f)}:{l}', f'the type checker refutes: {m}')


class Work:
    """Scratch directory of one run, removed at the end."""

    def __init__(self, pid):
        self.dir = os.path.join(BUILD, f'run-{pid}-{os.getpid()}')
        os.makedirs(self.dir, exist_ok=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def start_of_program(path):
    """Have the roots named h_first_* start with uninitialized function-local static variables, as in a program which begins."""
    s = open(path).read()
    reset = ''.join(f'  store {t} 0, ptr {g}\n' for g, t in re.findall(r'^(@_ZGV\S+) = .*\bglobal (i8|i64) 0', s, re.M))
    open(path, 'w').write(re.sub(r'^(define [^\n]*@h_first_\w+\([^\n]*\{\n(?:\w+:[^\n]*\n)?)', lambda m: m.group(1) + reset, s, flags=re.M))


def compile_ir(work, src, name=None, flags=(), keep='', passes=None, textops=None, roots='^h_', opt='-O2', all=False, h2s=True, unroll=4000, peel=0, peel_rounds=2, walk=0, walk_rounds=12, guards=False, bounds=False):
    """Compile a harness (path or text) against /repo's current headers and export its canonical IR."""
    if '\n' in src:
        p = os.path.join(work.dir, (name or 'h') + '.cpp')
        open(p, 'w').write(src)
        src = p
    name = name or os.path.splitext(os.path.basename(src))[0]
    base = os.path.join(work.dir, name)
    r = sh([CLANG, *CXXFLAGS, opt, *INC, *flags, '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-S', src, '-o', base + '.ll'], timeout=300)
    if r.returncode:
        bad = re.findall(r"^([^\s:]*):(\d+):\d+: error: static assertion failed(?: due to requirement '.*')?(?:: (.*))?$", r.stderr, re.M)
        bad = sorted({b for b in bad if b[0].startswith(VERIF) or b[0] == src})
        if bad:
            raise Refuted(bad)
        api = re.findall(r"^([^\s:]*):(\d+):\d+: error: ((?:no member named '\w+' in '(?:const )?Litl::|no matching (?:member )?function for call|no matching constructor for initialization of|call to (?:member function )?'.*' is ambiguous|.*is a (?:private|protected) member of 'Litl::|cannot take the address of an rvalue|taking the address of a temporary|expression is not assignable|non-const lvalue reference to type .* cannot bind to|binding reference of type .* drops 'const').*)$", r.stderr, re.M)
        api = sorted({a for a in api if a[0].startswith(os.path.join(VERIF, 'harness')) and 'ghost' not in a[2]})
        if api:
            raise Refuted(api)
        # Where the code needs more than the ghosts of the harness offer
        first = re.search(r'^([^\s:]*):\d+:\d+: (?:fatal )?error: (.*)$', r.stderr, re.M)
        ghosts = bool(re.search(r'^\s*#include "ghost|<ghost', open(src).read(), re.M)) or any('ghost' in f for f in flags)
        # The library can not be instantiated any more, even without the stand-ins of the harness
        if first and first.group(1).startswith(REPO) and not ghosts:
            plain = sh([CLANG, *CXXFLAGS, opt, *INC, *flags, '-DLITL_NODEVIRT', '-fsyntax-only', src], timeout=300)
            bad = re.search(r'^([^\s:]*):(\d+):\d+: (?:fatal )?error: (.*)$', plain.stderr, re.M)
            if plain.returncode and bad and bad.group(1).startswith(REPO):
                raise Refuted([bad.groups()])
        kind = Unmodelled if ghosts and first and ('ghost' in first.group(0) or first.group(1).startswith(REPO)) else Broken
        raise kind(f'harness {name} does not compile against the current tree:\n' + r.stderr[-3000:])
    if guards:
        start_of_program(base + '.ll')
    cmd = [irx(), f'--textops={textops or TEXTOPS}', f'--passes={passes or PASSES}', f'--roots={roots}', base + '.ll', '-o', base + '.json', '--ll', base + '.opt.ll',
           f'--unroll-threshold={unroll}', '--unroll-full-max-count=256', f'--unroll-max-iteration-count-to-analyze=256', '--memdep-block-scan-limit=2000', '--memssa-check-limit=1000', '--capture-tracking-max-uses-to-explore=100000', '--memdep-block-number-limit=2000']
    if h2s:
        cmd.append('--h2s')
    if bounds:
        cmd.append('--bounds')
    if os.environ.get('LITL_FILL') == '0':
        cmd.append('--fill=0')
    if peel:
        cmd += [f'--peel={peel}', f'--peel-rounds={peel_rounds}']
    if walk:
        cmd += [f'--walk={walk}', f'--walk-rounds={walk_rounds}']
    if keep:
        cmd.append(f'--keep={keep}')
    if all:
        cmd.append('--all')
    r = sh(cmd, timeout=400)
    if r.returncode:
        raise Broken(f'irx failed on {name}: {r.stderr[-2000:]}')
    m = ir.Mod(base + '.json')
    m.source = src
    return m


# --- verdicts -------------------------------------------------------------------------------------
class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.ok, self.viol, self.undec = [], [], []
        self.units, self.functions = set(), set()
        self.notes = []
        self.unmodelled = False
        self.expl = ''
        self.assumptions = []
        self.trusted = []

    def held(self, rule, inst, detail=''):
        self.ok.append((rule, inst, detail))

    def violation(self, rule, inst, where, detail):
        self.viol.append({'rule': rule, 'instance': inst, 'where': where, 'detail': detail})

    def undecided(self, rule, inst, why):
        self.undec.append((rule, inst, why))

    def expect(self, n, what='obligations'):
        got = len(self.ok) + len(self.viol) + len(self.undec)
        if got < n and not self.unmodelled:
            raise Broken(f'only {got} {what} were generated, at least {n} were confirmed by hand on the reference tree')


def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) rule=(\S+) instance=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def finish(rep):
    """Write evidence, print the verdict, return the exit code."""
    pid = rep.pid
    known = [(r, i, d) for (p, r, i, d) in known_findings() if p == pid]
    new, old = [], []
    for v in rep.viol:
        k = [x for x in known if x[0] == v['rule'] and x[1] == v['instance']]
        (old if k else new).append(v)
    wall = time.time() - rep.t0
    total = len(rep.ok) + len(rep.viol) + len(rep.undec)
    rules = {}
    for r, _, _ in rep.ok:
        rules.setdefault(r, [0, 0, 0])[0] += 1
    for v in rep.viol:
        rules.setdefault(v['rule'], [0, 0, 0])[1] += 1
    for r, _, _ in rep.undec:
        rules.setdefault(r, [0, 0, 0])[2] += 1
    ev = {
        'property': pid, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': rep.expl,
            'obligations': total, 'discharged': len(rep.ok), 'undecided': len(rep.undec), 'refuted': len(rep.viol),
            'rules': {k: {'held': a, 'refuted': b, 'undecided': c} for k, (a, b, c) in sorted(rules.items())},
            'units_analysed': sorted(rep.units), 'functions_analysed': sorted(rep.functions)[:400],
            'samples': [f'{r}: {i} {d}'.strip() for r, i, d in rep.ok[:12]],
            'undecided_list': [f'{r}: {i}: {w}' for r, i, w in rep.undec[:40]],
            'notes': rep.notes,
        },
        'assumptions': rep.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['rule']} {v['instance']}: {v['detail']}")
    print(f'{pid}: {len(rep.ok)} obligations hold, {len(rep.undec)} undecided, {len(rep.viol)} refuted ({len(old)} known), {wall:.1f} s')
    for r, i, w in rep.undec[:10]:
        print(f'  undecided {r} {i}: {w}')
    if new:
        rp = os.path.join(EVID, f'{pid}-violation.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write(f"rule: {v['rule']}\ninstance: {v['instance']}\nwhere: {v['where']}\n{v['detail']}\n\n")
        for v in new:
            print(f"  {v['rule']} at {v['where']}: {v['instance']}: {v['detail'][:600]}")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


def where_of(fn, ins):
    """Innermost source position inside /repo, plus the outermost position in the harness."""
    ch = fn.where(ins)
    for f, l, _ in ch:
        if f.startswith(REPO):
            return f'{rel(f)}:{l}'
    return f'{os.path.basename(ch[0][0])}:{ch[0][1]}' if ch else fn.name


def nearest_repo_line(fn, ins):
    """For a marker (which is in the harness), the closest dominating instruction located in /repo."""
    b = fn.blk[ins['id']]
    best = None
    while b != -1:
        for i in reversed(fn.blocks[b]['ins']):
            for f, l, s in fn.where(i):
                if f.startswith(REPO):
                    return f'{rel(f)}:{l}'
        b = fn._idom[b]
    return where_of(fn, ins)


def src_line(mod, fn, ins):
    ch = fn.where(ins)
    for f, l, _ in ch:
        if f.startswith(VERIF) or f == mod.source:
            try:
                return open(f).read().split('\n')[l - 1].strip()
            except OSError:
                pass
    return ''


def label(mod, ref):
    if ref[0] == 'g' and ref[1] in mod.globals and 'str' in mod.globals[ref[1]]:
        return mod.globals[ref[1]]['str']
    raise Broken(f'marker label {ref} is not a constant string')


def typeinfo(ref):
    """Readable type of a typeinfo global ("typeinfo for X")."""
    if ref[0] == 'g':
        return ref[2].replace('typeinfo for ', '')
    return '?'


class Expired(BaseException):
    pass


# Time (s) after which a decision is abandoned, and after which a whole harness stops deciding.
PER_DECISION = {'quick': 60, 'thorough': 400}
PER_CHECK = {'quick': 600, 'thorough': 7200}


def limited(fn, seconds, f):
    """(True, f()), or (False, None) when the time or the memory runs out."""
    def ring(*_):
        raise Expired()
    try:
        signal.signal(signal.SIGALRM, ring)
    except ValueError:
        return True, f()
    try:
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            return True, f()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (Expired, MemoryError):
        for k in [k for k, v in fn._memo.items() if v is None]:
            del fn._memo[k]
        return False, None


def budget(rep):
    return max(4, min(PER_DECISION.get(rep.tier, 60), rep.t0 + PER_CHECK.get(rep.tier, 600) - time.time()))


def decide(rep, fn, rule, inst, text, blocks, tries, ints, what, floats=None):
    ok, _ = limited(fn, budget(rep), lambda: decide_blocks(rep, fn, rule, inst, text, blocks, tries, ints, what, floats))
    if ok:
        return

    def points():
        for i in blocks:
            w = ir.witness(fn, fn.blk[i['id']], tries=300, ints=ints, floats=floats)
            if w is not None:
                rep.violation(rule, inst, nearest_repo_line(fn, i), f'{what}: {text}; residual predicate satisfied for {compact(w)}')
                return True
    try:
        if limited(fn, budget(rep) / 3, points)[1]:
            return
    except (ir.Unknown, RecursionError):
        pass
    rep.undecided(rule, inst, 'time or memory exhausted: ' + text)


def decide_blocks(rep, fn, rule, inst, text, blocks, tries, ints, what, floats=None):
    """One obligation whose negation is "one of these blocks is reached"."""
    verdict = None
    how = 'orderings'
    for i in blocks:
        w, complete, h, why = ir_decide(fn, fn.blk[i['id']], None, tries, ints, floats)
        if w is not None:
            verdict = ('v', i, w)
            break
        if not complete:
            verdict = ('u', why)
        elif h == 'polyhedra':
            how = h
    if verdict is None:
        rep.held(how, inst, 'no ordering of the compared values satisfies the residual predicate' if how == 'orderings' else 'the residual predicate is empty in the linear domain')
        return
    if verdict[0] == 'v':
        _, i, w = verdict
        rep.violation(rule, inst, nearest_repo_line(fn, i), f'{what}: {text}; residual predicate satisfied for {compact(w)}')
    else:
        rep.undecided(rule, inst, verdict[1] + ': ' + text)


def ir_decide(fn, block, differ, tries, ints, floats):
    """(witness, complete, domain, reason): orderings, then linear constraints, then sampled points of the predicate."""
    why = 'residual predicate without a satisfying ordering'
    try:
        w, complete = ir._enumerate(fn, block, differ)
        if w is not None or complete:
            return w, complete, 'orderings', ''
    except (ir.Unknown, RecursionError) as e:
        why = f'residual predicate outside the decidable fragment: {str(e)[:200]}'
    try:
        w, complete, n = lin.decide(fn, block, differ)
        if w is not None or complete:
            return w, complete, 'polyhedra', ''
    except (ir.Unknown, RecursionError) as e:
        why = f'residual predicate outside the decidable fragment: {str(e)[:200]}'
    try:
        w = ir.witness(fn, block, differ=differ, tries=tries, ints=ints, floats=floats)
        return w, w is not None, 'orderings', why
    except (ir.Unknown, RecursionError) as e:
        return None, False, 'orderings', f'residual predicate outside the decidable fragment: {str(e)[:200]}'


INEXACT = ('call', 'cyc', 'loopphi', 'ins', 'undef', 'c')


def inexact(x):
    return x[0] in INEXACT and not ir.free_call(x)


def equate(rep, fn, inst, lab, cs, tries, ints, floats):
    ok, _ = limited(fn, budget(rep), lambda: equate_values(rep, fn, inst, lab, cs, tries, ints, floats))
    if ok:
        return

    def points():
        for c in cs:
            a, b = fn.key(c['ops'][1]), fn.key(c['ops'][2])
            if any(inexact(x) for p in (a, b) for x in p.deep()):
                continue
            w = ir.witness(fn, fn.blk[c['id']], differ=(a, b), tries=300, ints=ints, floats=floats)
            if w is not None:
                rep.violation('normal-form', inst, nearest_repo_line(fn, c), f'{lab}: values differ, e.g. for {compact(w)}')
                return True
    try:
        if limited(fn, budget(rep) / 3, points)[1]:
            return
    except (ir.Unknown, RecursionError):
        pass
    rep.undecided('normal-form', inst, 'time or memory exhausted')


def reached(fn, c, ints, floats):
    """Whether an obligation of a harness is reached: unless its path predicate is proved to be empty."""
    w, complete, _, _ = ir_decide(fn, fn.blk[c['id']], None, 300, ints, floats)
    return w is not None or not complete


def equate_values(rep, fn, inst, lab, cs, tries, ints, floats):
    """One obligation "these pairs of values are equal wherever they are compared"."""
    verdict = ('h',)
    cellular = 0
    domain = 'normal-form'
    for c in cs:
        a, b = fn.key(c['ops'][1]), fn.key(c['ops'][2])
        if ir.equal(a, b):
            continue
        und = ir.const_atom(('undef',))
        if (a == und) != (b == und) and not any(inexact(x) for x in (b if a == und else a).deep()):
            try:
                w, _ = ir.decide(fn, fn.blk[c['id']], tries=tries, ints=ints, floats=floats)
            except ir.Unknown:
                w = None
            if w is not None:
                verdict = ('v', c, a, b, w)
                break
        rounds = ir.rounded(a) and not ir.rounded(b)
        if rounds:
            original, a = a, ir.unrounded(a)
            if ir.equal(a, b):
                if reached(fn, c, ints, floats):
                    verdict = ('r', c, original, b)
                    break
                verdict = ('u', original, b, ['rounded to a narrower floating type'])
                continue
        d = ir.P.sub(a, b)
        bad = [x for x in d.deep() if inexact(x)]
        w = None
        if not bad and (ir.has_steps(a) or ir.has_steps(b)):
            try:
                w, complete, nc = ir.cells(fn, fn.blk[c['id']], (a, b))
                if complete and rounds:
                    verdict = ('r', c, original, b)
                    break
                if complete:
                    cellular = max(cellular, nc)
                    continue
            except ir.Unknown:
                pass
        if not bad and w is None:
            w, complete, h, why = ir_decide(fn, fn.blk[c['id']], (a, b), tries, ints, floats)
            if w is None and complete and rounds:
                verdict = ('r', c, original, b)
                break
            if w is None and complete:
                domain = h if h == 'polyhedra' else domain
                continue
            if w is None and why:
                bad = [why]
        elif w is None:
            try:
                w, complete, _ = lin.decide(fn, fn.blk[c['id']], (a, b))
                if w is None and complete and rounds:
                    verdict = ('r', c, original, b)
                    break
                if w is None and complete:
                    domain = 'polyhedra'
                    continue
            except (ir.Unknown, RecursionError):
                pass
        if w is not None:
            verdict = ('v', c, a, b, w)
            break
        verdict = ('u', a, b, bad)
    if verdict[0] == 'h':
        rep.held('cells' if cellular else domain, inst, f'over {cellular} cells' if cellular else '')
    elif verdict[0] == 'r':
        _, c, a, b = verdict
        rep.violation('normal-form', inst, nearest_repo_line(fn, c), f'{lab}: the value is rounded to a narrower floating type: {short(a)} vs {short(b)}')
    elif verdict[0] == 'v':
        _, c, a, b, w = verdict
        rep.violation('normal-form', inst, nearest_repo_line(fn, c), f'{lab}: value numbers differ: {short(a)} vs {short(b)}, e.g. for {compact(w)}')
    else:
        rep.undecided('normal-form', inst, f'{short(verdict[1])} vs {short(verdict[2])} {[ir.fmt(x) if isinstance(x, tuple) else x for x in verdict[3][:3]]}')


def discharge(rep, mod, prefix='', tries=3000, ints=ir.INTS, floats=None, only=None):
    """Decide the obligations of every harness root (h_*) of `mod`.

    folded:      REQ(label, c): held when the violation branch was folded away by the dataflow passes; refuted
                 when the residual (loop-free) predicate has a satisfying ordering; else undecided.
    normal-form: EQI/EQF/EQP(label, a, b): held when the value numbers agree; refuted when both are exact and
                 an ordering separates them; else undecided.
    returns:     a root keeps a normal exit.
    no-throw:    NOTHROW(label): no throw survives in the root.
    throw-type:  THROWS_ONLY(label, type): the type of every surviving throw.
    """
    n = 0
    for fn in mod.fns.values():
        if not fn.name.startswith('h_') or (only and not only(fn.name)):
            continue
        rep.functions.add(fn.name)
        obl, resid = {}, {}
        for c in fn.calls('litl_obligation'):
            obl.setdefault(label(mod, c['ops'][0]), c)
        for c in fn.calls('litl_viol'):
            resid.setdefault(label(mod, c['ops'][0]), []).append(c)
            obl.setdefault(label(mod, c['ops'][0]), c)
        throws = list(fn.calls('__cxa_throw'))
        mustthrow = fn.name.startswith('h_x_')
        rets = list(fn.all('ret'))
        if not mustthrow:
            n += 1
            if rets:
                rep.held('returns', prefix + fn.name)
            else:
                bad = throws or list(fn.all())
                rep.violation('returns', prefix + fn.name, where_of(fn, bad[0]), 'no path of the operation returns normally for valid inputs')
        for lab, c in obl.items():
            n += 1
            inst = f'{prefix}{fn.name}/{lab}'
            if lab not in resid:
                rep.held('folded', inst)
            else:
                decide(rep, fn, 'folded', inst, lab, resid[lab], tries, ints, 'obligation not met', floats)
        for c in fn.calls('litl_nothrow'):
            n += 1
            inst = f"{prefix}{fn.name}/{label(mod, c['ops'][0])}"
            real = [t for t in throws]
            if not real:
                rep.held('no-throw', inst)
            else:
                decide(rep, fn, 'no-throw', inst, typeinfo(real[0]['ops'][1]), real, tries, ints, 'throws for valid inputs', floats)
        for c in fn.calls('litl_throwtype'):
            want = label(mod, c['ops'][1])
            for t in throws:
                n += 1
                ty = typeinfo(t['ops'][1])
                inst = f"{prefix}{fn.name}/{label(mod, c['ops'][0])}"
                if ty == want:
                    rep.held('throw-type', inst)
                else:
                    decide(rep, fn, 'throw-type', inst, f'{ty} instead of {want}', [t], tries, ints, 'wrong exception type', floats)
        eqs = {}
        for c in fn.calls(lambda s: s in ('litl_eqi', 'litl_eqi32', 'litl_eqi16', 'litl_eqi8', 'litl_eqp', 'litl_eqf')):
            eqs.setdefault(label(mod, c['ops'][0]), []).append(c)
        for lab, cs in eqs.items():
            n += 1
            equate(rep, fn, f'{prefix}{fn.name}/{lab}', lab, cs, tries, ints, floats)
    return n


def accesses(rep, mod, tries=3000, ints=ir.INTS, floats=None):
    """Decide the obligations that accesses stay inside of the objects they are based on (irx --bounds)."""
    for fn in mod.fns.values():
        if not fn.name.startswith('h_'):
            continue
        rep.functions.add(fn.name)
        sites = {}
        for c in fn.calls('litl_oob'):
            sites.setdefault((label(mod, c['ops'][0]), where_of(fn, c)), []).append(c)
        before = len(rep.undec)
        for (k, w), cs in sites.items():
            if len(rep.undec) - before > 1:
                rep.undecided('access', f'{fn.name}/{k} {w}', 'other accesses of the same operation are undecided')
                continue
            decide(rep, fn, 'access' if k == 'access' else 'operation', f'{fn.name}/{k} {w}', k, cs, tries, ints, 'access out of the bounds of the object' if k == 'access' else 'undefined operation', floats)
        if not sites:
            rep.held('access', fn.name)


def short(p, n=300):
    s = repr(p)
    return s if len(s) <= n else s[:n] + '...'


def compact(w):
    return ', '.join(f'{k}={v}' for k, v in list(w.items())[:12])


# --- harness batches --------------------------------------------------------------------------------
def _one(args):
    work, pid, tier, spec, only, rule = args
    rep = Report(pid, tier)
    rep.t0 = spec.get('t0', rep.t0)
    try:
        src = spec['src'] if 'src' in spec else os.path.join(VERIF, 'harness', spec['file'] + '.cpp')
        name = spec.get('name') or spec['file']
        flags = list(spec.get('flags', [])) + (['-DTHOROUGH'] if tier == 'thorough' else [])
        t1 = time.time()
        m = compile_ir(work, src, name=name, flags=flags, **spec.get('opts', {}))
        rep.units.add(name)
        for l in open(src):
            for t in re.findall(r'^static_assert\(.*"(.*)"\);', l):
                rep.held('type-level', f'{name}/{t}')
        n = 0
        if m.accesses:
            accesses(rep, m, tries=spec.get('tries', 3000))
            rep.notes.append(f'{name}: {m.accesses["accesses"]} accesses of objects of known size, {m.accesses["folded"]} of which at constant positions inside, {m.accesses["operations"]} guarded operations')
            if os.environ.get('LITL_TIME'):
                print(name, round(time.time() - t1, 1), flush=True)
        elif spec.get('discharge', True):
            n = discharge(rep, m, prefix=spec.get('prefix', ''), only=(lambda s: re.search(only, s)) if only else None, tries=spec.get('tries', 3000), ints=spec.get('ints', ir.INTS), floats=spec.get('floats'))
        if rule:
            rule(rep, m)
        if not rep.viol and len(rep.ok) + len(rep.undec) < spec.get('min', 1):
            return ('broken', f'{name}: only {len(rep.ok) + len(rep.viol) + len(rep.undec)} obligations, {spec.get("min", 1)} expected')
        return ('ok', rep.ok, rep.viol, rep.undec, rep.units, rep.functions, rep.notes)
    except Refuted as e:
        witnesses(rep, name, e)
        return ('ok', rep.ok, rep.viol, rep.undec, rep.units, rep.functions, rep.notes)
    except Broken as e:
        return ('unmodelled' if isinstance(e, Unmodelled) else 'broken', str(e))
    except Exhausted as e:
        rep.undecided('analysis', name, str(e))
        return ('ok', rep.ok, rep.viol, rep.undec, rep.units, rep.functions, rep.notes)
    except Exception:
        import traceback
        return ('broken', traceback.format_exc()[-3000:])


def well_formed():
    """Whether the library compiles, without any ghost."""
    r = sh([CLANG, *CXXFLAGS, *INC, '-w', '-fsyntax-only', os.path.join(VERIF, 'harness', 'all.cpp')], timeout=300)
    return r.returncode == 0


def harnesses(rep, work, specs):
    """Compile and decide a batch of harnesses in parallel. A spec is a file name or a dict:
    file | src + name, flags, opts (compile_ir), only (regex on roots), rule (python rule), min (obligation count)."""
    import multiprocessing
    specs = [{'file': s} if isinstance(s, str) else dict(s) for s in specs]
    irx()
    jobs = [(work, rep.pid, rep.tier, dict({k: v for k, v in s.items() if k not in ('only', 'rule')}, t0=rep.t0), s.get('only'), s.get('rule')) for s in specs]
    if jobs:
        ctx = multiprocessing.get_context('fork')
        q = ctx.Queue()
        pend, run, res = list(enumerate(jobs)), {}, [None] * len(jobs)

        def child(k, j):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            q.put((k, _one(j)))
        while pend or run:
            while pend and len(run) < 8:
                k, j = pend.pop(0)
                p = ctx.Process(target=child, args=(k, j))
                p.start()
                run[k] = p
            try:
                k, r = q.get(timeout=5)
            except Exception:
                for k in [k for k, p in run.items() if not p.is_alive() and res[k] is None]:
                    try:
                        k2, r = q.get(timeout=5)
                        res[k2] = r
                        run.pop(k2).join()
                    except Exception:
                        raise Broken(f'analysis of {jobs[k][3].get("name") or jobs[k][3].get("file")} died')
                continue
            res[k] = r
            run.pop(k).join()
    broken = [r[1] for r in res if r[0] != 'ok']
    if len(broken) == len(res):
        if any(r[0] == 'broken' for r in res) or not well_formed():
            raise Broken(broken[0])
        rep.unmodelled = True
    for b in broken:
        # the others still decide their obligations
        rep.undecided('analysis', 'harness', b[-600:])
    res = [r for r in res if r[0] == 'ok']
    for r in res:
        rep.ok += r[1]
        rep.viol += r[2]
        rep.undec += r[3]
        rep.units |= r[4]
        rep.functions |= r[5]
        rep.notes += r[6]
