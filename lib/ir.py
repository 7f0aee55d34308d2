"""Model of the canonicalised LLVM IR exported by tools/irx, with value numbering.

Values are numbered into canonical keys: integer and pointer values are polynomials (mod 2^bits)
over opaque atoms, floating values are polynomials over the rationals (real-algebra equality),
comparisons/selects/loads/calls are atoms over the keys of their operands.  Nothing is executed:
a `key` is a normal form of an SSA value, and `Valuation` evaluates a *residual predicate* (a
normal form that the dataflow passes could not fold) over a finite set of orderings of its atoms.
"""
import functools
import json, random, re
from fractions import Fraction


class Unknown(Exception):
    pass


class Fn:
    def __init__(self, mod, j):
        self.mod, self.j = mod, j
        self.name, self.dem = j['name'], j['dem']
        self.args = j['args']
        self.blocks = {b['id']: b for b in j['blocks']}
        self.order = [b['id'] for b in j['blocks']]
        self.entry = self.order[0]
        self.ins, self.blk = {}, {}
        for b in j['blocks']:
            for i in b['ins']:
                self.ins[i['id']] = i
                self.blk[i['id']] = b['id']
        self.argidx = {a[0]: k for k, a in enumerate(self.args)}
        self.loops = {l['header']: l for l in j['loops']}
        self._memo = {}
        self._idom = {b: self.blocks[b]['idom'] for b in self.blocks}

    # --- structure -------------------------------------------------------------------------
    def all(self, op=None):
        for b in self.order:
            for i in self.blocks[b]['ins']:
                if op is None or i['op'] == op:
                    yield i

    def calls(self, pred=None):
        for i in self.all():
            if 'callee' in i:
                n = callee(i)
                if pred is None or (pred(n) if callable(pred) else n == pred):
                    yield i

    def dominates(self, a, b):
        """Block a dominates block b."""
        while b != -1:
            if a == b:
                return True
            b = self._idom[b]
        return False

    def idominates(self, i, k):
        """Instruction i dominates instruction k."""
        bi, bk = self.blk[i['id']], self.blk[k['id']]
        if bi != bk:
            return self.dominates(bi, bk)
        for x in self.blocks[bi]['ins']:
            if x['id'] == i['id']:
                return True
            if x['id'] == k['id']:
                return False

    def in_loop(self, b):
        return self.blocks[b]['loop']

    def loop_chain(self, b):
        h = self.blocks[b]['loop']
        out = []
        while h != -1:
            out.append(h)
            h = self.loops[h]['parent']
        return out

    def term(self, b):
        return self.blocks[b]['ins'][-1]

    def preds(self, b):
        return self.blocks[b]['pred']

    def succs(self, b):
        return self.blocks[b]['succ']

    def where(self, i):
        """file:line chain of an instruction, innermost first."""
        return [(l[0], l[1], l[2]) for l in i.get('loc', [])]

    def constants(self):
        """Integer and floating constants compared against: the boundaries that separate orderings."""
        if not hasattr(self, '_consts'):
            ci, cf = set(), set()
            for i in self.all():
                if i['op'] in ('icmp', 'fcmp', 'switch', 'call', 'invoke', 'select'):
                    for o in i['ops']:
                        if o[0] == 'i' and o[2] > 1:
                            ci.add(signed(int(o[1]), o[2]))
                        elif o[0] == 'f':
                            try:
                                cf.add(Fraction(o[1]))
                            except ValueError:
                                pass
                    for cv, _ in i.get('cases', []):
                        ci.add(int(cv[1]))
            small = set(INTS)
            self._consts = (sorted(c for c in ci if c not in small and abs(c) < 1 << 40)[:12], sorted(c for c in cf if c not in FLOATS)[:8])
        return self._consts

    # --- value numbering -------------------------------------------------------------------
    def key(self, ref):
        k = ref[0]
        if k == 'v':
            v = ref[1]
            if v in self._memo:
                r = self._memo[v]
                if r is None:
                    return const_atom(('cyc', v))
                return r
            self._memo[v] = None
            r = self._number(v)
            self._memo[v] = r
            return r
        if k == 'i':
            return P.const(int(ref[1]), ref[2])
        if k == 'f':
            return P.fconst(ref[1])
        if k == 'null':
            return P.const(0, 64)
        if k == 'g':
            return P.atom(('g', ref[1]), 64)
        if k == 'cgep':
            return P.add(self.key(ref[1]), P.const(ref[2], 64))
        if k == 'undef':
            return const_atom(('undef',))
        return const_atom(('c', str(ref)))

    def gated(self, B, vals, b):
        """Gated form of a phi of block B: nested selects over the branch conditions between its immediate
        dominator and B (edges that cannot reach B are dropped). None when a loop lies in between."""
        D = self._idom[B]
        memo = {}
        BOT = object()

        def go(x):
            if x in memo:
                r = memo[x]
                if r is None:
                    raise Unknown('loop')
                return r
            memo[x] = None
            if x in self.loops and x != D:
                raise Unknown('loop')
            t = self.term(x)

            def edge(y):
                if y == B:
                    return vals[x]
                return go(y)
            if t['op'] == 'br' and len(t['ops']) == 3:
                f, tr = edge(t['ops'][1][1]), edge(t['ops'][2][1])
                if f is BOT or tr is BOT:
                    r = tr if f is BOT else f
                elif f == tr:
                    r = f
                else:
                    r = mksel(self.key(t['ops'][0]), tr, f, b)
            elif t['op'] == 'br':
                r = edge(t['ops'][0][1])
            elif t['op'] == 'switch':
                r = edge(t['default'])
                c = self.key(t['ops'][0])
                for cv, d in reversed(t['cases']):
                    k = edge(d)
                    if r is BOT or r == k:
                        r = k
                    elif k is not BOT:
                        r = mksel(P.atom(('cmp', 'eq', c, P.const(int(cv[1]), c.b)), 1), k, r, b)
            elif t['op'] == 'invoke':
                r = edge(t['unwind'] if throws(t) else t['normal'])
            elif t['op'] in ('ret', 'unreachable', 'resume'):
                r = BOT
            else:
                raise Unknown(t['op'])
            memo[x] = r
            return r
        try:
            r = go(D)
        except Unknown:
            return None
        return None if r is BOT else r

    def _number(self, v):
        if v in self.argidx:
            t = self.args[self.argidx[v]][1]
            return P.atom(('arg', self.argidx[v], t), bits(t))
        i = self.ins[v]
        op, t = i['op'], i['ty']
        b = bits(t)
        if op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul'):
            x, y = self.key(i['ops'][0]), self.key(i['ops'][1])
            return {'a': P.add, 's': P.sub, 'm': P.mul}[op.lstrip('f')[0]](x, y)
        if op == 'fneg':
            return P.neg(self.key(i['ops'][0]))
        if op == 'shl' and i['ops'][1][0] == 'i':
            return P.mul(self.key(i['ops'][0]), P.const(1 << int(i['ops'][1][1]), b))
        if op == 'fdiv':
            x, y = self.key(i['ops'][0]), self.key(i['ops'][1])
            if y.isconst() and y.cval() != 0:
                return P.mul(x, P({(): 1 / y.cval()}, 'f'))
            return P.mul(x, P.atom(('finv', y), 'f'))
        if op == 'or' and i.get('disjoint'):
            return P.add(self.key(i['ops'][0]), self.key(i['ops'][1]))
        if op == 'getelementptr' and 'off' in i:
            r = P.add(self.key(i['ops'][0]), P.const(i['off'][0][0], 64))
            for c, rf in i['off'][1:]:
                k = self.key(rf)
                if k.b != 64 and isinstance(k.b, int):
                    k = P.atom(('cast', 'sext', k, 64), 64)
                r = P.add(r, P.mul(P.const(c, 64), k))
            return r
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr') and (b == 64 or op in ('freeze',)):
            return self.key(i['ops'][0])
        if op in ('fpext', 'fptrunc'):
            x = self.key(i['ops'][0])
            if op == 'fpext':
                return x
            return P.atom(('cast', op, x, t), 'f')
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast'):
            x = self.key(i['ops'][0])
            if op in ('sext', 'zext', 'trunc') and x.isconst():
                val = x.cval()
                if op == 'zext':
                    val &= (1 << x.b) - 1
                return P.const(val, b)
            if op in ('sitofp',) and x.isconst():
                return P({(): Fraction(signed(x.cval(), x.b))}, 'f')
            n = _narrow(op, x, b, t)
            if n is not None:
                return n
            return P.atom(('cast', op, x, b), b)
        if op in ('icmp', 'fcmp'):
            x, y = self.key(i['ops'][0]), self.key(i['ops'][1])
            return mkcmp(i['pred'], x, y)
        if op == 'select':
            c, x, y = (self.key(o) for o in i['ops'])
            return mksel(c, x, y, b)
        if op == 'load':
            a = self.key(i['ops'][0])
            cl = i.get('clobber')
            if cl == 'entry':
                m = 'entry'
            elif isinstance(cl, int):
                ci = self.ins.get(cl)
                m = ('ins', cl)
                if ci and ci['op'] == 'store' and self.key(ci['ops'][1]) == a:
                    return self.key(ci['ops'][0])
                # walk over clobbers that cannot touch it is left to MemorySSA
            else:
                m = ('mem', str(cl))
            if m == 'entry':
                return mkload(a, t, b)
            return P.atom(('load', a, t, m), b)
        if op == 'phi':
            if self.blk[v] in self.loops:
                return P.atom(('loopphi', v), b)
            ks = [(self.key(o[0]), o[1]) for o in i['ops']]
            if all(k == ks[0][0] for k, _ in ks):
                return ks[0][0]
            g = self.gated(self.blk[v], dict((p, k) for k, p in ks), b)
            if g is not None:
                return g
            return P.atom(('phi', self.blk[v], tuple((k, p) for k, p in ks)), b)
        if 'callee' in i:
            n = callee(i)
            args = tuple(self.key(o) for o in i['ops'])
            if n.startswith('llvm.'):
                base = n.split('.')[1]
                if base in ('smax', 'smin', 'umax', 'umin', 'abs', 'fabs', 'maxnum', 'minnum', 'sqrt', 'pow', 'fmuladd', 'floor', 'ceil', 'trunc', 'round', 'cttz', 'ctlz', 'fma', 'rint', 'nearbyint'):
                    if base in ('fmuladd', 'fma'):
                        return P.add(P.mul(args[0], args[1]), args[2])
                    if base in ('smax', 'smin', 'umax', 'umin'):
                        args = tuple(sorted(args, key=pid))
                    return P.atom(('fun', base, args), b)
            if i.get('readnone'):
                if n.startswith('g_'):
                    G_TYPES[n] = 'double' if b == 'f' else 'i%s' % b
                return P.atom(('fun', n, args), b)
            return P.atom(('call', n, v, args), b)
        if op == 'extractvalue':
            return P.atom(('ext', tuple(i['idx']), self.key(i['ops'][0])), b)
        if op in ('and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'shl', 'frem'):
            x, y = self.key(i['ops'][0]), self.key(i['ops'][1])
            if op == 'ashr' and y.isconst() and b in (32, 64) and b - y.cval() in (8, 16, 32) and x.m and all(isinstance(c, int) and c % (1 << y.cval()) == 0 for c in x.m.values()):
                # A narrower integer, sign-extended in place
                n, z = b - y.cval(), P({k: c >> y.cval() for k, c in x.m.items()}, b)
                if z.isconst():
                    return P.const(signed(z.cval(), n), b)
                return P.atom(('cast', 'sext', P.atom(('cast', 'trunc', z, n), n), b), b)
            if i.get('exact') and y.isconst():
                d = y.cval() if op in ('sdiv', 'udiv') else 1 << y.cval()
                return P.atom(('exdiv', x, d), b)
            if b == 1 and op == 'xor' and (x.isconst() or y.isconst()):
                c, z = (x, y) if x.isconst() else (y, x)
                return mknot(z) if c.m else z
            if b != 1 and op == 'xor' and (x.isconst() or y.isconst()):
                c, z = (x, y) if x.isconst() else (y, x)
                if signed(c.cval(), b) == -1:
                    return P.sub(P.const(-1, b), z)
            if op in ('and', 'or', 'xor'):
                x, y = sorted((x, y), key=pid)
                if b == 1 and op == 'and':
                    return mksel(x, y, P.const(0, 1), 1)
                if b == 1 and op == 'or':
                    return mksel(x, P.const(1, 1), y, 1)
            return P.atom(('bin', op, x, y), b)
        if op == 'alloca':
            return P.atom(('alloca', v), 64)
        return P.atom(('ins', op, v), b)


SWAP = {'sgt': 'slt', 'ugt': 'ult', 'sge': 'sle', 'uge': 'ule', 'ogt': 'olt', 'oge': 'ole'}
NEG = {'sge': 'slt', 'uge': 'ult', 'ne': 'eq', 'sgt': 'sle', 'ugt': 'ule'}


def mkcmp(pred, x, y):
    if pred in SWAP:
        pred, x, y = SWAP[pred], y, x
    if pred in ('sle', 'ule'):  # x <= y  ->  not (y < x)
        return mknot(P.atom(('cmp', pred[0] + 'lt', y, x), 1))
    if pred == 'ne':
        return mknot(mkcmp('eq', x, y))
    if pred in ('olt', 'ole', 'oeq') and x.isconst() and y.isconst():
        u, v = x.cval(), y.cval()
        return P.const(int(u < v if pred == 'olt' else u <= v if pred == 'ole' else u == v), 1)
    if pred in ('eq', 'oeq', 'une') and pid(y) < pid(x):
        x, y = y, x
    return P.atom(('cmp', pred, x, y), 1)


def _narrow(op, x, b, t):
    """Parts of a wider word loaded at entry, as loads of their own (little endian)."""
    a = x.theatom()
    if a is None:
        return None
    if op == 'trunc' and b in (8, 16, 32):
        if a[0] == 'load' and a[3] == 'entry':
            return mkload(a[1], t, b)
        if a[0] == 'bin' and a[1] == 'lshr' and a[3].isconst() and a[3].cval() % 8 == 0:
            l = a[2].theatom()
            if l is not None and l[0] == 'load' and l[3] == 'entry' and a[3].cval() + b <= a[2].b:
                return mkload(P.add(l[1], P.const(a[3].cval() // 8, 64)), t, b)
    if op == 'bitcast' and a[0] == 'load' and a[3] == 'entry' and (x.b, t) in ((32, 'float'), (64, 'double')):
        return mkload(a[1], t, b)
    return None


def mkload(a, t, b):
    """A load from the memory of the entry, distributed over the selects of its address."""
    for k, c in a.m.items():
        if len(k) == 1 and c == 1 and k[0][0] == 'sel':
            rest = P({q: e for q, e in a.m.items() if q != k}, a.b)
            s = k[0]
            return mksel(s[1], mkload(P.add(rest, s[2]), t, b), mkload(P.add(rest, s[3]), t, b), b)
    return P.atom(('load', a, t, 'entry'), b)


def mknot(c):
    a = c.theatom()
    if a is not None and a[0] == 'not':
        return a[1]
    return P.atom(('not', c), 1)


def mksel(c, x, y, b):
    if x == y:
        return x
    a = c.theatom()
    if a is not None and a[0] == 'not':
        return mksel(a[1], y, x, b)
    if c.isconst():
        return x if c.m else y
    if b == 1 and x.isconst() and y.isconst():
        return c if x.m else mknot(c)
    return P.atom(('sel', c, x, y), b)


def signed(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def bits(t):
    if t in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
        return 'f'
    if t == 'ptr':
        return 64
    if t.startswith('i') and t[1:].isdigit():
        return int(t[1:])
    return 'x'


def throws(t):
    """This invoke never completes normally."""
    return 'callee' in t and callee(t) in ('__cxa_throw', '__cxa_rethrow')


def callee(i):
    c = i['callee']
    if c[0] != 'g':
        return '?indirect'
    return c[3] if len(c) > 3 and c[3] else c[1]


def const_atom(a):
    return P.atom(a, 'x')


POOL, AIDS = {}, {}


def aid(a):
    """Serial number of an atom: an arbitrary but fixed order."""
    return AIDS.setdefault(a, len(AIDS))


def pid(p):
    return p.n


class P:
    """Polynomial normal form. b: bit width, 'f' (floating) or 'x' (other)."""
    __slots__ = ('m', 'b', '_h', 'n')

    def __new__(cls, m, b):
        """Hash-consed: equal normal forms are the same object, so that shared subterms are compared once."""
        if isinstance(b, int):
            mask = (1 << b) - 1
            m = {k: c & mask for k, c in m.items() if c & mask}
        else:
            m = {k: c for k, c in m.items() if c}
        f = frozenset(m.items())
        r = POOL.get((b, f))
        if r is None:
            r = object.__new__(cls)
            r.m, r.b, r._h, r.n = m, b, hash(f), len(POOL)
            POOL[(b, f)] = r
        return r

    @staticmethod
    def const(v, b):
        return P({(): v}, b)

    @staticmethod
    def fconst(s):
        try:
            return P({(): Fraction(s)}, 'f')
        except ValueError:
            return P({(('fc', s),): 1}, 'f')

    @staticmethod
    def atom(a, b):
        return P({(a,): 1}, b)

    def norm(self):
        """Multiply exact divisions back: c * exdiv(x, d) with d | c is (c / d) * x."""
        for k, c in self.m.items():
            for j, a in enumerate(k):
                if a[0] == 'exdiv' and isinstance(c, int) and c % a[2] == 0:
                    rest = P({k[:j] + k[j + 1:]: c // a[2]}, self.b)
                    return P.add(P({q: e for q, e in self.m.items() if q != k}, self.b), P.mul(rest, a[1]))
        return self

    @staticmethod
    def _b(x, y):
        if x.b == y.b:
            return x.b
        if 'x' in (x.b, y.b):
            return y.b if x.b == 'x' else x.b
        return max(x.b, y.b) if isinstance(x.b, int) and isinstance(y.b, int) else 'f'

    @staticmethod
    def add(x, y):
        m = dict(x.m)
        for k, c in y.m.items():
            m[k] = m.get(k, 0) + c
        return P(m, P._b(x, y))

    @staticmethod
    def neg(x):
        return P({k: -c for k, c in x.m.items()}, x.b)

    @staticmethod
    def sub(x, y):
        return P.add(x, P.neg(y))

    @staticmethod
    def mul(x, y):
        m = {}
        for k, c in x.m.items():
            for l, d in y.m.items():
                q = k + l if not k or not l else tuple(sorted(k + l, key=aid))
                m[q] = m.get(q, 0) + c * d
        return P(m, P._b(x, y)).norm()

    def isconst(self):
        return all(k == () for k in self.m)

    def cval(self):
        v = self.m.get((), 0)
        return signed(v, self.b) if isinstance(self.b, int) else v

    def isatom(self):
        return len(self.m) == 1 and next(iter(self.m.values())) == 1 and len(next(iter(self.m))) == 1

    def theatom(self):
        return next(iter(self.m))[0] if self.isatom() else None

    def atoms(self):
        out = set()
        for k in self.m:
            out.update(k)
        return out

    def deep(self):
        """All atoms, transitively."""
        out, todo = set(), [self]
        while todo:
            x = todo.pop()
            if isinstance(x, P):
                todo.extend(x.atoms())
            elif isinstance(x, tuple):
                if x in out:
                    continue
                if x and isinstance(x[0], str):
                    out.add(x)
                todo.extend(x)
        return out

    def __eq__(self, o):
        return self is o or isinstance(o, P) and self._h == o._h and self.b != o.b and self.m == o.m

    def __hash__(self):
        return self._h

    def __repr__(self):
        global DEPTH, ROOM
        if not self.m:
            return '0'
        if DEPTH > 12 or DEPTH and ROOM < 0:
            return '...'
        if not DEPTH:
            ROOM = 4000
        DEPTH += 1
        try:
            parts = []
            for k, c in sorted(self.m.items(), key=lambda kc: (len(kc[0]), [aid(a) for a in kc[0]])):
                cs = signed(c, self.b) if isinstance(self.b, int) else c
                f = '*'.join(fmt(a) for a in k)
                parts.append(str(cs) if not k else f if cs == 1 else f'{cs}*{f}')
                ROOM -= 10 + len(parts[-1]) // 8
            return ' + '.join(parts)
        finally:
            DEPTH -= 1


DEPTH, ROOM = 0, 0


def fmt(a):
    if not isinstance(a, tuple):
        return str(a)
    h = a[0]
    if h == 'arg':
        return f'arg{a[1]}'
    if h == 'load':
        return f'[{a[1]!r}]' + ('' if a[3] == 'entry' else f'@{a[3]}')
    if h == 'g':
        return f'&{a[1]}'
    if h == 'cmp':
        return f'({a[2]!r} {a[1]} {a[3]!r})'
    if h == 'not':
        return f'!{a[1]!r}'
    if h == 'exdiv':
        return f'({a[1]!r} / {a[2]})'
    if h == 'sel':
        return f'({a[1]!r} ? {a[2]!r} : {a[3]!r})'
    if h == 'bin':
        return f'({a[2]!r} {a[1]} {a[3]!r})'
    if h == 'cast':
        return f'{a[1]}({a[2]!r})'
    if h == 'fun':
        return f'{a[1]}({", ".join(map(repr, a[2]))})'
    if h == 'call':
        return f'{a[1]}#{a[2]}({", ".join(map(repr, a[3]))})'
    if h == 'phi':
        return f'phi#{a[1]}({", ".join(repr(k) for k, _ in a[2])})'
    if h == 'ext':
        return f'{a[2]!r}.{a[1]}'
    if h == 'finv':
        return f'1/({a[1]!r})'
    return '<' + ' '.join(str(x) for x in a) + '>'


# --- gated equality ------------------------------------------------------------------------------
def _gate(p, seen):
    """A select condition (or ungated phi) on which p depends, innermost first."""
    if p in seen:
        return None
    seen.add(p)
    for k in p.m:
        for a in k:
            g = _gate_atom(a, seen)
            if g is not None:
                return g
    return None


def _gate_atom(a, seen):
    if not isinstance(a, tuple):
        return None
    if a[0] == 'sel':
        g = _gate(a[1], seen)
        return g if g is not None else ('c', a[1])
    if a[0] == 'not' or a[0] == 'cast' and a[2].b == 1:
        c = a[1] if a[0] == 'not' else a[2]
        g = _gate(c, seen)
        return g if g is not None else None if c.isconst() else ('c', c)
    if a[0] == 'phi':
        return ('p', a[1], tuple(p for _, p in a[2]))
    for x in a:
        if isinstance(x, P):
            g = _gate(x, seen)
        elif isinstance(x, tuple):
            g = _gate_tuple(x, seen)
        else:
            g = None
        if g is not None:
            return g
    return None


def _gate_tuple(t, seen):
    for x in t:
        g = _gate(x, seen) if isinstance(x, P) else _gate_tuple(x, seen) if isinstance(x, tuple) else None
        if g is not None:
            return g
    return None


def subst(p, gate, val, memo):
    if p in memo:
        return memo[p]
    r = P({}, p.b)
    for k, c in p.m.items():
        t = P({(): c}, p.b)
        for a in k:
            t = P.mul(t, _subst_atom(a, gate, val, memo, p.b))
        r = P.add(r, t)
    if r.b == 'x' and p.b != 'x':
        r = P(r.m, p.b)
    memo[p] = r
    return r


def _subst_atom(a, gate, val, memo, b):
    if a[0] == 'sel' and gate[0] == 'c' and a[1] == gate[1]:
        return subst(a[2] if val else a[3], gate, val, memo)
    if a[0] == 'phi' and gate[0] == 'p' and a[1] == gate[1]:
        for k, p in a[2]:
            if p == val:
                return subst(k, gate, val, memo)
    if gate[0] == 'c' and gate[1].theatom() == a:
        return P.const(val, 1)
    if gate[0] == 't' and a[0] == 'cast' and a[1] == 'fptrunc':
        return subst(a[2], gate, val, memo)

    def tr(x):
        if isinstance(x, P):
            return subst(x, gate, val, memo)
        if isinstance(x, tuple):
            return tuple(tr(y) for y in x)
        return x
    if a[0] in ('not', 'cast') and gate[0] == 'c' and (a[1] if a[0] == 'not' else a[2]) == gate[1]:
        if a[0] == 'not':
            return P.const(1 - val, 1)
        return P.const((-val if a[1] == 'sext' else val), a[3]) if isinstance(a[3], int) else P({(): Fraction(val)}, 'f')
    n = (a[0],) + tuple(tr(x) for x in a[1:])
    if n == a:
        return P({(a,): 1}, b)
    if n[0] == 'sel':
        return mksel(n[1], n[2], n[3], b)
    if n[0] == 'cast' and n[2].isconst() and n[1] in ('sext', 'zext', 'trunc'):
        v = n[2].cval()
        if n[1] == 'zext':
            v &= (1 << n[2].b) - 1
        return P.const(v, n[3])
    if n[0] == 'not' and n[1].isconst():
        return P.const(0 if n[1].m else 1, 1)
    if n[0] == 'exdiv':
        return P.mul(P.const(1, b), P.atom(n, b))
    return P.atom(n, b)


def rounded(p):
    return any(a[0] == 'cast' and a[1] == 'fptrunc' for a in p.deep())


def unrounded(p):
    """p with exact arithmetic."""
    return subst(p, ('t',), None, {})


def equal(a, b, budget=None):
    """Equality of gated normal forms: split on every select condition, compare the leaves."""
    if a == b:
        return True
    budget = budget if budget is not None else [128]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    seen = set()
    g = _gate(a, seen) or _gate(b, seen)
    if g is None:
        return False
    for v in ((1, 0) if g[0] == 'c' else g[2]):
        memo = {}
        if not equal(subst(a, g, v, memo), subst(b, g, v, memo), budget):
            return False
    return True


# --- residual predicates ------------------------------------------------------------------------
FREE = ('arg', 'load', 'alloca', 'g')
# Calls whose result is any value, a new one each time: the environment
ENV = re.compile(r'^litl_free_|^rand$|^random$|^time$|^clock$|^getpid$|^getenv$|random_device|_clock::now|^clock_gettime$|^gettimeofday$|^pthread_self$')


def free_call(a):
    return a[0] == 'call' and ENV.search(a[1]) is not None


G_TYPES = {}


def mathfun(f, xs, a):
    """Standard mathematical functions."""
    import math
    n = f[:-1] if f.endswith('f') and f[:-1] in MATH else f
    if n not in MATH:
        raise Unknown(fmt(a))
    try:
        v = (MATH[n] or getattr(math, n))(*[float(x) for x in xs])
        return Fraction(v)
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Unknown('outside the domain of ' + f)


def _round(x):
    import math
    return math.copysign(math.floor(abs(x) + 0.5), x)


MATH = {n: None for n in ('cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'cosh', 'sinh', 'tanh', 'acosh', 'asinh', 'atanh', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt',
                                  'erf', 'erfc', 'lgamma', 'atan2', 'pow', 'hypot', 'fmod')}
MATH.update({'tgamma': lambda x: __import__('math').gamma(x), 'fdim': lambda x, y: max(x - y, 0.), 'round': _round, 'logb': lambda x: float(__import__('math').frexp(x)[1] - 1),
             'ilogb': lambda x: float(__import__('math').frexp(x)[1] - 1), 'fmax': max, 'fmin': min, 'maxnum': max, 'minnum': min})


class Valuation:
    """Evaluates normal forms of a loop-free function for one choice of its free atoms."""

    def __init__(self, fn, pick):
        self.fn, self.pick = fn, pick
        self.vals, self.memo, self.funs, self.cone = {}, {}, {}, {}
        self.path = None

    def ev(self, p):
        if p in self.memo:
            return self.memo[p]
        tot = 0
        for k, c in p.m.items():
            v = c if not isinstance(p.b, int) else signed(c, p.b)
            for a in k:
                v = v * self.at(a)
            tot += v
        if isinstance(p.b, int):
            tot = signed(int(tot), p.b) if p.b > 1 else int(tot) & 1
        self.memo[p] = tot
        return tot

    def at(self, a):
        if a in self.vals:
            return self.vals[a]
        v = self._at(a)
        self.vals[a] = v
        return v

    def _at(self, a):
        h = a[0]
        if h == 'arg':
            return self.pick(a, self.fn.args[a[1]][1])
        if h == 'load':
            if a[3] != 'entry':
                raise Unknown(fmt(a))
            # the entry memory is a function of the address
            n = a[2].startswith('i') and a[2] != 'i1'
            k = ('load', n or a[2], self.ev(a[1]))
            if k not in self.funs:
                self.funs[k] = self.pick(a, a[2])
            return signed(self.funs[k], int(a[2][1:])) if n else self.funs[k]
        if h in ('g', 'alloca'):
            return self.pick(a, 'ptr')
        if free_call(a):
            return self.pick(a, 'i64')
        if h == 'cmp':
            x, y = a[2], a[3]
            p = a[1]
            X, Y = self.ev(x), self.ev(y)
            if p in ('true', 'false'):
                return int(p == 'true')
            b = x.b if isinstance(x.b, int) else y.b
            if len(p) == 3 and p[0] == 'u' and p != 'ult' and isinstance(b, int) or p in ('ult', 'ule', 'ugt', 'uge') and isinstance(b, int):
                X, Y = X & ((1 << b) - 1), Y & ((1 << b) - 1)
            q = p if p in ('eq', 'ne') else p[1:]
            if p in ('ord', 'uno'):
                return int(p == 'ord')
            return int({'eq': X == Y, 'ne': X != Y, 'lt': X < Y, 'le': X <= Y, 'gt': X > Y, 'ge': X >= Y}[q])
        if h == 'not':
            return 1 - (self.ev(a[1]) & 1)
        if h == 'exdiv':
            v = self.ev(a[1])
            if v % a[2]:
                raise Unknown('inexact')
            return v // a[2]
        if h == 'sel':
            return self.ev(a[2]) if self.ev(a[1]) else self.ev(a[3])
        if h == 'cast':
            op, x, b = a[1], a[2], a[3]
            v = self.ev(x)
            if op in ('sext', 'sitofp', 'bitcast'):
                if op == 'bitcast' and (x.b == 'f') != (b == 'f'):
                    raise Unknown(fmt(a))
                if x.b == 1:
                    return -int(v) if op == 'sext' else v
                return v if op != 'sitofp' else Fraction(v)
            if op in ('zext', 'uitofp'):
                v &= (1 << x.b) - 1
                return v
            if op == 'trunc':
                return signed(v, b) if b > 1 else v & 1
            if op in ('fptosi', 'fptoui'):
                return int(v)  # toward zero
            if op in ('fptrunc',):
                return v
            raise Unknown(fmt(a))
        if h == 'bin':
            op, x, y = a[1], a[2], a[3]
            X, Y = self.ev(x), self.ev(y)
            b = x.b
            if op in ('and', 'or', 'xor'):
                return {'and': X & Y, 'or': X | Y, 'xor': X ^ Y}[op]
            if op in ('sdiv', 'srem'):
                if Y == 0:
                    raise Unknown('div0')
                q = abs(X) // abs(Y)
                q = q if (X < 0) == (Y < 0) else -q
                return q if op == 'sdiv' else X - q * Y
            if op in ('udiv', 'urem'):
                m = (1 << b) - 1
                X, Y = X & m, Y & m
                if Y == 0:
                    raise Unknown('div0')
                return signed(X // Y if op == 'udiv' else X % Y, b)
            if op == 'ashr':
                return X >> Y
            if op == 'lshr':
                return signed((X & ((1 << b) - 1)) >> Y, b)
            if op == 'shl':
                return signed(X << Y, b)
            if op == 'frem':
                import math
                return Fraction(math.fmod(X, Y))
            raise Unknown(fmt(a))
        if h == 'fun':
            f = a[1]
            xs = [self.ev(x) for x in a[2]]
            if f == 'smax':
                return max(xs)
            if f == 'smin':
                return min(xs)
            if f in ('umax', 'umin'):
                b = a[2][0].b
                ys = [x & ((1 << b) - 1) for x in xs]
                return signed((max if f == 'umax' else min)(ys), b)
            if f in ('abs', 'fabs'):
                return abs(xs[0])
            if f == 'floor':
                import math
                return Fraction(math.floor(xs[0]))
            if f == 'trunc':
                return Fraction(int(xs[0]))
            if f == 'ceil':
                import math
                return Fraction(math.ceil(xs[0]))
            if f.startswith('g_'):  # uninterpreted: any function will do, as long as it is one
                k = (f, tuple(xs))
                if k not in self.funs:
                    self.funs[k] = self.pick(a, G_TYPES.get(f, 'double'))
                return self.funs[k]
            return mathfun(f, xs, a)
        if h == 'phi':
            for k, p in a[2]:
                if self.reach(p) and self.edge(p, a[1]):
                    return self.ev(k)
            raise Unknown('phi not reached')
        if h == 'finv':
            v = self.ev(a[1])
            if v == 0:
                raise Unknown('div0')
            return 1 / Fraction(v)
        raise Unknown(fmt(a))

    def edge(self, p, b):
        t = self.fn.term(p)
        if t['op'] == 'br':
            if len(t['ops']) == 1:
                return True
            c = self.ev(self.fn.key(t['ops'][0]))
            # operands of a conditional br are (cond, false, true)
            tgt = t['ops'][2] if c else t['ops'][1]
            return tgt[1] == b
        if t['op'] == 'switch':
            v = self.ev(self.fn.key(t['ops'][0]))
            for cv, d in t['cases']:
                if int(cv[1]) == v:
                    return d == b
            return t['default'] == b
        if t['op'] == 'invoke':
            return (t['unwind'] if throws(t) else t['normal']) == b
        raise Unknown('terminator ' + t['op'])

    def walk(self):
        """The blocks of the path taken by this valuation, up to the first residual loop or undecided branch."""
        fn = self.fn
        b, done = fn.entry, set()
        while True:
            if b in fn.loops:
                self.stop = b, Unknown('loop')
                return
            try:
                for i in fn.blocks[b]['ins']:
                    if 'callee' in i and callee(i) in ('llvm.assume', 'litl_assume') and not self.ev(fn.key(i['ops'][0])):
                        return
                self.path.add(b)
                nx = [x for x in fn.succs(b) if self.edge(b, x)]
            except Unknown as e:
                self.stop = b, e
                return
            if not nx:
                return
            b = nx[0]

    def reach(self, b):
        if self.path is None:
            self.path, self.stop = set(), None
            self.walk()
        if b in self.path:
            return True
        if self.stop is None:
            return False
        c, e = self.stop
        if c not in self.cone:
            seen, todo = {c}, [c]
            while todo:
                for x in self.fn.succs(todo.pop()):
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            self.cone[c] = seen
        if b in self.cone[c]:
            raise e
        return False


INTS = [0, 1, 2, 3, 4, 5, -1, -2, -3, -5, 7]
WIDE = [1 << 31, 1 << 32, 3 << 31, -(1 << 31), -(1 << 32), 1 << 16, 1 << 8, 1 << 40]
FLOATS = [Fraction(x) for x in ('0', '1', '-1', '1/2', '-1/2', '5/4', '-9/4', '3', '2', '-2', '13/8')]


def same(x, y):
    if isinstance(x, (Fraction, float)) or isinstance(y, (Fraction, float)):
        return abs(x - y) <= Fraction(1, 10**6) * (1 + abs(x))
    return x == y


def witness(fn, block, cond=None, differ=None, tries=3000, seed=1, ints=None, floats=None):
    """A choice of free atoms under which `block` is reached (and `cond` holds), or None.

    Returns (atoms -> value) or None when no ordering in the enumerated set satisfies it; raises
    Unknown when the predicate depends on something outside the loop-free fragment."""
    rnd = random.Random(seed)
    ints, floats = list(ints or INTS), list(floats or FLOATS)
    extra, fextra = fn.constants()
    ints += [c + e for c in extra for e in (-1, 0, 1)]
    floats += [c + e for c in fextra for e in (-1, 0, 1)]
    unknown = None
    bad = 0
    for t in range(tries + tries // 3):
        ptr = {}
        wide = [rnd.randrange(6) if t >= tries else -1, rnd.choice(WIDE)]  # which 64-bit integer is out of the range of narrower ones

        def pick(a, ty):
            if ty == 'i64':
                wide[0] -= 1
                if t >= tries and (wide[0] == -1 or t % 3 == 0 and rnd.random() < 0.6):
                    return (1 << 16 if t % 3 == 0 else wide[1]) + rnd.choice((0, 1, 2, 5))
            if ty == 'ptr':
                ptr.setdefault(a, 0x10000 * (len(ptr) + 1))
                return ptr[a]
            if ty in ('double', 'float', 'x86_fp80'):
                return rnd.choice(floats)
            if ty == 'i1':
                return rnd.choice((0, 1))
            if ty.startswith('i'):
                v = rnd.choice(ints)
                return signed(v, int(ty[1:]))
            raise Unknown('type ' + ty)
        V = Valuation(fn, pick)
        try:
            if V.reach(block) and (cond is None or V.ev(cond)) and (differ is None or not same(V.ev(differ[0]), V.ev(differ[1]))):
                return {fmt(a): (str(v) if isinstance(v, Fraction) else v) for a, v in V.vals.items() if a[0] in ('arg', 'load') and not isinstance(v, bool)}
        except Unknown as e:
            unknown = e
            bad += 1
            if bad > 200 and bad > t * 0.9:
                raise
        except (OverflowError, ValueError) as e:
            unknown = Unknown(str(e))
    return None


def _comparison_atoms(p, out, seen):
    """Collect the free atoms of p into out; False when one is used other than through comparisons."""
    if p in seen:
        return True
    seen.add(p)
    for k, c in p.m.items():
        if len(k) > 1:
            return False
        for a in k:
            if a[0] == 'cmp':
                for x in (a[2], a[3]):
                    if x.b == 64 and _pointerish(x):
                        if not _comparison_ptr(x, out, seen):
                            return False
                    elif not _comparison_val(x, out, seen):
                        return False
            elif a[0] == 'not':
                if not _comparison_atoms(a[1], out, seen):
                    return False
            elif a[0] == 'bin' and a[1] in ('and', 'or', 'xor') and p.b == 1:
                if not all(_comparison_atoms(x, out, seen) for x in a[2:4]):
                    return False
            elif a[0] == 'sel' and p.b == 1:
                if not all(_comparison_atoms(x, out, seen) for x in a[1:4]):
                    return False
            elif a[0] == 'cast' and a[1] in ('zext', 'sext') and a[2].b == 1:
                if not _comparison_atoms(a[2], out, seen):
                    return False
            else:
                return False
    return True


def _pointerish(x):
    return any(a[0] in ('alloca', 'g') or a[0] == 'arg' or a[0] == 'sel' and (_pointerish(a[2]) or _pointerish(a[3])) for k in x.m for a in k) and not (x.isatom() and x.theatom()[0] != 'sel')


def _comparison_ptr(x, out, seen):
    for k in x.m:
        for a in k:
            if a[0] == 'sel':
                if not (_comparison_atoms(a[1], out, seen) and _comparison_ptr(a[2], out, seen) and _comparison_ptr(a[3], out, seen)):
                    return False
            elif a[0] not in ('alloca', 'g', 'arg'):
                return False
    return True


def _comparison_val(x, out, seen):
    """x is a constant, a bare atom, or a select of such over comparisons."""
    if ('v', x) in seen:
        return True
    r = _comparison_val1(x, out, seen)
    if r:
        seen.add(('v', x))
    return r


def _comparison_val1(x, out, seen):
    """x is a constant, a bare atom, or a select of such over comparisons."""
    if x.isconst():
        out.add(('const', x))
        return True
    a = x.theatom()
    if a is None:
        return False
    if a[0] in ('load', 'arg'):
        if a[0] == 'load' and a[3] != 'entry':
            return False
        out.add(a)
        return True
    if a[0] == 'cast' and a[1] in ('zext', 'sext', 'fpext') and a[2].isatom() and a[2].theatom()[0] in ('load', 'arg'):
        out.add(a[2].theatom())
        return True
    if a[0] == 'sel':
        return _comparison_atoms(a[1], out, seen) and _comparison_val(a[2], out, seen) and _comparison_val(a[3], out, seen)
    if a[0] == 'fun' and a[1] in ('smin', 'smax', 'umin', 'umax', 'minnum', 'maxnum'):
        return all(_comparison_val(y, out, seen) for y in a[2])
    return False


@functools.lru_cache(None)
def _orderings(n):
    return tuple(orderings(n))


def orderings(n):
    """All weak orderings of n values, as rank tuples."""
    def go(k, top):
        if k == n:
            yield ()
            return
        for r in range(top + 1):
            for rest in go(k + 1, max(top, r + 1)):
                yield (r,) + rest
    seen = set()
    # ranks need not be introduced in order: enumerate all maps and keep the dense ones
    import itertools
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            yield t


def _conditions(fn, block, out, seen, vis):
    """Collect the compared atoms of the conditions under which the block is reached."""
    todo = [block]
    while todo:
        b = todo.pop()
        if b in vis:
            continue
        vis.add(b)
        if b in fn.loops:
            return False
        for p in fn.preds(b):
            todo.append(p)
            t = fn.term(p)
            if t['op'] == 'br' and len(t['ops']) == 3:
                if not _comparison_atoms(fn.key(t['ops'][0]), out, seen):
                    return False
            elif t['op'] == 'switch':
                return False
    return True


def _payload(fn, p, out, seen, seen2, vis):
    """Collect the compared atoms of the gates inside p; False when some gate is not an ordering."""
    if p in seen2:
        return True
    seen2.add(p)
    for k in p.m:
        for a in k:
            if not _payload_atom(fn, a, out, seen, seen2, vis):
                return False
    return True


def _payload_atom(fn, a, out, seen, seen2, vis):
    h = a[0]
    if free_call(a):
        return True
    if h in ('call', 'cyc', 'loopphi', 'ins', 'undef', 'c'):
        return False
    if h == 'load' and a[3] != 'entry':
        return False
    if h in FREE or h == 'fc':
        return True
    if h == 'sel':
        return _comparison_atoms(a[1], out, seen) and _payload(fn, a[2], out, seen, seen2, vis) and _payload(fn, a[3], out, seen, seen2, vis)
    if h in ('cmp', 'not'):
        return _comparison_atoms(P.atom(a, 1), out, seen)
    if h == 'fun' and a[1] in ('smin', 'smax', 'umin', 'umax', 'minnum', 'maxnum'):
        return all(_comparison_val(y, out, seen) for y in a[2])
    if h == 'phi':
        return a[1] not in fn.loops and _conditions(fn, a[1], out, seen, vis) and all(_payload(fn, k, out, seen, seen2, vis) for k, _ in a[2])
    if h == 'bin' and a[2].b == 1:
        return _comparison_atoms(P.atom(a, 1), out, seen)

    def go(x):
        if isinstance(x, P):
            return _payload(fn, x, out, seen, seen2, vis)
        if isinstance(x, tuple):
            return all(go(y) for y in x)
        return True
    return all(go(x) for x in a[1:])


def _resolve(p, V, amap, memo):
    """p under one ordering of the compared atoms: gates taken, equal atoms identified."""
    if p in memo:
        return memo[p]
    r = P({}, p.b)
    for k, c in p.m.items():
        t = P({(): c}, p.b)
        for a in k:
            t = P.mul(t, _resolve_atom(a, V, amap, memo, p.b))
        r = P.add(r, t)
    if r.b != p.b and r.b == 'x':
        r = P(r.m, p.b)
    memo[p] = r
    return r


def _resolve_atom(a, V, amap, memo, b):
    h = a[0]
    if a in amap:
        return amap[a]
    if h in FREE or h == 'fc' or free_call(a):
        return P.atom(a, b)
    if h == 'sel':
        return _resolve(a[2] if V.ev(a[1]) else a[3], V, amap, memo)
    if h in ('cmp', 'not') or h == 'bin' and a[2].b == 1:
        return P.const(V.at(a), 1)
    if h == 'fun' and a[1] in ('smin', 'smax', 'umin', 'umax', 'minnum', 'maxnum'):
        v = V.at(a)
        for x in a[2]:
            if V.ev(x) == v:
                return _resolve(x, V, amap, memo)
    if h == 'phi':
        for k, p in a[2]:
            if V.reach(p) and V.edge(p, a[1]):
                return _resolve(k, V, amap, memo)
        raise Unknown('phi not reached')

    def tr(x):
        if isinstance(x, P):
            return _resolve(x, V, amap, memo)
        if isinstance(x, tuple):
            return tuple(tr(y) for y in x)
        return x
    n = (h,) + tuple(tr(x) for x in a[1:])
    if h == 'cast' and n[2].isconst():
        v = n[2].cval()
        if n[1] == 'zext':
            return P.const(int(v) & ((1 << n[2].b) - 1), n[3])
        if n[1] in ('sext', 'trunc'):
            return P.const(-int(v) if n[2].b == 1 and n[1] == 'sext' and v > 0 else int(v), n[3])
        if n[1] in ('sitofp', 'fptrunc'):
            return P({(): Fraction(v)}, 'f')
        if n[1] == 'uitofp':
            return P({(): Fraction(int(v) & ((1 << n[2].b) - 1))}, 'f')
    if h == 'fun' and n[1] in ('fabs', 'abs') and n[2][0].isconst():
        return P({(): abs(n[2][0].cval())}, b)
    if h == 'finv' and n[1].isconst() and n[1].cval():
        return P({(): 1 / Fraction(n[1].cval())}, 'f')
    if h == 'exdiv':
        return P.mul(P.const(1, b), P.atom(n, b))
    return P.atom(n, b)


def _enumerate(fn, block, differ, cap=700):
    """Decide over every ordering of the compared atoms: (witness or None, complete)."""
    out, seen, vis = set(), set(), set()
    if not _conditions(fn, block, out, seen, vis):
        return None, False
    if differ is not None:
        seen2 = set()
        for x in differ:
            if not _payload(fn, x, out, seen, seen2, vis):
                return None, False
    for b in vis:
        for i in fn.blocks[b]['ins']:
            if 'callee' in i and callee(i) == 'litl_assume':
                _comparison_atoms(fn.key(i['ops'][0]), out, seen)
    consts = sorted({x[1].cval() for x in out if x[0] == 'const'})
    atoms = sorted((x for x in out if x[0] != 'const'), key=aid)
    tys = {a[2] if a[0] == 'load' else fn.args[a[1]][1] for a in atoms}
    if len(tys) > 1 or len(atoms) > 6 or (consts and len(atoms) > 4) or len(consts) > 2:
        return None, False
    n = len(atoms)
    if consts:
        import itertools
        vals = sorted({c + Fraction(k, n + 1) if isinstance(c, Fraction) else c + k for c in consts for k in range(-n, n + 1)})
        space = itertools.product(vals, repeat=n)
    else:
        base = 3  # positive, so that signed and unsigned orders agree
        space = (tuple(base + r for r in t) for t in _orderings(n)) if n else [()]
    complete = True
    for t in space:
        amap = dict(zip(atoms, t))
        rep, pm = {}, {}
        for a, v in amap.items():
            w = bits(a[2] if a[0] == 'load' else fn.args[a[1]][1])
            pm[a] = P({(): v}, w) if v in consts else P.atom(rep.setdefault(v, a), w)
        ptr = {}

        def pick(a, ty):
            if a in amap:
                v = amap[a]
                return Fraction(v) if ty in ('double', 'float') else v
            if ty == 'ptr':
                ptr.setdefault(a, 0x10000 * (len(ptr) + 1))
                return ptr[a]
            raise Unknown('free atom outside the enumerated orderings')
        V = Valuation(fn, pick)
        try:
            if not V.reach(block):
                continue
            if differ is None:
                return {fmt(a): v for a, v in amap.items()}, True
            memo = {}
            x, y = (_resolve(d, V, pm, memo) for d in differ)
            if x == y or equal(x, y):
                continue
            try:
                if not same(V.ev(differ[0]), V.ev(differ[1])):
                    return {fmt(a): v for a, v in amap.items()}, True
            except Unknown:
                pass
            complete = False
        except Unknown:
            return None, False
    return None, complete


def decide(fn, block, differ=None, tries=3000, ints=None, floats=None):
    """(witness or None, complete). Complete when every ordering of the compared values was covered."""
    w, complete = _enumerate(fn, block, differ)
    if w is not None or complete:
        return w, complete
    w = witness(fn, block, differ=differ, tries=tries, ints=ints, floats=floats)
    return w, w is not None


# --- cells of the floating inputs ---------------------------------------------------------------
STEPS = ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'lround', 'llround', 'lrint')


class _Split(Exception):
    pass


def _affine(p, names):
    """p = c * x + d for one floating atom x, or a constant."""
    x, c, d = None, 0, 0
    for k, v in p.m.items():
        if k == ():
            d = v
        elif len(k) == 1 and k[0][0] in ('arg', 'load') and x is None:
            x, c = k[0], v
        else:
            return None
    return x, c, d


def _step(op, v):
    import math
    if op in ('fptosi', 'fptoui', 'trunc'):
        return int(v)
    if op == 'floor':
        return math.floor(v)
    if op == 'ceil':
        return math.ceil(v)
    if op in ('round', 'lround', 'llround'):
        return int(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1)
    return round(v)


class _Cells:
    """Rewrites normal forms on a box of the floating inputs, where steps and comparisons are constant.

    box: atom -> (lo, hi), a point when lo == hi and an open interval otherwise. Raises _Split when a step or a
    comparison is not constant over the box."""

    def __init__(self, fn, box, R):
        self.fn, self.box, self.R, self.memo = fn, box, R, {}
        self.V = Valuation(fn, self._none)

    def _none(self, a, ty):
        raise Unknown('free atom')

    def rep(self, x):
        lo, hi = self.box[x]
        return (lo + hi) / 2

    def cut(self, x, at):
        if x not in self.box:
            raise _Split(x, [-self.R, self.R])
        lo, hi = self.box[x]
        at = sorted({v for v in at if lo < v < hi})
        if at:
            raise _Split(x, at)

    def p(self, p):
        if p in self.memo:
            return self.memo[p]
        r = P({}, p.b)
        for k, c in p.m.items():
            t = P({(): c}, p.b)
            for a in k:
                t = P.mul(t, self.at(a, p.b))
            r = P.add(r, t)
        if r.b != p.b and r.b == 'x':
            r = P(r.m, p.b)
        self.memo[p] = r
        return r

    def at(self, a, b):
        h = a[0]
        if h == 'sel':
            c = self.p(a[1])
            if c.isconst():
                return self.p(a[2] if c.m else a[3])
            return mksel(c, self.p(a[2]), self.p(a[3]), b)

        def tr(x):
            if isinstance(x, P):
                return self.p(x)
            if isinstance(x, tuple):
                return tuple(tr(y) for y in x)
            return x
        n = (h,) + tuple(tr(x) for x in a[1:])
        if h == 'cast' and n[1] in ('fptosi', 'fptoui'):
            v = self.step(n[1], n[2])
            if v is not None:
                return P.const(v, n[3])
        if h == 'fun' and n[1] in STEPS and len(n[2]) == 1:
            v = self.step(n[1], n[2][0])
            if v is not None:
                return P.const(v, b) if isinstance(b, int) else P({(): Fraction(v)}, 'f')
        if h == 'cmp' and (n[2].b == 'f' or n[3].b == 'f'):
            f = _affine(P.sub(n[2], n[3]), None)
            if f is not None and f[0] is not None:
                x, c, d = f
                self.cut(x, [-d / Fraction(c)])
                v = c * self.rep(x) + d
                q = n[1] if n[1] in ('eq', 'ne') else n[1][1:]
                if n[1] not in ('ord', 'uno', 'true', 'false'):
                    return P.const(int({'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[q]), 1)
                return P.const(int(n[1] in ('ord', 'true')), 1)
        if h == 'load':
            return mkload(n[1], n[2], b) if n[3] == 'entry' else P.atom(n, b)
        if h in ('cast', 'cmp', 'not', 'bin', 'fun', 'finv'):
            args = [x for y in n[1:] for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, P)]
            if args and all(x.isconst() for x in args):
                try:
                    v = Valuation(self.fn, self._none).at(n)
                    return P.const(int(v), b) if isinstance(b, int) else P({(): Fraction(v)}, b)
                except Unknown:
                    pass
        if h == 'cmp':
            return mkcmp(n[1], n[2], n[3])
        if h == 'not':
            return mknot(n[1])
        if h == 'exdiv':
            return P.mul(P.const(1, b), P.atom(n, b))
        return P.atom(n, b)

    def step(self, op, p):
        f = _affine(p, None)
        if f is None:
            return None
        x, c, d = f
        if x is None:
            return _step(op, d)
        if x not in self.box:
            self.cut(x, ())
        lo, hi = self.box[x]
        if lo != hi:
            e = sorted((c * lo + d, c * hi + d))
            off = Fraction(1, 2) if op in ('round', 'rint', 'nearbyint', 'lround', 'llround', 'lrint') else 0
            k = int(e[0]) - 2
            at = []
            while k <= e[1] + 2:
                at.append((k + off - d) / Fraction(c))
                k += 1
            self.cut(x, at)
        return _step(op, c * self.rep(x) + d)


def has_steps(p):
    return any(a[0] == 'cast' and a[1] in ('fptosi', 'fptoui') or a[0] == 'fun' and a[1] in STEPS for a in p.deep())


def cells(fn, block, differ, R=8, cap=4000, tries=40):
    """Equality of two normal forms on every cell of the floating inputs in [-R, R]: (witness or None, complete, number of cells)."""
    todo, done = [{}], 0
    rnd = random.Random(1)
    complete = True
    while todo:
        box = todo.pop()
        done += 1
        if done + len(todo) > cap:
            return None, False, done
        C = _Cells(fn, box, R)
        try:
            x, y = C.p(differ[0]), C.p(differ[1])
        except _Split as e:
            a, at = e.args
            if a in box:
                pts = [box[a][0]] + at + [box[a][1]]
                todo += [dict(box, **{}) | {a: (v, v)} for v in at]
            else:
                pts = [Fraction(v) for v in at]
            todo += [box | {a: (u, v)} for u, v in zip(pts, pts[1:])]
            continue
        if equal(x, y):
            continue
        complete = False
        for t in range(tries):
            ptr = {}

            def pick(a, ty):
                if a in box:
                    return C.rep(a)
                if ty == 'ptr':
                    ptr.setdefault(a, 0x10000 * (len(ptr) + 1))
                    return ptr[a]
                if ty in ('double', 'float', 'x86_fp80'):
                    return rnd.choice(FLOATS)
                return signed(rnd.choice(INTS), int(ty[1:])) if ty != 'i1' else rnd.choice((0, 1))
            V = Valuation(fn, pick)
            try:
                if V.reach(block) and not same(V.ev(differ[0]), V.ev(differ[1])):
                    return {fmt(a): str(v) for a, v in V.vals.items() if a[0] in ('arg', 'load') and not isinstance(v, bool)}, False, done
            except (Unknown, OverflowError, ValueError):
                pass
    return None, complete, done


class Mod:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = {}
        for f in j['functions']:
            fn = Fn(self, f)
            self.fns[fn.name] = fn
        self.globals = {g['name']: g for g in j['globals']}
        self.accesses = {k: j[k] for k in ('accesses', 'folded', 'inserted', 'operations')} if 'accesses' in j else None
