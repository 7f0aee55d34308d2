"""Relational numerical domain: conjunctions of linear constraints over the values of one harness root.

An obligation is decided by propagating the assumptions and branch conditions of the root, as linear constraints
(convex polyhedra, projected by Fourier-Motzkin elimination), to the block of the obligation. A condition which the
current polyhedron implies is followed; otherwise the polyhedron is split in two. Non-linear terms are independent
unknowns, integers do not wrap. The root is over-approximated, so that an obligation which holds in the domain holds;
where it does not, a point of the polyhedron is evaluated exactly before it is reported."""
import math, time
from fractions import Fraction
from . import ir
from .ir import P, Unknown, mkload, signed

MAXCONS = 1200


class Big(Exception):
    pass


class Split(Exception):
    """Branches: list of (constraints, (boolean atom, value) or None)."""


class Con:
    """sum(m) + k >= 0, or > 0 when strict."""
    __slots__ = ('m', 'k', 's')

    def __init__(self, m, k, s=False):
        self.m, self.k, self.s = m, k, s


def tighten(c, isint):
    """Integer tightening and scaling: all coefficients are integers."""
    m = {v: x for v, x in c.m.items() if x}
    k, s = c.k, c.s
    if not m:
        return Con({}, k, s)
    den = 1
    for x in m.values():
        if type(x) is not int and x.denominator != 1:
            den = den * x.denominator // math.gcd(den, x.denominator)
    g = 0
    for v, x in m.items():
        m[v] = x = int(x * den)
        g = math.gcd(g, x)
    if den != 1:
        k = k * den
    if g != 1:
        m = {v: x // g for v, x in m.items()}
        k = Fraction(k) / g
    if all(isint(v) for v in m):
        k = math.ceil(k) - 1 if s else math.floor(k)
        return Con(m, k, False)
    if type(k) is not int:
        if k.denominator == 1:
            k = int(k)
        else:
            d = k.denominator
            return Con({v: x * d for v, x in m.items()}, int(k * d), s)
    return Con(m, k, s)


def component(cons, extra):
    """The constraints connected with these ones."""
    vs = {v for c in extra for v in c.m}
    rest, out = cons, list(extra)
    while True:
        nxt, grew = [], False
        for c in rest:
            if vs.isdisjoint(c.m):
                nxt.append(c)
            else:
                out.append(c)
                vs.update(c.m)
                grew = True
        if not grew:
            return out
        rest = nxt


def reduce(cons, isint):
    """Deduplicate; None when contradictory."""
    best = {}
    for c in cons:
        c = tighten(c, isint)
        if not c.m:
            if c.k < 0 or c.s and c.k == 0:
                return None
            continue
        key = frozenset(c.m.items())
        o = best.get(key)
        if o is None or c.k < o.k or c.k == o.k and c.s:
            best[key] = c
    return list(best.values())


def solve(cons, isint, model=False):
    """False when infeasible, otherwise True or a point (dict; may be None when none was found)."""
    cons = reduce(cons, isint)
    if cons is None:
        return False
    order = []
    # opposite pairs are equalities: substitute
    while True:
        keys = {frozenset(c.m.items()): c for c in cons}
        eq = None
        for f, c in keys.items():
            o = keys.get(frozenset((v, -x) for v, x in f))
            if o is not None:
                if c.k + o.k < 0 or c.k + o.k == 0 and (c.s or o.s):
                    return False
                if c.k + o.k == 0:
                    eq = c
                    break
        if eq is None:
            break
        # prefer a variable with unit coefficient
        v = min(eq.m, key=lambda v: (abs(eq.m[v]), len(v) if isinstance(v, tuple) else 0))
        a = eq.m[v]
        expr = {w: Fraction(-x, a) for w, x in eq.m.items() if w != v}
        ek = Fraction(-eq.k) / a
        order.append(('eq', v, expr, ek))
        out = []
        for c in cons:
            x = c.m.get(v)
            if x is None:
                out.append(c)
                continue
            m = {w: y for w, y in c.m.items() if w != v}
            for w, y in expr.items():
                m[w] = m.get(w, 0) + x * y
            out.append(Con(m, c.k + x * ek, c.s))
        cons = reduce(out, isint)
        if cons is None:
            return False
    while True:
        vs = {}
        for c in cons:
            for v, x in c.m.items():
                p = vs.setdefault(v, [0, 0])
                p[x < 0] += 1
        if not vs:
            break
        v = min(vs, key=lambda v: vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1])
        lo = [c for c in cons if c.m.get(v, 0) > 0]
        hi = [c for c in cons if c.m.get(v, 0) < 0]
        rest = [c for c in cons if not c.m.get(v, 0)]
        order.append(('fm', v, lo, hi))
        for a in lo:
            for b in hi:
                x, y = a.m[v], -b.m[v]
                m = {w: z * y for w, z in a.m.items() if w != v}
                for w, z in b.m.items():
                    if w != v:
                        m[w] = m.get(w, 0) + z * x
                rest.append(Con(m, a.k * y + b.k * x, a.s or b.s))
        cons = reduce(rest, isint)
        if cons is None:
            return False
        if len(cons) > MAXCONS:
            raise Big()
    if not model:
        return True
    pt = {}
    for o in reversed(order):
        v = o[1]
        if o[0] == 'eq':
            val = o[3] + sum(x * pt.setdefault(w, Fraction(0)) for w, x in o[2].items())
        else:
            lo = hi = None
            los = his = False
            for c in o[2]:
                r = -(c.k + sum(x * pt.setdefault(w, Fraction(0)) for w, x in c.m.items() if w != v)) / Fraction(c.m[v])
                if lo is None or r > lo or r == lo and c.s:
                    lo, los = r, c.s
            for c in o[3]:
                r = -(c.k + sum(x * pt.setdefault(w, Fraction(0)) for w, x in c.m.items() if w != v)) / Fraction(c.m[v])
                if hi is None or r < hi or r == hi and c.s:
                    hi, his = r, c.s
            cand = [Fraction(2), Fraction(0)]
            if lo is not None:
                cand += [Fraction(math.floor(lo) + 1), Fraction(math.ceil(lo))]
            if hi is not None:
                cand += [Fraction(math.ceil(hi) - 1), Fraction(math.floor(hi))]
            if not isint(v) and lo is not None and hi is not None:
                cand.append((lo + hi) / 2)
            val = None
            for x in cand:
                if (lo is None or x > lo or x == lo and not los) and (hi is None or x < hi or x == hi and not his):
                    val = x
                    break
            if val is None:
                return None
        if isint(v) and Fraction(val).denominator != 1:
            return None
        pt[v] = Fraction(val)
    return pt


BAD = ('undef', 'cyc', 'c')


class State:
    """Rewrites the normal forms of a root under one polyhedron."""

    def __init__(self, fn, cons, bools, truths):
        self.fn, self.cons, self.bools, self.truths = fn, cons, bools, truths
        self.memo, self.rmemo, self.lins, self.side = {}, {}, {}, []

    # variables are monomials: tuples of atoms, integral unless one of them is floating
    ints = {}

    def isint(self, v):
        return State.ints.get(v, True)

    # --- resolution
    def res(self, p):
        if p in self.memo:
            return self.memo[p]
        if p.isconst():
            return p
        if p.b == 1:
            return P.const(int(self.truth(p)), 1)
        r = P({}, p.b)
        for k, c in p.m.items():
            t = P({(): c}, p.b)
            for a in k:
                t = P.mul(t, self.resat(a, p.b))
            r = P.add(r, t)
        if r.b != p.b and r.b == 'x':
            r = P(r.m, p.b)
        self.memo[p] = r
        return r

    def resat(self, a, b):
        h = a[0]
        if h in BAD:
            raise Unknown(ir.fmt(a))
        if h == 'sel':
            return self.res(a[2] if self.truth(a[1]) else a[3])
        if h in ('cmp', 'not'):
            return P.const(int(self.truth(P.atom(a, 1))), 1)
        if h == 'phi':
            for k, p in a[2]:
                if self.reach(p) and self.edge(p, a[1]):
                    return self.res(k)
            raise Unknown('phi not reached')
        if h in ('call', 'ins', 'loopphi'):
            return P.atom(a, b)
        if h == 'fun' and a[1] in ('smin', 'smax', 'umin', 'umax', 'minnum', 'maxnum') and len(a[2]) == 2:
            x, y = a[2]
            pred = {'s': 'slt', 'u': 'ult', 'm': 'olt'}[a[1][0]]
            lt = self.truth(P.atom(('cmp', pred, x, y), 1))
            return self.res(x if lt == ('min' in a[1]) else y)
        if h == 'fun' and a[1] in ('abs', 'fabs'):
            x = a[2][0]
            neg = self.negative(x)
            r = self.res(x)
            return P.neg(r) if neg else r

        def tr(x):
            if isinstance(x, P):
                return self.res(x)
            if isinstance(x, tuple):
                return tuple(tr(y) for y in x)
            return x
        n = (h,) + tuple(tr(x) for x in a[1:])
        if h == 'load':
            return mkload(n[1], n[2], b) if n[3] == 'entry' else P.atom(n, b)
        args = [x for y in n[1:] for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, P)]
        if args and all(x.isconst() for x in args):
            try:
                v = ir.Valuation(self.fn, None).at(n)
                return P.const(int(v), b) if isinstance(b, int) else P({(): Fraction(v)}, b)
            except (Unknown, TypeError):
                pass
        if h == 'cast':
            op, x = n[1], n[2]
            if op == 'zext' and isinstance(b, int) and x.b != 1 or op == 'uitofp':
                neg = self.truth(P.atom(('cmp', 'slt', x, P({}, x.b)), 1))
                if not neg:
                    return self.resat(('cast', 'sext' if op == 'zext' else 'sitofp', x, n[3]), b)
        if h == 'cast' and n[1] == 'sitofp' and not n[2].isatom():
            r = P({}, b)
            for k, c in n[2].m.items():
                t = P({(): Fraction(signed(c, n[2].b))}, b)
                for x in k:
                    t = P.mul(t, P.atom((h, 'sitofp', P.atom(x, n[2].b)) + n[3:], b))
                r = P.add(r, t)
            return r
        if h == 'exdiv':
            return P.mul(P.const(1, b), P.atom(n, b))
        return P.atom(n, b)

    def negative(self, x):
        """Whether x <= 0 (True) or x >= 0 (False)."""
        r = self.res(x)
        if not r.isconst():
            l, k = self.lin(r)
            if not self.feasible([Con(dict(l), k, True)]):
                return True
            if not self.feasible([Con({v: -c for v, c in l.items()}, -k, True)]):
                return False
        return self.truth(P.atom(('cmp', 'slt' if isinstance(x.b, int) else 'olt', x, P({}, x.b)), 1))

    # --- linear forms
    def lin(self, p):
        """A resolved form as (variables -> coefficient, constant)."""
        if p in self.lins:
            return self.lins[p]
        m, k = {}, Fraction(0)
        for q, c in p.m.items():
            c = Fraction(signed(c, p.b) if isinstance(p.b, int) else c)
            if q == ():
                k += c
                continue
            if len(q) == 1:
                l = self.linat(q[0], p.b)
                if l is not None:
                    for v, x in l[0].items():
                        m[v] = m.get(v, 0) + c * x
                    k += c * l[1]
                    continue
            State.ints[q] = isinstance(p.b, int)
            m[q] = m.get(q, 0) + c
        r = ({v: x for v, x in m.items() if x}, k)
        self.lins[p] = r
        return r

    def linat(self, a, b):
        h = a[0]
        if h == 'cast' and a[1] in ('sext', 'sitofp') and a[2].b != 1 or h == 'cast' and a[1] in ('bitcast', 'fptrunc', 'fpext') and (a[2].b == b):
            return self.lin(a[2])
        t = (a,)
        if h == 'cast' and a[1] == 'trunc' and isinstance(b, int) and b > 1:
            l, k = self.lin(a[2])
            m = 1 << (b - 1)
            if not self.feasible([Con({v: -x for v, x in l.items()}, -k - m, True)]) and not self.feasible([Con(dict(l), k - m + 1, True)]):
                return l, k
        if h == 'exdiv':
            State.ints[t] = True
            l, k = self.lin(a[1])
            m = dict(l)
            m[t] = m.get(t, 0) - a[2]
            self.add(Con(dict(m), k))
            self.add(Con({v: -x for v, x in m.items()}, -k))
            return {t: 1}, Fraction(0)
        if h == 'fun' and a[1] in ('floor', 'ceil') or h == 'cast' and a[1] in ('fptosi', 'fptoui'):
            x = a[2][0] if h == 'fun' else a[2]
            up = a[1] == 'ceil'
            if h == 'cast':
                up = self.negative(x)
            State.ints[t] = True
            l, k = self.lin(x)
            m = dict(l)
            m[t] = m.get(t, 0) - 1  # x - t
            n = {v: -y for v, y in m.items()}
            if up:  # t - 1 < x <= t
                self.add(Con(n, -k))
                self.add(Con(m, k + 1, True))
            else:   # t <= x < t + 1
                self.add(Con(m, k))
                self.add(Con(n, 1 - k, True))
            return {t: 1}, Fraction(0)
        if h == 'bin' and a[1] in ('sdiv', 'udiv', 'lshr', 'ashr') and a[3].isconst():
            d = a[3].cval() if a[1] in ('sdiv', 'udiv') else 1 << a[3].cval()
            if d > 0:
                neg = a[1] != 'ashr' and self.truth(P.atom(('cmp', 'slt', a[2], P({}, a[2].b)), 1))
                if not neg:
                    State.ints[t] = True
                    l, k = self.lin(a[2])
                    m = dict(l)
                    m[t] = m.get(t, 0) - d  # 0 <= x - d t < d
                    self.add(Con(dict(m), k))
                    self.add(Con({v: -x for v, x in m.items()}, d - 1 - k))
                    return {t: 1}, Fraction(0)
        return None

    def add(self, c):
        self.side.append(c)

    # --- truth of conditions
    def truth(self, p):
        if p.isconst():
            return bool(p.m)
        if p in self.truths:
            return self.truths[p]
        r = self._truth(p)
        self.truths[p] = r
        return r

    def _truth(self, p):
        a = p.theatom()
        if a is None:
            raise Unknown(ir.fmt(next(iter(p.atoms()))))
        h = a[0]
        if h == 'not':
            return not self.truth(a[1])
        if h == 'sel':
            return self.truth(a[2] if self.truth(a[1]) else a[3])
        if h == 'bin' and a[1] in ('and', 'or', 'xor'):
            x = self.truth(a[2])
            if a[1] == 'and' and not x or a[1] == 'or' and x:
                return x
            y = self.truth(a[3])
            return y if a[1] != 'xor' else x != y
        if h == 'phi':
            for k, q in a[2]:
                if self.reach(q) and self.edge(q, a[1]):
                    return self.truth(k)
            raise Unknown('phi not reached')
        if h == 'cmp':
            return self.compare(a[1], a[2], a[3])
        if h in BAD:
            raise Unknown(ir.fmt(a))
        if h == 'cast' and a[1] == 'trunc':
            raise Unknown(ir.fmt(a))
        a = (h,) + tuple(self.res(x) if isinstance(x, P) else x for x in a[1:])
        if a in self.bools:
            return self.bools[a]
        raise Split([([], (a, True)), ([], (a, False))])

    def compare(self, pred, x, y):
        orig = pred, x, y
        if pred in ('true', 'false', 'ord', 'uno'):
            return pred in ('true', 'ord')
        flt = not isinstance(x.b, int) and not isinstance(y.b, int)
        if not flt and pred in ('slt', 'eq') and isinstance(x.b, int):
            # sign tests of bitwise combinations
            for u, v, sw in ((x, y, False), (y, x, True)):
                t = u.theatom()
                if t is not None and t[0] == 'bin' and t[1] in ('or', 'and') and pred == 'slt' and v.isconst() and v.cval() == (-1 if sw else 0):
                    n = [self.truth(P.atom(('cmp', 'slt', z, P({}, z.b)), 1)) for z in t[2:4]]
                    neg = any(n) if t[1] == 'or' else all(n)
                    return not neg if sw else neg
                if t is not None and t[0] == 'bin' and t[1] == 'or' and pred == 'eq' and v.isconst() and v.cval() == 0:
                    return all(self.truth(P.atom(('cmp', 'eq', z, P({}, z.b)), 1)) for z in t[2:4])
        x, y = self.res(x), self.res(y)
        if x.isconst() and y.isconst():
            return bool(ir.Valuation(self.fn, None).at(('cmp', pred, x, y)))
        if not flt and pred in ('ugt', 'uge') and x.isconst():
            pred, x, y = 'ul' + pred[2], y, x
        if not flt and pred in ('ult', 'ule') and y.isconst() and 0 <= signed(y.cval(), y.b):
            # a range
            l, k = self.lin(x)
            c = signed(y.cval(), y.b) - (pred == 'ult')
            n = {v: -q for v, q in l.items()}
            return self.among([[Con(l, k), Con(n, c - k)]], [[Con(n, -k, True)], [Con(l, k - c, True)]], orig)
        if not flt and pred in ('ult', 'ule', 'ugt', 'uge'):
            z = P({}, x.b)
            nx = self.truth(P.atom(('cmp', 'slt', x, z), 1))
            ny = self.truth(P.atom(('cmp', 'slt', y, z), 1))
            if nx != ny:
                return (ny if pred[1] == 'l' else nx)
            pred = 's' + pred[1:]
        q = pred if pred in ('eq', 'ne') else pred[1:]
        (lx, kx), (ly, ky) = self.lin(x), self.lin(y)
        m = dict(lx)
        for v, c in ly.items():
            m[v] = m.get(v, 0) - c
        m = {v: c for v, c in m.items() if c}
        k = kx - ky
        n = {v: -c for v, c in m.items()}
        lt, ge, gt, le = Con(n, -k, True), Con(m, k), Con(m, k, True), Con(n, -k)
        yes, no = {'lt': ([[lt]], [[ge]]), 'le': ([[le]], [[gt]]), 'gt': ([[gt]], [[le]]), 'ge': ([[ge]], [[lt]]),
                   'eq': ([[le, ge]], [[lt], [gt]]), 'ne': ([[lt], [gt]], [[le, ge]])}[q]
        return self.among(yes, no, orig)

    def among(self, yes, no, orig):
        """True or False when one of the disjunctions is empty."""
        if not any(self.feasible(c) for c in no):
            return True
        if not any(self.feasible(c) for c in yes):
            return False
        raise Split([(c + self.side, None) for c in yes + no], (yes, no), orig)

    def feasible(self, extra):
        """Whether the constraints, which are feasible by construction, remain so with these ones."""
        base = self.cons + self.side + self.products()
        return solve(component(base, extra) if extra else base, self.isint)

    def products(self):
        """(a - la)(b - lb) >= 0 for the products of two variables with known lower bounds."""
        lo = {}
        allc = self.cons + self.side
        for c in allc:
            if len(c.m) == 1:
                c = tighten(c, self.isint)
                (v, x), = c.m.items()
                if x > 0 and len(v) == 1:
                    b = Fraction(-c.k) / x
                    lo[v[0]] = max(lo.get(v[0], b), b)
        out = []
        for v in {v for c in allc for v in c.m if len(v) == 2}:
            a, b = v
            if a in lo and b in lo:
                m = {v: 1}
                m[(a,)] = m.get((a,), 0) - lo[b]
                m[(b,)] = m.get((b,), 0) - lo[a]
                out.append(Con(m, lo[a] * lo[b]))
        return out

    # --- control
    def edge(self, p, b):
        t = self.fn.term(p)
        if t['op'] == 'br':
            if len(t['ops']) == 1:
                return True
            tg = [t['ops'][2][1], t['ops'][1][1]]
            if tg[0] == tg[1]:
                return True
            return (tg[0] if self.truth(self.fn.key(t['ops'][0])) else tg[1]) == b
        if t['op'] == 'switch':
            v = self.fn.key(t['ops'][0])
            for cv, d in t['cases']:
                if self.truth(P.atom(('cmp', 'eq', v, P.const(int(cv[1]), v.b)), 1)):
                    return d == b
            return t['default'] == b
        if t['op'] == 'invoke':
            return t['normal'] == b or t.get('unwind') == b
        raise Unknown('terminator ' + t['op'])

    def reach(self, b):
        """Over-approximation: a loop header is reached when the loop is entered."""
        if b in self.rmemo:
            return self.rmemo[b]
        fn = self.fn
        if b == fn.entry:
            r = True
        else:
            self.rmemo[b] = False
            ps = fn.preds(b)
            if b in fn.loops:
                ps = [p for p in ps if not fn.dominates(b, p)]
            r = any(self.reach(p) and self.edge(p, b) for p in ps)
        if r:
            for i in fn.blocks[b]['ins']:
                if 'callee' in i and ir.callee(i) in ('llvm.assume', 'litl_assume'):
                    try:
                        if not self.truth(fn.key(i['ops'][0])):
                            r = False
                    except Unknown:
                        pass
        self.rmemo[b] = r
        return r


def premises(fn, block):
    """The assumptions made before the block, as far as each of them is one conjunction."""
    cons, truths = [], {}
    for b in fn.blocks:
        if not fn.dominates(b, block):
            continue
        for i in fn.blocks[b]['ins']:
            if 'callee' in i and ir.callee(i) in ('llvm.assume', 'litl_assume'):
                S = State(fn, list(cons), {}, dict(truths))
                try:
                    p = fn.key(i['ops'][0])
                    if p in truths or p.isconst():
                        continue
                    a = p.theatom()
                    neg = False
                    while a is not None and a[0] == 'not':
                        neg, a = not neg, a[1].theatom()
                    if a is None or a[0] != 'cmp' or a[1] in ('true', 'false', 'ord', 'uno'):
                        continue
                    S.compare(a[1], a[2], a[3])
                except Split as e:
                    if len(e.args) > 2 and e.args[2] == (a[1], a[2], a[3]):  # not a split on an operand
                        yes = e.args[1][neg]
                        if len(yes) == 1:
                            cons = cons + yes[0] + S.side
                            truths[p] = True
                except (Unknown, Big):
                    pass
    return cons, {}, truths


def decide(fn, block, differ=None, cap=3000, seconds=20):
    """(witness or None, complete, number of polyhedra)."""
    todo, n = [premises(fn, block)], 0
    t0 = time.time()
    failed = None
    tried = 0
    while todo:
        cons, bools, truths = todo.pop()
        n += 1
        if n + len(todo) > cap or time.time() - t0 > seconds:
            return None, False, n
        S = State(fn, cons, bools, dict(truths))
        try:
            if n > 1 and not S.feasible([]):
                continue
            if not S.reach(block):
                continue
            if differ is not None:
                x, y = S.res(differ[0]), S.res(differ[1])
                d = P.sub(x, y)
                if not d.m:
                    continue
                l, k = S.lin(d)
                extra = []
                if not l:
                    if not k:
                        continue
                    bad = [[]]
                else:
                    bad = [[Con({v: -c for v, c in l.items()}, -k, True)], [Con(l, k, True)]]
                bad = [c for c in bad if S.feasible(c)]
                if not bad:
                    continue
            else:
                bad = [[]]
        except Split as e:
            # keep what is already known in the branches
            for c, bl in reversed(e.args[0]):
                b2 = dict(bools)
                if bl is not None:
                    b2[bl[0]] = bl[1]
                todo.append((cons + c, b2, {q: v for q, v in S.truths.items()}))
            continue
        except Big:
            return None, False, n
        except Unknown as e:  # other polyhedra may still hold a witness
            failed = e
            continue
        failed = failed or True
        for extra in bad:
            tried += 1
            if tried > 12:
                break
            w = concrete(fn, block, S, extra, differ)
            if w is not None:
                return w, False, n
        if tried > 12:
            return None, False, n
    if isinstance(failed, Unknown):
        raise failed
    return None, failed is None, n


def concrete(fn, block, S, extra, differ):
    """A point of the polyhedron, if the exact evaluation of the root confirms it."""
    import random
    try:
        base = S.cons + S.side + S.products() + extra
        pt = solve(base, S.isint, model=True)
    except Big:
        return None
    if not isinstance(pt, dict):
        return None
    rnd = random.Random(1)
    for t in range(6):
        free = {}

        def pick(a, ty):
            if (a,) in pt:
                v = pt[(a,)]
                return int(v) if ty.startswith('i') or ty == 'ptr' else Fraction(v)
            if a in S.bools:
                return int(S.bools[a])
            if ty == 'ptr':
                return free.setdefault(a, 0x100000 * (len(free) + 1))
            if ty in ('double', 'float', 'x86_fp80'):
                return rnd.choice(ir.FLOATS)
            return signed(rnd.choice(ir.INTS), int(ty[1:])) if ty != 'i1' else rnd.choice((0, 1))
        V = ir.Valuation(fn, pick)
        try:
            if V.reach(block) and (differ is None or not ir.same(V.ev(differ[0]), V.ev(differ[1]))):
                return {ir.fmt(a): (str(v) if isinstance(v, Fraction) else v) for a, v in V.vals.items() if a[0] in ('arg', 'load') and not isinstance(v, bool)}
        except (Unknown, OverflowError, ValueError):
            pass
    return None
