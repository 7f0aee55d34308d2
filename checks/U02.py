from fractions import Fraction
from lib import core, ir


def defs(fn):
    return {i['id']: i for i in fn.all()}


def nonneg(fn, D, o, depth=0):
    """Sign analysis: True when the value cannot be negative, whatever the rounding."""
    if o[0] == 'f':
        try:
            return Fraction(o[1]) >= 0
        except ValueError:
            return False
    if o[0] != 'v' or depth > 40 or o[1] not in D:
        return False
    i = D[o[1]]
    rec = lambda k: nonneg(fn, D, i['ops'][k], depth + 1)
    op = i['op']
    if op in ('fadd', 'fdiv'):
        return rec(0) and rec(1)
    if op == 'fmul':
        return i['ops'][0] == i['ops'][1] or (rec(0) and rec(1))
    if op == 'uitofp':
        return True
    if op in ('fpext', 'fptrunc', 'freeze'):
        return rec(0)
    if op == 'select':
        return rec(1) and rec(2)
    if op == 'phi':
        return all(nonneg(fn, D, v[0] if isinstance(v[0], (list, tuple)) else v, depth + 1) for v in i['ops'])
    if op == 'call':
        c = ir.callee(i)
        if 'fmuladd' in c or '.fma.' in c:
            return (i['ops'][0] == i['ops'][1] or (rec(0) and rec(1))) and rec(2)
        if 'fabs' in c:
            return True
        if 'maxnum' in c:
            return rec(0) or rec(1)
    return False


def cancels(fn, D, o):
    """The value is a difference of two quantities which may be close to each other."""
    while o[0] == 'v' and o[1] in D:
        i = D[o[1]]
        if i['op'] in ('fmul', 'fdiv') and i['ops'][1][0] == 'f':
            o = i['ops'][0]
            continue
        if i['op'] == 'fsub':
            return True
        neg = lambda x: x[0] == 'v' and x[1] in D and D[x[1]]['op'] == 'fneg'
        if i['op'] == 'fadd' or (i['op'] == 'call' and 'fmuladd' in ir.callee(i)):
            return any(neg(x) for x in i['ops'])
        return False
    return False


def signs(rep, mod):
    for fn in mod.fns.values():
        D = None
        for k, c in enumerate(fn.calls('litl_sign')):
            D = D or defs(fn)
            inst = f'{fn.name}/square root #{k}'
            o = c['ops'][0]
            if nonneg(fn, D, o):
                rep.held('sign', inst)
            elif cancels(fn, D, o):
                rep.violation('sign', inst, core.nearest_repo_line(fn, c), 'square root of a difference which rounding may make negative')
            else:
                rep.undecided('sign', inst, core.short(fn.key(o)))


def run(rep, tier, work):
    rep.expl = ('Chronometers over a ghost clock whose readings are unknown: increments, elapsed time, statistics and state along starts, stops, pauses, resets and copies, in four units; '
                'sign analysis of the argument of the square root.')
    rep.assumptions = ['The steady clock is replaced by a ghost clock whose readings are unknown integers of nanoseconds.', 'Allocation succeeds.']
    core.harnesses(rep, work, [{'file': 'chrono', 'opts': {'walk': 8}, 'rule': signs, 'min': 110}])
