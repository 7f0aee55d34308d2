from lib import core, ir


def capacity(rep, mod):
    """align-up lemma: data = (c + M) & -m lies in the requested block of S bytes for every 16-byte aligned c."""
    for fn in mod.fns.values():
        for c in fn.calls('litl_data'):
            inst = fn.name + '/capacity'
            d, need, align = fn.key(c['ops'][1]), fn.key(c['ops'][2]), fn.key(c['ops'][3]).cval()
            t = d.theatom()
            mask, off = None, 0
            base = t
            if t is not None and t[0] == 'fun' and t[1].startswith('llvm.ptrmask'):
                mask = -t[2][1].cval()
                inner = t[2][0]
                consts = inner.m.get((), 0)
                rest = ir.P.sub(inner, ir.P.const(consts, 64))
                base, off = rest.theatom(), consts
            if base is None or base[0] != 'call' or base[1] not in ('malloc', 'aligned_alloc'):
                rep.undecided('capacity', inst, f'data is {core.short(d)}')
                continue
            size = base[3][-1]
            guar = 16 if base[1] == 'malloc' else max(16, base[3][0].cval())
            slack = ir.P.sub(size, need)
            if not slack.isconst():
                rep.undecided('capacity', inst, f'slack is {core.short(slack)}')
                continue
            slack = ir.signed(slack.cval(), 64)
            if mask is None:
                offs = [0]
            elif max(mask, guar) > 1 << 20:
                rep.undecided('capacity', inst, f'data is aligned by the mask {mask:#x}')
                continue
            else:
                offs = [((x + off) & -mask) - x for x in range(0, max(mask, guar), guar)] or [0]
            if min(offs) >= 0 and max(offs) <= slack:
                rep.held('capacity', inst, f'offsets {min(offs)}..{max(offs)} of the block, {slack} spare bytes')
            else:
                rep.violation('capacity', inst, core.nearest_repo_line(fn, c), f'data may be at offset {min(offs)}..{max(offs)} of a block with {slack} spare bytes')


def run(rep, tier, work):
    rep.expl = ('Aligned buffers over six element types and eleven alignment requests, symbolic size and symbolic allocator result: alignment obligations fold by known bits; '
                'the capacity rule bounds the aligned offset against the requested size by an align-up lemma; external data is accepted or rejected by typed throws.')
    rep.assumptions = ['malloc succeeds and returns 16-byte aligned memory']
    core.harnesses(rep, work, [{'file': 'align', 'rule': capacity, 'min': 80}])
