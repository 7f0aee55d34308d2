from lib import core


def released(rep, mod):
    """Whatever reaches free() is a value returned by malloc(), each at most once."""
    for fn in mod.fns.values():
        seen = []
        for k, c in enumerate(fn.calls('free')):
            inst = f'{fn.name}/free#{k}'
            p = fn.key(c['ops'][0])
            a = p.theatom()
            if a is not None and a[0] == 'call' and a[1] in ('malloc', 'aligned_alloc'):
                rep.held('released-is-allocated', inst)
            elif a is not None and a[0] == 'fun' and a[1].startswith('llvm.ptrmask'):
                rep.violation('released-is-allocated', inst, core.where_of(fn, c), 'releases the aligned address instead of the allocated one')
            else:
                rep.undecided('released-is-allocated', inst, core.short(p))


def run(rep, tier, work):
    rep.expl = ('Typestate of the memory of aligned buffers along construction, copy, move, assignment (from owners and views, to owners and views, to self), release and reset: '
                'the allocator is a ghost automaton (allocated, released once) propagated by the dataflow passes; obligations: released exactly once, transferred by moves, duplicated by copies. '
                'With the real allocator and symbolic sizes, every release must take an address returned by the allocator.')
    rep.assumptions = ['allocation succeeds']
    core.harnesses(rep, work, [{'file': 'own', 'min': 80}, {'file': 'align', 'only': 'h_free_', 'rule': released, 'min': 5}])
