import os, re
from lib import core, src

# Leaves by which a result could depend on something else than the arguments
CLOCKS = r'::(now|time|clock|gettimeofday|clock_gettime|times|localtime|gmtime)$|^(time|clock|gettimeofday|clock_gettime)$'
ENTROPY = r'random_device|^(std::)?(rand|srand|random|drand48|lrand48|getenv|secure_getenv|setenv|strtok|setlocale|tmpnam|getpid|system)$'
PRINT = r'^(std::)?(printf|puts|putchar|perror|vprintf|exit|abort|quick_exit|_Exit|signal|longjmp|set_terminate)$'
CLOCKED = {'LitlContainer/LitlContainer/Random.h', 'LitlRun/LitlRun/Chronometer.h', 'LitlRun/LitlRun/StepperPipeline.h'}


def run(rep, tier, work):
    rep.expl = 'Every variable with static or thread storage, mutable member, cast which drops const, and call to a leaf (function out of the library) in the type-checked tree of all headers (with instantiations) and library sources is judged.'
    rep.assumptions = ['Functions of the standard library and of the dependencies have no hidden state but those named by the rule.']
    files = [src.everything(work), os.path.join(core.VERIF, 'harness', 'all.cpp')] + src.sources()
    t, errors = src.tree(work, files)
    for e in errors[:3]:
        rep.undecided('parse', os.path.basename(e.split(':')[0]), e[-300:])
    for v in t['variables']:
        inst = f"{v['file']}/{v['function'] + '::' if v['function'] else ''}{v['name']}".replace(' ', '')
        where = f"{v['file']}:{v['line']}"
        if v['tls'] or (not v['const'] and not v['stateless']):
            rep.violation('no-shared-variable', inst, where, 'variable which outlives the calls and can be modified')
        elif v['mutable']:
            rep.violation('no-shared-variable', inst, where, 'constant which outlives the calls and has mutable members')
        elif v['local'] and v['varying']:
            rep.violation('no-first-call-value', inst, where, 'static constant which keeps a value computed from the arguments of the first call')
        else:
            rep.held('no-shared-variable', inst)
    for m in t['mutables']:
        rep.violation('no-mutable-member', f"{m['file']}/{m['name']}".replace(' ', ''), f"{m['file']}:{m['line']}", 'member modified by operations on constant objects')
    for c in t['classes']:
        rep.held('no-mutable-member', c.replace(' ', ''))
    for c in t['casts']:
        inst = f"{c['file']}/{c['function']}/{c['base']}".replace(' ', '')
        if (c['const_method'] and c['base'] == 'this') or c['const_param']:
            rep.violation('no-const-dropped', inst, f"{c['file']}:{c['line']}", 'const is cast away from the object of a constant method or from a constant argument')
        else:
            rep.held('no-const-dropped', inst)
    for c in t['calls']:
        inst = f"{c['file']}/{c['function']}/{c['callee']}".replace(' ', '')
        where = f"{c['file']}:{c['line']}"
        if re.search(CLOCKS, c['callee']) and c['file'] not in CLOCKED:
            rep.violation('no-clock', inst, where, f"reads the clock ({c['callee']})")
        elif re.search(ENTROPY, c['callee']):
            rep.violation('no-environment', inst, where, f"depends on or modifies the state of the process ({c['callee']})")
        elif re.search(PRINT, c['callee']):
            rep.violation('no-side-output', inst, where, f"prints to the standard streams or ends the process ({c['callee']})")
        else:
            rep.held('leaf', inst)
    for e in t['externals']:
        inst = f"{e['file']}/{e['function']}/{e['variable']}".replace(' ', '')
        where = f"{e['file']}:{e['line']}"
        rep.violation('no-side-output' if re.search('c(out|err|log|in)$', e['variable']) else 'no-shared-variable', inst, where, f"uses the global {e['variable']}")
    rep.functions |= {f.replace(' ', '') for f in t['functions']}
    rep.units |= {os.path.basename(f) for f in files}
    if not rep.viol:
        rep.expect(1000)
