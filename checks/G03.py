import glob, os, re
from lib import core, src

# Dataflow diagnostics of clang which denote undefined behaviour (not style)
WARN = '''return-type return-stack-address dangling dangling-gsl dangling-field dangling-initializer-list uninitialized sometimes-uninitialized static-self-init
infinite-recursion unsequenced array-bounds array-bounds-pointer-arithmetic division-by-zero shift-count-negative shift-count-overflow shift-negative-value
integer-overflow null-dereference nonnull delete-non-abstract-non-virtual-dtor delete-abstract-non-virtual-dtor delete-incomplete sizeof-pointer-memaccess
dynamic-class-memaccess nontrivial-memcall string-plus-int call-to-pure-virtual-from-ctor-dtor format mismatched-new-delete free-nonheap-object invalid-noreturn
exceptions tautological-undefined-compare undefined-bool-conversion memset-transposed-args undefined-var-template undefined-inline undefined-internal
for-loop-analysis self-assign-field memsize-comparison'''.split()
TIDY = '''bugprone-use-after-move bugprone-dangling-handle bugprone-infinite-loop bugprone-undefined-memory-manipulation bugprone-unhandled-self-assignment
bugprone-copy-constructor-init bugprone-swapped-arguments bugprone-too-small-loop-variable bugprone-inaccurate-erase bugprone-shared-ptr-array-mismatch
bugprone-unused-raii bugprone-throw-keyword-missing bugprone-sizeof-expression bugprone-suspicious-memset-usage bugprone-move-forwarding-reference
cppcoreguidelines-slicing misc-throw-by-value-catch-by-reference misc-new-delete-overloads'''.split()


def run(rep, tier, work):
    rep.expl = 'Flow-sensitive diagnostics (missing return, use of unset, moved-from or dangling values, unsequenced modifications, infinite recursion...) and the path-sensitive checkers of the clang static analyzer, over all headers and their instantiations.'
    rep.assumptions = ['The diagnostics are those of clang 18; a construct they do not recognise is not judged.']
    every = src.everything(work)
    harness = sorted(glob.glob(os.path.join(core.VERIF, 'harness', '*.cpp')))
    hflags = ['-std=c++14', '-DNDEBUG', '-include', 'stdexcept', '-Wno-c++11-narrowing', '-ferror-limit=0', *src.INC, f'-I{core.VERIF}/harness']
    warn = ['-Wno-everything'] + [f'-W{w}' for w in WARN] + ['-Wno-unknown-warning-option']
    lib = src.sources()
    std = ['-std=c++14', *src.INC]
    jobs = [('diagnostic', f, ['clang++-18', '-fsyntax-only', *warn, *(hflags if f in harness else std), f]) for f in [every, *lib, *harness]]
    ana = ['clang++-18', '--analyze', '-w', '-Xclang', '-analyzer-output=text', '-Xclang', '-analyzer-checker=core,cplusplus,unix.Malloc,unix.MismatchedDeallocator',
           '-o', '/dev/null']
    jobs += [('analyzer', f, [*ana, *std, f]) for f in [every, *lib]]
    if tier == 'thorough':
        jobs += [('analyzer', f, [*ana, *hflags, f]) for f in harness]
    jobs += [('tidy', f, ['clang-tidy', '--checks=-*,' + ','.join(TIDY), '--header-filter=.*', '--quiet', f, '--', *std]) for f in [every, *lib]]

    def one(j):
        try:
            return j, core.sh(j[2], timeout=280)
        except core.Exhausted as e:
            return j, str(e)
    seen = set()
    for (rule, f, _), r in src.parallel(one, jobs):
        name = os.path.basename(f)
        if isinstance(r, str):
            rep.undecided(rule, name, r)
            continue
        out = r.stdout + r.stderr
        n = 0
        for file, line, msg in re.findall(r'^(\S+?):(\d+):\d+: warning: (.*)$', out, re.M):
            file = os.path.normpath(file)
            if not file.startswith(core.REPO + '/'):
                continue
            n += 1
            kind = re.findall(r'\[([\w.,+-]+)\]$', msg)
            inst = f'{core.rel(file)}/{kind[0] if kind else "?"}'
            if (inst, line) not in seen:
                seen.add((inst, line))
                rep.violation(rule, inst, f'{core.rel(file)}:{line}', msg)
        if re.search(r'^\S+:\d+:\d+: (fatal )?error:', out, re.M) and name == 'everything.cpp':
            rep.undecided(rule, name, out[-300:])
        elif not n:
            rep.held(rule, name)
        rep.units.add(name)
    if not rep.viol:
        rep.expect(60)
