"""C09: memory safety.  The complete enumerations of formulations, field accesses and operation histories of the other checks are executed again on a build of the library and of the generated code instrumented with
AddressSanitizer and UndefinedBehaviorSanitizer, with every array of a module in an allocation of its own (_USE_VALGRIND_ of mem.c), which monitor every memory access and arithmetic operation of every execution (heap, stack, globals; use after free; null and misuse; integer, bounds and conversion
errors).  (hist) the histories of C03, C05, C14: solves, resets, updates of options, horizons and data, preparation and feedback; (field) all fields, stages, layouts and invalid accesses of C04; (form) formulations of C15, C16;
(sim) integrator configurations and call sequences of C07, C26; (qp) QP structures, solvers and histories of C06; (sens) sensitivities of C08; (io) C24 the exchange of whole QPs with the solver;
(life) on the uninstrumented build, for every formulation of C04, formulations of C08, C15 and C16 and a grid of integrators: cycles of creating, solving, resetting and freeing must leave the number of allocated bytes unchanged, and every result
must be bitwise independent of the content that fresh heap memory and the unused stack have (filled with 0x00, 0x55, 0xff).
Property violations of those modules are ignored here, only reports of the sanitizers and crashes count."""
import sys, os, json, ctypes, importlib, subprocess, itertools, warnings
PID = 'C09'
ASSUME = ['BLASFEO, HPIPM and OSQP are not instrumented (their accesses through interposed memory functions are)', 'in the library as shipped one allocation holds all arrays of a module; that the computed sizes suffice is judged there by the assertions of the assign functions (life)', 'a leak shows in every one of four consecutive cycles; undefined values are seen where they change a result']
if __name__ == '__main__' and not os.environ.get('MC_ASAN'):
    lib = lambda n: subprocess.check_output(['gcc', f'-print-file-name={n}'], text=True).strip()
    b = os.path.join(os.environ.get('MC_BUILD') or os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../build'), 'nodeep'); os.makedirs(b, exist_ok=True); b = os.path.abspath(b)
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', b + '/nodeep.so', os.path.join(os.path.dirname(os.path.abspath(__file__)), '../c/nodeep.c')])
    os.environ.update(MC_ASAN='1', LD_PRELOAD=b + '/nodeep.so:' + lib('libasan.so') + ':' + lib('libubsan.so'), ASAN_OPTIONS='detect_leaks=0:verify_asan_link_order=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:use_sigaltstack=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1')
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.pop('LD_PRELOAD', None)
import mclib, solverlib, acbuild
_setup = solverlib.setup; FL = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,shift-base', '-g1', '-fno-omit-frame-pointer']


def asan(*a, **k): solverlib.OBJFLAGS[:] = FL; return _setup('asanv')


solverlib.setup = asan
MODS = [m for m in os.environ.get('MC_C09', 'C03 C04 C05 C06 C07 C08 C14 C15 C16 C26 C24').split() if m != 'NONE']


def dev(c): return sum(v is not None for v in (c.get('c') or {}).values())


# quick: the structurally distinct part of each enumeration (the default and every single deviation from it), thorough: everything
QUICK = {'C03': lambda c, i: c['kind'] in ('hist', 'reset'), 'C04': lambda c, i: c['kind'] != 'store' or not c.get('pairs'), 'C05': lambda c, i: c['kind'] == 'hist' and i % 2 == 0, 'C06': lambda c, i: c['kind'] == 'hist' or c['kind'] == 'nlp' and dev(c) <= 1 and i % 8 == 0,
         'C07': lambda c, i: c['kind'] in ('seq', 'newton', 'ocp') or c['kind'] == 'grid' and c['nx'] == 2 and c['np'] and c['steps'] == 2 and c['sp'] and i % 4 == 0, 'C08': lambda c, i: c['kind'] in ('order', 'flags') or dev(c) <= 1 and i % 2 == 0, 'C14': lambda c, i: c['kind'] in ('walk', 'numreset'),
         'C15': lambda c, i: c['kind'] == 'split', 'C16': lambda c, i: c['kind'] == 'zoro' and dev(c) <= 1, 'C24': lambda c, i: c['kind'] in ('acados', 'io', 'last') and i % 8 == 0, 'C26': lambda c, i: c['kind'] == 'sim' and i % 2 == 0}


def lives(tier):
    C04 = importlib.import_module('C04'); seen = []
    for c in C04.cases(tier):
        if c['kind'] == 'store' and 'c' in c and c['c'] not in seen: seen.append(c['c']); yield dict(k='ocp', c=c['c'])
    for m, pick in (('C08', lambda c, i: c['kind'] == 'sens' and dev(c) <= 2), ('C15', lambda c, i: c['kind'] == 'mix' and i % 10 == 0), ('C16', lambda c, i: c['kind'] == 'zoro' and dev(c) <= 1)):
        for i, c in enumerate(importlib.import_module(m).cases('quick')):
            if pick(c, i) or tier != 'quick' and c['kind'] in ('sens', 'mix', 'zoro'): yield dict(k='grab', m=m, c=c)
    for integ, nx, nz, np_, st, sp in itertools.product(('ERK', 'IRK'), (1, 2, 3), (0, 1, 2), (0, 2), (1, 2, 4), (1, 3)):
        if nz and integ != 'IRK': continue
        yield dict(k='sim', c=dict(integ=integ, nx=nx, nz=nz, np=np_), stages=st, steps=sp, hess=st == 2)


def cases(tier):
    L = list(lives(tier)); L = [x for i, x in enumerate(L) if x['k'] != 'sim' or tier != 'quick' or i % 6 == 0]
    for i in range(0, len(L), 6): yield dict(m='life', cs=L[i:i + 6])
    for m in MODS:
        for i, c in enumerate(importlib.import_module(m).cases('quick')):
            if tier != 'quick' or m not in QUICK or QUICK[m](c, i): yield dict(m=m, c=c)


def so_path(): return os.path.join(os.environ.get('MC_BUILD') or os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../build'), 'nodeep', 'stackfill.so')


def setup(tier):
    asan(); acbuild.build('plain')
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so_path(), os.path.join(os.path.dirname(os.path.abspath(__file__)), '../c/stackfill.c')])


def life(case, ctx):
    env = {k: v for k, v in os.environ.items() if k not in ('MC_ASAN', 'LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS')}; env['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0'
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c09life.py'), so_path(), json.dumps(case['cs'])], capture_output=True, text=True, env=env)
    L = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
    for c, d in zip(case['cs'], L):
        ctx.trans(d['n']); ctx.trace(d['n']); ctx.state(str(c))
        for k, msg in d['bad']: ctx.viol(k, f'{c}: {msg}')
    ctx.outcome('life')
    if r.returncode or len(L) != len(case['cs']): ctx.viol('life-fail', f'{case["cs"][min(len(L), len(case["cs"]) - 1)]}: {r.returncode} {r.stderr[-600:]}')


def run(case, ctx):
    if case['m'] == 'life': return life(case, ctx)
    warnings.simplefilter('ignore'); m = importlib.import_module(case['m'])
    try: m.run(case['c'], ctx)
    except (mclib.Machinery, mclib.Abort): pass
    except Exception as e:
        if os.environ.get('MC_DBG'): raise
        ctx.outcome(f'{case["m"]} raised')          # judged by that check
    if os.environ.get('MC_DBG'): print('DBG', ctx.viols, flush=True)
    ctx.viols.clear(); ctx.outcome(case['m'])


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=600, chunk=2, jobs=8))
