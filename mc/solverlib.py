"""Builds and drives real acados solvers (generated C code, compiled, loaded through the ctypes interface)."""
import os, re, shlex, subprocess, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import acbuild, tera

_sys = os.system
OBJFLAGS = []


def _system(cmd):
    """renders Tera templates in this process instead of starting an interpreter per template"""
    try:
        w = shlex.split(cmd) if isinstance(cmd, str) else []
        if w and w[0] == os.environ.get('TERA_PATH') and len(w) == 5: return tera.main(w)
    except Exception as e:
        sys.stderr.write(f'tera: {type(e).__name__}: {e}\n'); return 1
    return _sys(cmd)


def setup(variant='plain', opt='-O0', unity=True):
    pre = acbuild.build(variant)
    os.environ['ACADOS_SOURCE_DIR'] = pre; os.environ['ACADOS_EXT_FUN_COMPILE_FLAGS'] = opt
    os.environ['LD_LIBRARY_PATH'] = pre + '/lib'
    os.system = _system
    if unity:
        subprocess.call = _fastmake
        import acados_template.utils as U
        if getattr(U, 'call', None) is _call: U.call = _fastmake
    warnings.simplefilter('ignore')
    return pre


_call = subprocess.call


def _fastmake(cmd, *a, **kw):
    """compiles the C sources a generated Makefile lists in one translation unit (same sources, same flags, one compiler start);
    anything unusual falls back to the real make"""
    try:
        if isinstance(cmd, (list, tuple)) and len(cmd) == 2 and cmd[0] == 'make':
            if cmd[1] == 'clean_ocp_shared_lib': return 0
            kind = {'ocp_shared_lib': 'OCP', 'sim_shared_lib': 'SIM'}.get(cmd[1])
            if kind and os.path.exists('Makefile'):
                mk = open('Makefile').read(); var = {}
                for m in re.finditer(r'^(\w+)\s*(\+?:?=)[ \t]*(.*?)\s*$', mk, re.M):
                    v = m[3].split('#')[0]; var[m[1]] = (var.get(m[1], '') + ' ' + v) if m[2] == '+=' else v
                sub = lambda t: re.sub(r'\$\((\w+)\)', lambda q: sub(var.get(q[1], '')), t)
                src = sub(var.get('MODEL_SRC', '')).split() + sub(var.get(kind + '_SRC', '')).split()
                out = f"lib{os.path.splitext(sub(var['SIM_SRC']).split()[0])[0]}.so" if kind == 'SIM' else sub(var['LIBACADOS_OCP_SOLVER']).strip()
                if src and all(x.endswith('.c') and os.path.exists(x) for x in src):
                    if os.path.exists(out): os.remove(out)
                    gen = [x for x in src if not os.path.basename(x).startswith('acados_')]
                    with open('_unity.c', 'w') as f:
                        for x in gen: f.write(f'#include "{x}"\n')
                    if OBJFLAGS:     # instrumentation that must not reach the link step
                        os.makedirs('_obj', exist_ok=True)
                        cc = lambda x, i: _call(['gcc', '-w', '-c', *OBJFLAGS] + sub(var.get('CPPFLAGS', '')).split() + sub(var.get('CFLAGS', '')).split() + [x, '-o', f'_obj/{i}.o'], stderr=subprocess.DEVNULL)
                        L = ['_unity.c'] if not cc('_unity.c', 0) else gen
                        L += [x for x in src if x not in gen]
                        for i, x in enumerate(L):
                            if (i or L[0] != '_unity.c') and cc(x, i): return 1
                        return _call(['gcc', '-shared'] + [f'_obj/{i}.o' for i in range(len(L))] + ['-o', out] + sub(var.get('LDFLAGS', '')).split() + sub(var.get('LDLIBS', '')).split())
                    r = _call(['gcc', '-w', '-shared'] + sub(var.get('CPPFLAGS', '')).split() + sub(var.get('CFLAGS', '')).split() + ['_unity.c'] + [x for x in src if x not in gen] + ['-o', out] +
                              sub(var.get('LDFLAGS', '')).split() + sub(var.get('LDLIBS', '')).split(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if r == 0: return 0
                    if os.environ.get('MC_UNITY_DEBUG'): sys.stderr.write('unity build failed, using make\n')
    except Exception as e:
        if os.environ.get('MC_UNITY_DEBUG'): raise
    return _call(cmd, *a, **kw)


_cnt = [0]


def name(base='s'):
    _cnt[0] += 1; return f'{base}{os.getpid()}_{_cnt[0]}'


def solver(ocp, nm=None, **kw):
    from acados_template import AcadosOcpSolver
    nm = nm or name()
    d = os.path.join(os.getcwd(), nm + '_d'); os.makedirs(d, exist_ok=True)
    ocp.code_gen_options.code_export_directory = os.path.join(d, 'c'); ocp.code_gen_options.json_file = os.path.join(d, 'o.json')
    return AcadosOcpSolver(ocp, verbose=False, **kw)


def traj(sol, N):
    """everything that can be read back about the iterate, as lists"""
    g = lambda k, f: sol.get(k, f)
    return dict(x=[g(k, 'x') for k in range(N + 1)], u=[g(k, 'u') for k in range(N)], z=[g(k, 'z') for k in range(N)],
                sl=[g(k, 'sl') for k in range(N + 1)], su=[g(k, 'su') for k in range(N + 1)], pi=[g(k, 'pi') for k in range(N)],
                lam=[g(k, 'lam') for k in range(N + 1)])
