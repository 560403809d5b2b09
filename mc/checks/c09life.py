"""The life of generated solvers outside Python: create, solve, reset and free cycles under glibc's heap accounting, and the dependence of every result on the content of fresh heap and stack memory.
Run as its own process by C09: c09life.py BUILD_VARIANT CASES.json; prints one JSON line per case."""
import sys, os, json, ctypes, gc, contextlib, io, warnings, pickle, numpy as np
import solverlib, ocpspec
libc = ctypes.CDLL(None)


class Info(ctypes.Structure): _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


libc.mallinfo2.restype = Info
used = lambda: (lambda i: i.uordblks + i.hblkhd)(libc.mallinfo2())


def cycles(lib, nm, kind, ops, n=6):
    """bytes in use after each of n cycles of create, operations, free"""
    P = ctypes.c_void_p
    pre = nm + ('_acados_sim_' if kind == 'sim' else '_acados_')
    cap_c = getattr(lib, nm + ('_acados_sim_solver_create_capsule' if kind == 'sim' else '_acados_create_capsule')); cap_c.restype = P
    cap_f = getattr(lib, nm + ('_acados_sim_solver_free_capsule' if kind == 'sim' else '_acados_free_capsule')); cap_f.argtypes = [P]
    create, free, solve = [getattr(lib, pre + k) for k in ('create', 'free', 'solve')]
    for f in (create, free, solve): f.argtypes = [P]
    reset = getattr(lib, pre + 'reset', None); cond = getattr(lib, pre + 'update_qp_solver_cond_N', None)
    upd = getattr(lib, pre + 'custom_update', None)
    if upd is not None: upd.argtypes = [P, P, ctypes.c_int]
    if cond is not None: cond.argtypes = [P, ctypes.c_int]
    if reset is not None: reset.argtypes = [P] + [ctypes.c_int] * 4
    out = []
    for _ in range(n):
        c = cap_c(); assert create(c) == 0
        for o in ops:
            if o == 's': solve(c)
            elif o == 'z': upd(c, None, 0)
            elif o == 'c': cond(c, 1)
            elif o == 'C': cond(c, 2)
            elif reset is not None: reset(c, *[int(o == 'R')] * 4)
        assert free(c) == 0; cap_f(c); out.append(used())
    return out


def stackfill(so):
    f = ctypes.CDLL(so).mc_stackfill; f.argtypes = [ctypes.c_int]; return f


FIELDS = ('A', 'B', 'b', 'Q', 'R', 'S', 'q', 'r', 'C', 'D', 'lg', 'ug', 'lbx', 'ubx', 'lbu', 'ubu', 'zl', 'zu', 'Zl', 'Zu', 'idxs', 'idxb', 'lls', 'lus', 'lg_mask', 'ug_mask', 'lbu_mask', 'ubu_mask', 'lls_mask', 'lus_mask')


def results(P, o, nm, guess):
    """everything observable of: create, solve from the default and from a given guess, sensitivities of the QP"""
    from acados_template import AcadosOcpSolver
    s = AcadosOcpSolver(o, json_file=o.code_gen_options.json_file, generate=False, build=False, verbose=False); N = o.solver_options.N_horizon
    R = {}
    for r in range(2):
        FILL()
        if r:
            for k in range(N + 1):
                s.set(k, 'x', guess(s.get(k, 'x'), k))
                if k < N: s.set(k, 'u', guess(s.get(k, 'u'), k + 7))
        if ZORO: FILL(); s.custom_update(np.zeros(0))
        FILL(); R['status', r] = s.solve(); T = solverlib.traj(s, N)
        for f, L in T.items():
            for k, v in enumerate(L): R[f, k, r] = np.array(v)
        FILL(); R['cost', r] = s.get_cost(); FILL(); R['res', r] = np.array(s.get_residuals(recompute=True)); R['iter', r] = s.get_stats('nlp_iter')
        for f in ('statistics', 'residuals', 'qp_iter', 'alpha'):
            try: R['stat:' + f, r] = np.array(s.get_stats(f), float)
            except Exception: pass
        for f in FIELDS:
            for k in range(N + 1):
                if k == N and f in 'ABb': continue
                try: R['qp:' + f, k, r] = np.array(s.get_from_qp_in(k, f), float)
                except Exception: pass
    return R


def FILL(): pass


ZORO = False


def child(fn):
    r, w = os.pipe(); pid = os.fork()
    if not pid:
        try:
            os.close(r); b = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f: f.write(b)
            os._exit(0)
        except BaseException as e:
            sys.stderr.write(f'{type(e).__name__}: {e}\n'); os._exit(3)
    os.close(w)
    with os.fdopen(r, 'rb') as f: b = f.read()
    st = os.waitpid(pid, 0)[1]
    return pickle.loads(b) if st == 0 else ('crash', st)


def one(case, so, emit):
    global FILL, ZORO
    import C04; ZORO = case.get('m') == 'C16'
    nm = solverlib.name('l')
    if case['k'] == 'sim':
        import C07; from acados_template import AcadosSimSolver
        P = ocpspec.Problem(ocpspec.spec(**case['c'])); nm, libp = sim_build(P, nm, case)
        lib = ctypes.CDLL(libp); kind = 'sim'; cn = os.path.basename(libp)[len('libacados_sim_solver_'):-3]
    elif case['k'] == 'grab':
        o = grab(case['m'], case['c'])
        if o is None: return emit(dict(n=0, bad=[]))
        P = None
    else:
        P = C04.expand(case['c']); o = P.ocp(nm); s = solverlib.solver(o, nm, save_p_global=bool(P.s.get('npg')))
    if case['k'] != 'sim':
        kind = 'ocp'; libp = [x for x in os.listdir(o.code_gen_options.code_export_directory) if x.startswith('libacados_ocp')][0]; lib = ctypes.CDLL(os.path.join(o.code_gen_options.code_export_directory, libp)); cn = libp[len('libacados_ocp_solver_'):-3]
    gc.collect(); gc.disable(); n = 0; bad = []
    for ops in ('', 's', 'ss', 'sRs', 'srs', 'scs', 'csCs', 'szsz'):
        if kind == 'sim' and len(ops) > 2 or 'c' in ops and (not hasattr(lib, cn + '_acados_update_qp_solver_cond_N') or o.solver_options.qp_solver.startswith('FULL') or o.solver_options.N_horizon < 2): continue
        if 'z' in ops and case.get('m') != 'C16': continue
        m = child(lambda: cycles(lib, cn, kind, ops)); n += 6
        if m[0] == 'crash': bad.append((f'life-crash', f'create, {ops or "nothing"}, free: the process ended with wait status {m[1]}')); continue
        d = [b - a for a, b in zip(m[1:], m[2:])]
        if all(x > 0 for x in d):
            m = child(lambda: cycles(lib, cn, kind, ops, 30)); d = [b - a for a, b in zip(m[8:], m[9:])] if m[0] != 'crash' else [1]
        if all(x > 0 for x in d): bad.append(('leak', f'each cycle of create, "{ops}", free leaves memory allocated: in use after the cycles {m}'))
    if kind == 'ocp':
        fill = stackfill(so); ref = None
        guess = lambda v, k: np.asarray(v) + 0.05 * np.cos(np.arange(np.size(v)) + k).reshape(np.shape(v))
        for b in (0x00, 0xff, 0x55):
            def go(b=b):
                global FILL
                libc.mallopt(-6, b ^ 0xff if b else 0); FILL = lambda: fill(b); return results(P, o, nm, guess)     # fresh heap memory has content b
            R = child(go); n += 1
            if not isinstance(R, dict): bad.append(('undef-crash', f'with fresh memory filled with {b:#x} the process ended with wait status {R[1]}')); continue
            if ref is None: ref = R; continue
            for key in ref:
                x, y = np.asarray(ref[key], float), np.asarray(R.get(key, np.nan), float)
                if x.shape != y.shape or x.tobytes() != y.tobytes(): bad.append(('undef', f'the result {key} depends on the content of memory that was never written (fresh memory filled with {b:#x}): {x.tolist()} vs {y.tolist()}')); break
    gc.enable(); emit(dict(n=n, bad=bad))


class Stop(BaseException): pass


def grab(m, case):
    """the first solver another check builds for this case (of a multi-phase problem for C15)"""
    import importlib, mclib; M = importlib.import_module(m); orig = solverlib.solver
    from acados_template import AcadosMultiphaseOcp
    def patched(o, *a, **k):
        s = orig(o, *a, **k)
        if m == 'C15' and not isinstance(o, AcadosMultiphaseOcp): return s
        raise Stop(o)
    solverlib.solver = patched
    class Ctx:
        def __getattr__(self, n): return lambda *a, **k: a[0]() if a and callable(a[0]) else None
    try: M.run(case, Ctx())
    except Stop as e: return e.args[0]
    except Exception: return None
    finally: solverlib.solver = orig


def sim_build(P, nm, case):
    from acados_template import AcadosSim, AcadosSimSolver
    o = P.ocp(nm); s = AcadosSim(); s.model = o.model; s.parameter_values = np.ones(P.s['np']); so = s.solver_options
    so.T = 0.1; so.integrator_type = o.solver_options.integrator_type; so.num_stages = case['stages']; so.num_steps = case['steps']
    so.sens_forw = so.sens_adj = True; so.sens_hess = case['hess']; so.sens_algebraic = so.output_z = so.integrator_type == 'IRK'
    d = os.path.join(os.getcwd(), nm + '_d'); os.makedirs(d, exist_ok=True)
    s.code_gen_options.code_export_directory = os.path.join(d, 'c'); s.code_gen_options.json_file = os.path.join(d, 's.json')
    AcadosSimSolver(s, verbose=False)
    f = [x for x in os.listdir(os.path.join(d, 'c')) if x.startswith('libacados_sim')][0]
    return o.model.name, os.path.join(d, 'c', f)


if __name__ == '__main__':
    warnings.simplefilter('ignore'); out = os.fdopen(os.dup(1), 'w'); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    solverlib.setup()
    for c in json.loads(sys.argv[2]):
        one(c, sys.argv[1], lambda d: (out.write(json.dumps(d) + '\n'), out.flush()))
