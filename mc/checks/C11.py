"""C11: parallel operation under a controlled scheduler.  acados and the generated solvers are compiled with OpenMP and memory access instrumentation and linked to a deterministic OpenMP runtime (mc/c/mcgomp.c):
the threads of a team are real threads of which exactly one runs, and the explorer decides at which memory access or function entry the running thread is preempted and which thread goes on.  For every batch
operation, team size and batch size: a recording run finds the memory several threads touch with at least one write; then all preemptions (bound 1) at every function entry and every such access, for every order
of the threads, and all pairs of preemptions (bound 2) at conflicting accesses are executed, and every result must be bitwise the result of the same operation on solvers used alone.  (inner) the parallel loops
inside one solver, the same way, against one thread; (api) all short histories of batch calls with changing batch sizes against a list of independent solvers; (sim) integrator batches."""
import sys, os, ctypes, itertools, warnings, copy, numpy as np
import mclib, solverlib, ocpspec
import C01, C07, C08, C12
PID = 'C11'
ASSUME = ['BLASFEO and HPIPM are linked as binaries: inside their kernels a thread is not preempted (their entry and exit are scheduling points)', 'OSQP is not compared (its step size adaptation depends on measured time)', 'preemption bound 2 at conflicting accesses, 1 at every other scheduling point, teams of at most 3 threads',
          'nested parallel regions run with one thread (the OpenMP default)']
OPTS = {'fix': {}, 'm': dict(globalization='MERIT_BACKTRACKING'), 'msoc': dict(globalization='MERIT_BACKTRACKING', globalization_use_SOC=1, globalization_full_step_dual=1), 'f': dict(globalization='FUNNEL_L1PEN_LINESEARCH'),
        'fq': dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH'), 'rti': dict(nlp_solver_type='SQP_RTI'), 'full': dict(qp_solver='FULL_CONDENSING_HPIPM'), 
        'cond1': dict(qp_solver_cond_N=1), 'exact': dict(hessian_approx='EXACT', regularize_method='PROJECT'), 'scale': dict(qpscaling_scale_constraints='INF_NORM', qpscaling_scale_objective='OBJECTIVE_GERSHGORIN'),
        'lm': dict(levenberg_marquardt=0.3), 'regm': dict(hessian_approx='EXACT', regularize_method='MIRROR'), 'reuse0': dict(), 'log': dict(store_iterates=True, log_primal_step_norm=True)}
IT = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')


def cases(tier):
    q = tier == 'quick'
    for p, o in [('nls', 'fix'), ('hall', 'm'), ('softall', 'f'), ('softall', 'fq'), ('irk', 'rti'), ('phi', 'msoc'), ('disc', 'exact'), ('conl', 'full'), ('gnsf', 'lm'), ('irkz', 'scale'), ('par', 'cond1'), ('lls', 'log')]:
        yield dict(kind='sched', p=p, o=o, th=2, n=2, deep=False)
        if not q or p in ('hall', 'irk'): yield dict(kind='sched', p=p, o=o, th=3, n=3, deep=False); yield dict(kind='sched', p=p, o=o, th=2, n=3, deep=False)
    for c in (dict(), dict(slack='most', nl='hall', sym='MX'), dict(par='g1', N=1, nl='h')): yield dict(kind='sens', c=c, th=2, n=2, deep=False); yield dict(kind='sens', c=c, th=2, n=3, deep=False)
    for integ in ('ERK', 'IRK', 'GNSF'):
        for th, n in ((2, 2), (2, 3), (3, 3)): yield dict(kind='sim', integ=integ, th=th, n=n, deep=not q and integ == 'ERK' and th == n == 2)
    for p, o in itertools.product(C12.PROBS, OPTS):
        if q and p in ('x1', 'grid', 'bx', 'onesided', 'lls', 'free') and o not in ('fix', 'm'): continue
        yield dict(kind='inner', p=p, o=o, th=3 if not q else 2, deep=False)
    for c in ('plain', 'rich', 'pg'): yield dict(kind='api', conf=c, depth=2 if q else 3)


def setup(tier): boot()


def boot():
    pre = solverlib.setup('mcomp', '-O1'); solverlib.OBJFLAGS[:] = ['-fsanitize=thread']; return pre


MC = None
CAP = 1 << 20
def mc():
    global MC
    if MC is None:
        pre = os.environ['ACADOS_SOURCE_DIR']; MC = ctypes.CDLL(pre + '/lib/libmcgomp.so', ctypes.RTLD_GLOBAL)
        for f in ('mc_points', 'mc_marks', 'mc_accesses', 'mc_conflicts'): getattr(MC, f).restype = ctypes.c_long
        MC.marks = (ctypes.c_long * CAP)(); MC.kinds = (ctypes.c_ubyte * CAP)()
    return MC


def cfg(th=1, pts=(), offs=(), order=()):
    n = len(pts); o = list(offs) + [0] * (n - len(offs))
    mc().mc_config(th, n, (ctypes.c_long * max(n, 1))(*pts), (ctypes.c_int * max(n, 1))(*(o or [0])), (ctypes.c_int * max(1, len(order)))(*(order or [0])), len(order))


def run(case, ctx):
    warnings.simplefilter('ignore'); mc(); cfg(1); mc().mc_mode(0, MC.marks, MC.kinds, CAP); globals()['k_' + case['kind']](case, ctx)


def explore(ctx, key, what, prepare, op, result, ref, th, deep, icv=1, cap=None):
    """runs op under every schedule within the bound; result() must equal ref every time"""
    M = mc(); nsched = [0]; bad = [0]
    def one(order, pts, offs=(), mode=0):
        cfg(icv); prepare(); M.mc_mode(mode, M.marks, M.kinds, CAP); cfg(icv, pts, offs, order); op(); n = M.mc_points(); dl = M.mc_deadlock(); M.mc_mode(0, M.marks, M.kinds, CAP) if mode != 1 else None
        if mode == 1: conf = M.mc_conflicts(); acc = M.mc_accesses()
        cfg(icv); r = result(); nsched[0] += 1; ctx.trans()
        d = diff(r, ref)
        if d and not bad[0]: bad[0] = 1; ctx.viol('schedule-' + key, f'{what}: with {th} threads, thread order {order}, preemptions at {list(pts)} the result differs from sequential operation: {d}')
        if dl and not bad[0]: bad[0] = 1; ctx.viol('deadlock-' + key, f'{what}: threads {th}, order {order}, preemptions {list(pts)}: some threads wait for ever')
        return (n, conf, acc) if mode == 1 else n
    orders = list(itertools.permutations(range(th)))
    for order in orders:
        n, conf, acc = one(order, (), mode=1); one(order, (), mode=2); m = M.mc_marks(); marks = list(zip(M.marks[:m], M.kinds[:m])); ctx.state((key, what, order, n, conf, m))
        ctx.sample(f'{key}: {acc} memory accesses, {conf} conflicting words, {m} marked scheduling points of {n}, order {order}')
        cf = [k for k, t in marks if t > 1]; fe = [k for k, t in marks if t == 1]
        pts = list(range(n)) if deep else sorted(set(cf + fe))
        if not deep and cap and len(pts) > cap: pts = sorted(set(cf[:cap] + fe[::-(-len(fe) // cap)]))
        for k in pts:
            for t in range(th - 1):
                one(order, (k,), (t,))
                if bad[0]: return
        two = cf if len(cf) <= 60 else cf[:30] + cf[-30:]
        for a, b in itertools.combinations(two, 2):
            one(order, (a, b))
            if bad[0]: return
    ctx.outcome(f'{key}: explored')


def diff(a, b):
    for k in b:
        x, y = a.get(k), b[k]
        if x is None or y is None:
            if x is not y: return f'{k}: {x} instead of {y}'
            continue
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True): return f'{k}: {x.ravel()[:6]} instead of {y.ravel()[:6]}'
    return ''


def mkocp(p, o, it=2):
    R = C12_ref(p); P = R.Pk[0]; ocp = P.ocp(solverlib.name()); op = ocp.solver_options
    for k, v in OPTS[o].items(): setattr(op, k, v)
    if op.nlp_solver_type != 'SQP_RTI': op.nlp_solver_max_iter = it
    if o == 'full': op.qp_solver_cond_N = P.s['N']
    if o == 'reuse0': op.qp_solver_warm_start = 0; op.reuse_workspace = False if hasattr(type(op), 'reuse_workspace') else None
    return R, ocp


def C12_ref(p): return ocpspec.Ref(ocpspec.Problem(C01.expand(C12.PROBS[p])))


def dirs(ocp):
    d = os.path.join(os.getcwd(), solverlib.name('b') + '_d'); os.makedirs(d, exist_ok=True); ocp.code_gen_options.code_export_directory = os.path.join(d, 'c'); ocp.code_gen_options.json_file = os.path.join(d, 'o.json')


def valid(p, o): return not (o == 'osqp' and p in ('onesided',)) and not (o in ('exact', 'regm') and p in ('conl', 'phi', 'irkz', 'gnsf')) and not (o == 'rti' and p == 'gnsf' and False)


def batch(ocp, n, th, **kw):
    from acados_template import AcadosOcpBatchSolver
    ocp.solver_options.with_batch_functionality = True; dirs(ocp); return AcadosOcpBatchSolver(ocp, n, th, verbose=False, **kw)


def state(S, i, full=True):
    r = {f'{i}:{f}': S.get_flat(f) for f in IT + ('p',)}; r[f'{i}:status'] = S._status
    if full: r[f'{i}:iter'] = S.get_stats('nlp_iter'); r[f'{i}:res'] = S.get_residuals()
    return r


def k_sched(case, ctx):
    p, o, th, n = case['p'], case['o'], case['th'], case['n']
    if not valid(p, o): return
    R, ocp = mkocp(p, o); N = R.N; cfg(1)
    B = batch(ocp, n, th); from acados_template import AcadosOcpSolver
    S = AcadosOcpSolver(ocp, build=False, generate=False, verbose=False)
    rti = o == 'rti'; key = f'{p}-{o}'; pv = lambda i, k: (R.Pk[0].d['p'] * (1 + 0.1 * i)) if R.Pk[0].s['np'] else None
    def start(s, i):
        s.reset()
        for k in range(N + 1):
            if pv(i, k) is not None: s.set(k, 'p', pv(i, k))
        C12.put(s, R, C12.STARTS[(i + 1) % 6])
    def prep():
        for i, s in enumerate(B.ocp_solvers): start(s, i); s._status = None
    alone = {}
    for i in range(n): start(S, i); S.solve(); alone.update(state(S, i))
    allst = lambda: dict(sum([list(state(s, i).items()) for i, s in enumerate(B.ocp_solvers)], []), **{'B.status': B.status}); alone['B.status'] = np.array([alone[f'{i}:status'] for i in range(n)])
    explore(ctx, 'solve', f'solve of a batch of {n}, {key}', prep, B.solve, allst, alone, th, case['deep'], cap=150)
    if not case['deep'] and p not in ('nls', 'hall', 'par', 'irkz', 'softall'): return
    # data transfer and the preparation of factorizations
    val = {f: np.stack([S.get_flat(f) * 0 + (i + 1) * np.cos(1.0 + np.arange(S.get_flat(f).size)) + (2 if f in ('sl', 'su', 'lam') else 0) for i in range(n)]) for f in IT + ('p',)}; val['p'] = val['p'] * (R.Pk[0].s['np'] > 0)
    refs = {}; it = lambda s, i: state(s, i, False)
    for f in IT + ('p',):
        if not val[f].size: continue
        r = {}
        for i in range(n): start(S, i); S.set_flat(f, val[f][i]); S._status = None; r.update(it(S, i))
        explore(ctx, 'set_flat', f'set_flat({f}), batch of {n}, {key}', prep, lambda f=f: B.set_flat(f, val[f]), lambda: dict(sum([list(it(s, i).items()) for i, s in enumerate(B.ocp_solvers)], [])), r, th, case['deep'])
        out = {}; r2 = {'value': np.stack([r[f'{i}:{f}'] for i in range(n)])}
        def g(f=f): out['value'] = B.get_flat(f)
        explore(ctx, 'get_flat', f'get_flat({f}), batch of {n}, {key}', lambda f=f: (prep(), [s.set_flat(f, val[f][i]) for i, s in enumerate(B.ocp_solvers)]), g, lambda: out, r2, th, case['deep'])
    for f, k in [('x', 1), ('u', 0), ('lam', 1), ('pi', 0), ('p', 1), ('sl', N), ('z', 0), ('xdot_guess', 0), ('z_guess', 0)]:
        if f == 'xdot_guess' and o != 'irk' and p not in ('irk', 'irkz') or f == 'z_guess' and p != 'irkz': continue
        d = R.Pk[0].s['nx'] if f == 'xdot_guess' else R.Pk[0].s['nz'] if f == 'z_guess' else S.dims_get(f, k)
        if not d: continue
        v = np.stack([(i + 2.0) + 0.3 * np.arange(d) for i in range(n)]); r = {}; rv = []; gs = f.endswith('guess')
        for i in range(n): start(S, i); S.set(k, f, v[i]); S._status = None; gs and S.solve(); r.update(it(S, i)); rv.append(None if gs else S.get(k, f))
        explore(ctx, 'set', f'set({k}, {f}), batch of {n}, {key}', prep, lambda: B.set(k, f, v), lambda: ([s.solve() for s in B.ocp_solvers] if gs else 0, dict(sum([list(it(s, i).items()) for i, s in enumerate(B.ocp_solvers)], [])))[1], r, th, case['deep'])
        if gs: continue
        out = {}
        def g(f=f, k=k): out['value'] = B.get(k, f)
        r2 = {'value': np.stack(rv)}; explore(ctx, 'get', f'get({k}, {f}), batch of {n}, {key}', lambda: (prep(), [s.set(k, f, v[i]) for i, s in enumerate(B.ocp_solvers)]), g, lambda: out, r2, th, case['deep'])
    P = R.Pk[0]
    for f, g in (('lbu', 'bu'), ('uh', 'h'), ('lg', 'g'), ('ubx', 'bx'), ('C', 'g')):
        k = 1; c = [x for x in R.cons[k] if x[0].split('_')[0] == g]
        if not c or k >= N: continue
        if f == 'C': v = np.stack([np.arange(1.0, 1 + len(c) * P.s['nx']).reshape(len(c), P.s['nx']) * (1 + i) for i in range(n)])
        else: v = np.stack([np.array([x[2 if f[0] == 'l' else 3] for x in c]) + 0.1 * (i + 1) for i in range(n)])
        r = {}; org = {s: s.constraints_get(k, f) if f != 'C' else None for s in [S] + B.ocp_solvers} if hasattr(S, 'constraints_get') else None
        def back():
            for s in [S] + B.ocp_solvers: s.constraints_set(k, f, orig, api='new')
        orig = np.array([x[2 if f[0] == 'l' else 3] for x in c]) if f != 'C' else np.array(ocp.constraints.C)
        for i in range(n): start(S, i); S.constraints_set(k, f, v[i], api='new'); S.solve(); r.update(state(S, i))
        back(); explore(ctx, 'constraints_set', f'constraints_set({k}, {f}), batch of {n}, {key}', lambda: (prep(), back()), lambda: B.constraints_set(k, f, v), lambda: ([s.solve() for s in B.ocp_solvers], dict(sum([list(state(s, i).items()) for i, s in enumerate(B.ocp_solvers)], [])))[1], r, th, case['deep'], cap=60)
        back()


def k_sens(case, ctx):
    c = dict(C08.BASE, **case['c']); th, n = case['th'], case['n']; P = C08.problem(c); o = C08.ocp(c, P, solverlib.name()); N = P.s['N']; cfg(1)
    try: B = batch(o, n, th, save_p_global=True)
    except Exception as e: ctx.viol('sens-create', f'batch solver of a valid problem was not created: {e}'[:300]); return
    from acados_template import AcadosOcpSolver
    S = AcadosOcpSolver(o, build=False, generate=False, verbose=False, save_p_global=True); npg = P.s['npg']; pg = [P.d['pg'] * (1 + 0.07 * i) for i in range(n)]
    key = 'sens'; ks = list(range(N + 1)); kw = dict(return_sens_x=True, return_sens_u=True, return_sens_pi=True, return_sens_lam=True, return_sens_sl=True, return_sens_su=True)
    nx, nu = P.s['nx'], P.s['nu']; sx = [(k, np.stack([np.cos(1 + i + k + np.arange(nx * 2)).reshape(nx, 2) for i in range(n)])) for k in (0, N)]; su = [(0, np.stack([np.sin(2 + i + np.arange(nu * 2)).reshape(nu, 2) for i in range(n)]))]
    ref = {'initial_state': {}, 'p_global': {}, 'adj': {}}; fac = {}; its = []
    for i in range(n):
        S.reset(); S.set_p_global_and_precompute_dependencies(pg[i]); S.solve(); st = S._status; its.append({f: S.get_flat(f) for f in IT})
        for w in ('initial_state', 'p_global'):
            r = S.eval_solution_sensitivity(ks, w, **kw)
            for f in r: ref[w].update({f'{i}:{f}:{k}': v for k, v in enumerate(r[f])})
        ref['adj'][f'{i}'] = S.eval_adjoint_solution_sensitivity([(k, v[i]) for k, v in sx], [(k, v[i]) for k, v in su], 'p_global')
    B.set_p_global_and_precompute_dependencies(np.stack(pg))
    def prep():
        for i, s in enumerate(B.ocp_solvers): s.reset(); s.set_p_global_and_precompute_dependencies(pg[i]); s.solve()
        B._reset_sens_out(n)
    def solved():
        for i, s in enumerate(B.ocp_solvers): s.setup_qp_matrices_and_factorize()
    out = {}
    for w in ('initial_state', 'p_global'):
        def op(w=w):
            out.clear(); r = B.eval_solution_sensitivity(ks, w, **kw)
            for f in r:
                for k, v in enumerate(r[f]):
                    for i in range(n): out[f'{i}:{f}:{k}'] = v[i]
        explore(ctx, 'sens-' + w, f'eval_solution_sensitivity({w}) of a batch of {n}', prep, op, lambda: out, ref[w], th, False, cap=150 if not case['deep'] else 2000)
    def op():
        out.clear(); r = B.eval_adjoint_solution_sensitivity(sx, su, 'p_global'); out.update({f'{i}': r[i] for i in range(n)})
    explore(ctx, 'sens-adj', f'eval_adjoint_solution_sensitivity of a batch of {n}', prep, op, lambda: out, ref['adj'], th, False, cap=150 if not case['deep'] else 2000)
    def rs(s, i): return {f'{i}:{f}{k}': s.get(k, f) for k in range(N) for f in ('sens_x', 'sens_u')}
    def one(w):
        r = {}
        for i in range(n): S.reset(); S.set_p_global_and_precompute_dependencies(pg[i]); S.solve(); st = S.setup_qp_matrices_and_factorize(); r[f'{i}:st'] = st; g = S.eval_solution_sensitivity(ks, w, **kw); r.update({f'{i}:{f}:{k}': v for f in g for k, v in enumerate(g[f])})
        return r
    r0 = one('initial_state')
    def res():
        r = {}
        for i, s in enumerate(B.ocp_solvers): g = s.eval_solution_sensitivity(ks, 'initial_state', **kw); r.update({f'{i}:{f}:{k}': v for f in g for k, v in enumerate(g[f])}); r[f'{i}:st'] = B.status[i]
        return r
    explore(ctx, 'factorize', f'setup_qp_matrices_and_factorize of a batch of {n}', prep, B.setup_qp_matrices_and_factorize, res, r0, th, False, cap=150 if not case['deep'] else 2000)


def k_sim(case, ctx):
    from acados_template import AcadosSimBatchSolver, AcadosSimSolver
    th, n = case['th'], case['n']; c = dict(C07.BASE, integ=case['integ'], sens='fa', sp=0, np=1, nz=0 if case['integ'] == 'ERK' else 1); P = C07.problem(c); s = C07.sim(P, c, iters=3); s.solver_options.with_batch_functionality = True
    d = os.path.join(os.getcwd(), solverlib.name('i') + '_d'); os.makedirs(d, exist_ok=True); s.code_gen_options.code_export_directory = os.path.join(d, 'c'); s.code_gen_options.json_file = os.path.join(d, 's.json'); cfg(1)
    B = AcadosSimBatchSolver(s, n, th, verbose=False); S = AcadosSimSolver(s, generate=False, build=False, verbose=False); F = ['x', 'S_forw', 'S_adj'] + (['z'] if c['nz'] else [])
    def put(q, i):
        q.set('x', 0.3 * (i + 1) * np.cos(1.0 + np.arange(P.s['nx']))); q.set('u', 0.2 * (i + 1) * np.ones(P.s['nu'])); q.set('p', P.d['p'] * (1 + 0.1 * i)); q.set('seed_adj', 1.0 + i + np.arange(P.s['nx']))
        if case['integ'] == 'IRK': q.set('xdot', np.zeros(P.s['nx'])); c['nz'] and q.set('z', np.zeros(P.s['nz']))
    # two calls in a row, so that the memory of the first one shows
    ref = {}
    for i in range(n):
        S.reset() if hasattr(S, 'reset') else None; put(S, i); S.solve(); S.solve(); ref.update({f'{i}:{f}': S.get(f) for f in F})
        if case['integ'] != 'ERK' and not i: pass
    S2 = [AcadosSimSolver(s, generate=False, build=False, verbose=False) for i in range(n)]; ref = {}
    for i in range(n): put(S2[i], i); S2[i].solve(); put(S2[i], i); S2[i].solve(); ref.update({f'{i}:{f}': S2[i].get(f) for f in F})
    for i, q in enumerate(B.sim_solvers): put(q, i); q.solve()
    for r in range(3):
        for i in range(n): put(S2[i], i); S2[i].solve()
        for i, q in enumerate(B.sim_solvers): put(q, i); q.solve()
    ref = {}
    for i in range(n): put(S2[i], i); S2[i].solve(); ref.update({f'{i}:{f}': S2[i].get(f) for f in F})
    def prep():
        for i, q in enumerate(B.sim_solvers): put(q, i)
    explore(ctx, 'sim-' + case['integ'], f'integrator batch of {n}', prep, B.solve, lambda: {f'{i}:{f}': q.get(f) for i, q in enumerate(B.sim_solvers) for f in F}, ref, th, case['deep'])
    # part of a batch
    for m in range(1, n + 1):
        for i, q in enumerate(B.sim_solvers): put(q, i); q.solve(); put(q, n - 1 - i)
        before = {f'{i}:{f}': B.sim_solvers[i].get(f) for i in range(m, n) for f in F}; cfg(1)
        r = {}
        for i in range(n): put(S2[i], i); S2[i].solve(); put(S2[i], n - 1 - i)
        for i in range(m): S2[i].solve()
        try: B.solve(m)
        except ValueError: ctx.outcome('sim: larger batch rejected'); continue
        r = {f'{i}:{f}': S2[i].get(f) for i in range(n) for f in F}; got = {f'{i}:{f}': B.sim_solvers[i].get(f) for i in range(n) for f in F}; ctx.state(('simpart', case['integ'], th, n, m))
        x = diff(got, r); ctx.require(not x, 'sim-part', f'{case["integ"]}: solve({m}) of a batch of {n} integrators: {x}')
    ctx.rejects(lambda: B.solve(n + 1), 'sim-toomany', 'an integrator batch larger than initialized was accepted', ValueError)


def k_inner(case, ctx):
    p, o, th = case['p'], case['o'], case['th']
    if not valid(p, o): return
    cfg(1); R, ocp = mkocp(p, o)
    try: S1 = solverlib.solver(ocp)
    except (NotImplementedError, ValueError): return
    from acados_template import AcadosOcpSolver
    cfg(th); S = AcadosOcpSolver(ocp, build=False, generate=False, verbose=False)
    def start(s): s.reset(); C12.put(s, R, C12.STARTS[2])
    cfg(1); start(S1); S1.solve(); ref = state(S1, 0); ref['cost'] = S1.get_cost(); ref['stat'] = S1.get_stats('statistics') if o not in ('rti',) else 0; ref['rr'] = S1.get_residuals(recompute=True); ref.pop('0:res')
    def op(): S.solve(); op.cost = S.get_cost(); op.rr = S.get_residuals(recompute=True)
    def res(): return dict(state(S, 0, False), **{'0:iter': S.get_stats('nlp_iter')}, cost=op.cost, rr=op.rr, stat=S.get_stats('statistics') if o not in ('rti',) else 0)
    def norm(r):     # time measurements are part of no result
        return r
    explore(ctx, 'inner', f'parallel evaluation inside one solver, {p}-{o}', lambda: start(S), op, res, ref, th, False, icv=th, cap=30 if not case['deep'] else 400)


def k_api(case, ctx):
    """histories of batch calls with changing batch size against independent solvers"""
    conf, depth = case['conf'], case['depth']; cfg(1); pgl = conf == 'pg'; from acados_template import AcadosOcpSolver; from acados_template.acados_ocp_iterate import AcadosOcpFlattenedBatchIterate
    if pgl: c = dict(C08.BASE); P = C08.problem(c); o = C08.ocp(c, P, solverlib.name()); R = ocpspec.Ref(P)
    else: R, o = mkocp('nls' if conf == 'plain' else 'par', 'fix'); P = R.Pk[0]
    N = R.N; B0 = batch(o, 1, 1, save_p_global=True); NB = 3; new = lambda: AcadosOcpSolver(o, build=False, generate=False, verbose=False, save_p_global=True); M = [new() for _ in range(NB)]; from acados_template import AcadosOcpBatchSolver
    d0 = {f: M[0].get_flat(f) for f in IT + ('p',)}
    st0 = M[0]._status
    def pristine(s):
        s.reset()
        for f in ('lbx', 'ubx'): s.constraints_set(0, f, P.d['x0'])
        if pgl: s.set_p_global_and_precompute_dependencies(P.d['pg'])
        for f in IT + ('p',): s.set_flat(f, d0[f])
        s._status = st0; return s
    vec = lambda f, m, z: np.stack([np.cos(z + i + np.arange(d0[f].size)) * 0.4 + (0.5 if f in ('sl', 'su', 'lam') else 0) for i in range(m)]) if f != 'p' else np.stack([d0['p'] * (1 + 0.05 * z + 0.03 * i) for i in range(m)])
    st = lambda s: {f: s.get_flat(f) for f in IT + ('p',)}
    ops = []
    for m in (1, 2, 3):
        for f in (('x', 'p') if d0['p'].size else ('x',)): ops.append((f'set_flat({f},{m})', m, True, lambda B, f=f, m=m: B.set_flat(f, vec(f, m, m)), lambda L, f=f, m=m: [L[i].set_flat(f, vec(f, m, m)[i]) for i in range(m)] and None))
        ops.append((f'set(1,x,{m})', m, True, lambda B, m=m: B.set(1, 'x', np.stack([np.full(P.s['nx'], 0.1 * m + i) for i in range(m)])), lambda L, m=m: [L[i].set(1, 'x', np.full(P.s['nx'], 0.1 * m + i)) for i in range(m)] and None))
        ops.append((f'constraints_set(0,lbx,{m})', m, True, lambda B, m=m: [B.constraints_set(0, f, np.stack([P.d['x0'] + 0.1 * m + 0.2 * i for i in range(m)])) for f in ('lbx', 'ubx')] and None, lambda L, m=m: [L[i].constraints_set(0, f, P.d['x0'] + 0.1 * m + 0.2 * i) for i in range(m) for f in ('lbx', 'ubx')] and None))
        ops.append((f'solve({m})', m, False, lambda B, m=m: (B.solve(m), B.status)[1], lambda L, m=m: np.array([L[i].solve() for i in range(m)])))
        ops.append((f'get_flat(x,{m})', m, False, lambda B, m=m: B.get_flat('x', m), lambda L, m=m: np.stack([L[i].get_flat('x') for i in range(m)])))
        ops.append((f'get(0,u,{m})', m, False, lambda B, m=m: B.get(0, 'u', m), lambda L, m=m: np.stack([L[i].get(0, 'u') for i in range(m)])))
        ops.append((f'get_flat_iterate({m})', m, False, lambda B, m=m: np.hstack([getattr(B.get_flat_iterate(m), f) for f in IT]), lambda L, m=m: np.stack([np.concatenate([L[i].get_flat(f) for f in IT]) for i in range(m)])))
        def sit(B, m=m): B.set_iterate(AcadosOcpFlattenedBatchIterate(**{f: vec(f, m, 3 + m) for f in IT}, N_batch=m))
        ops.append((f'set_iterate({m})', m, True, sit, lambda L, m=m: [L[i].set_flat(f, vec(f, m, 3 + m)[i]) for i in range(m) for f in IT] and None))
        ops.append((f'reset({m})', m, True, lambda B, m=m: B.reset(m), lambda L, m=m: [L[i].reset() for i in range(m)] and None))
        if pgl:
            ops.append((f'pg({m})', m, True, lambda B, m=m: B.set_p_global_and_precompute_dependencies(np.stack([P.d['pg'] * (1 + 0.02 * m + 0.05 * i) for i in range(m)])), lambda L, m=m: [L[i].set_p_global_and_precompute_dependencies(P.d['pg'] * (1 + 0.02 * m + 0.05 * i)) for i in range(m)] and None))
            ops.append((f'adj({m})', m, False, lambda B, m=m: (B.setup_qp_matrices_and_factorize(m), B.eval_adjoint_solution_sensitivity([(1, np.ones((m, P.s['nx'], 1)))], [(0, np.ones((m, P.s['nu'], 1)))], sanity_checks=False))[1],
                        lambda L, m=m: ([L[i].setup_qp_matrices_and_factorize() for i in range(m)], np.stack([L[i].eval_adjoint_solution_sensitivity([(1, np.ones((P.s['nx'], 1)))], [(0, np.ones((P.s['nu'], 1)))], sanity_checks=False) for i in range(m)]))[1]))
    ops.append(('solve()', 0, False, lambda B: (B.solve(), B.status)[1], lambda L, c: np.array([L[i].solve() for i in range(c)]))); ops.append(('single solve(1)', -1, False, lambda B: B.ocp_solvers[1].solve() if len(B.ocp_solvers) > 1 else None, None))
    opd = {x[0]: x for x in ops}
    for th, n0 in ((2, 1), (3, 2)):
        if depth == 2 and conf == 'rich' and n0 == 2: continue
        for seq in itertools.product(ops, repeat=depth):
            B = AcadosOcpBatchSolver(o, n0, th, build=False, generate=False, verbose=False, check_code_reuse_possible=False, save_p_global=True); L = [pristine(s) for s in M]; cur = n0; tot = n0; names = []
            for nm, m, grow, fb, fl in seq:
                names.append(nm); ctx.trans()
                if m == -1:
                    if tot > 1: a = fb(B); b = L[1].solve(); ctx.require(a == b, 'api-single', f'{conf}: {names}: status {a} instead of {b}')
                    continue
                m_ = cur if m == 0 else m
                if m_ > cur and not grow:
                    if m_ > tot: ctx.rejects(lambda: fb(B), 'api-toomany', f'{conf}: {names} with {cur} initialized problems was accepted', ValueError)
                    continue
                try: a = fb(B)
                except Exception as e: ctx.viol('api-exception', f'{conf}: {names}: {type(e).__name__}: {e}'[:300]); return
                b = fl(L, cur) if m == 0 else fl(L); cur = m_; tot = max(tot, cur)
                if b is not None and not (np.shape(a) == np.shape(b) and np.array_equal(a, b)): ctx.viol('api-value', f'{conf}: after {names}: {np.ravel(a)[:6]} instead of {np.ravel(b)[:6]}'); return
                if b is None and a is not None: pass
                if not ctx.require(B.n_batch_current == cur, 'api-current', f'{conf}: after {names} n_batch_current is {B.n_batch_current} instead of {cur}'): return
                if not ctx.require(len(B.ocp_solvers) == tot, 'api-count', f'{conf}: after {names} there are {len(B.ocp_solvers)} solvers instead of {tot}'): return
                for i in range(tot):
                    x = diff(st(B.ocp_solvers[i]), st(L[i]))
                    if x or B.ocp_solvers[i]._status != L[i]._status: ctx.viol('api-state', f'{conf}: after {names}: problem {i} has {x or "status " + str(B.ocp_solvers[i]._status)} (solver alone: status {L[i]._status})'); return
            ctx.state((conf, n0, tuple(names)))
            for s in L: s.__del__() if False else None
        ctx.outcome('api')



if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=400, chunk=1, jobs=8))
