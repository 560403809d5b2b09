"""C30: (py) all grid specifications over a small alphabet (uniform, time steps, shooting nodes, both, all wrong lengths and totals) are entered and the resulting grid compared with its definition;
(solver) for every integrator all grids over the alphabet are generated and all QP blocks of a real solver compared with the reference that integrates each interval over its own step and scales each cost term with its own factor;
(runtime) all sequences of runtime grid changes (same and different horizon length) up to a bounded depth, compared with the same reference; (sim) the integrator derived from the OCP is the one of the first interval."""
import sys, os, copy, json, itertools, warnings, numpy as np
import mclib, solverlib, ocpspec
import C01, C10
PID = 'C30'
ASSUME = ['time is 0 at the start of every shooting interval', 'if both time steps and shooting nodes are given, time steps are used', 'runtime change of the time steps sets the cost scaling of the path to the time steps', 'horizon lengths up to 4, step alphabet of 3 values']
STEPS = [0.1, 0.25, 0.7]
INT = dict(ERK={}, ERK1=dict(integ='ERK', stages=1), ERK4=dict(stages=4, steps=2), IRK=dict(integ='IRK'), IRKT=dict(integ='IRK', t=1), IRK3R=dict(integ='IRK', stages=3, steps=2, colloc='RADAU', t=1), GNSF=dict(integ='GNSF'), LIFTED_IRK=dict(integ='LIFTED_IRK'), DISCRETE=dict(integ='DISCRETE'), IRKZ2=dict(integ='IRK', nz=2, stages=3), IRKQ=dict(integ='IRK', cdisc='INTEGRATOR'), ERKT=dict(t=1))


def grids(N, al): return [np.array(g) for g in itertools.product(al, repeat=N)]


def cases(tier):
    q = tier == 'quick'
    for N in range(1, 5 if q else 6): yield dict(kind='py', N=N)
    for i in INT:
        for N in ([1, 2, 3] if q else [1, 2, 3, 4]):
            G = [tuple(g) for g in grids(N, STEPS[:2] if q or N > 3 else STEPS)]
            if q and N == 3: G = [(0.1, 0.1, 0.1), (0.1, 0.25, 0.25), (0.25, 0.1, 0.1), (0.1, 0.25, 0.1)]
            if q and i in ('GNSF', 'IRK3R', 'ERK1', 'LIFTED_IRK', 'IRKZ2'): G = G[1:3]
            for n, g in enumerate(G):
                for how in (['steps', 'nodes'] if not q or n % 2 else ['steps']) + (['uniform'] if len(set(g)) == 1 else []):
                    for sc in ([None, 'custom', 'ones'] if not q else [[None, 'custom', 'ones'][n % 3]]): yield dict(kind='solver', integ=i, grid=g, how=how, scaling=sc)
    for i in INT:
        for d in ([2] if q else [3]): yield dict(kind='runtime', integ=i, depth=d)
    for i in INT: yield dict(kind='sim', integ=i)


def setup(tier): solverlib.setup()


def run(case, ctx): warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


def prob(integ, N, dt=None, how='steps', scaling=None):
    s = ocpspec.spec(**{**dict(N=N, bu=1, h=1, np=2, npg=1 if integ != 'GNSF' else 0, grid=how, scaling=scaling, soft=('h',)), **INT[integ]}); P = ocpspec.Problem(s)
    if dt is not None: P.d['dt'] = np.array(dt, float); s['T'] = P.s['T'] = float(np.sum(dt))
    return P


# ---------------------------------------------------------------- specification
def k_py(case, ctx):
    from acados_template import AcadosOcp
    N = case['N']; os.environ.setdefault('ACADOS_SOURCE_DIR', '/')
    def mk(**kw):
        P = prob('IRK', N); o = P.ocp('g'); so = o.solver_options; so.time_steps = np.array([]); so.shooting_nodes = np.array([]); o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
        for k, v in kw.items(): setattr(so, k, v)
        return o
    def check(dt, sc, tag, **kw):
        o = mk(**kw); ctx.state(tag, N, repr(kw)); ctx.trans(); ctx.trace()
        try: o.make_consistent()
        except Exception as e: ctx.viol(tag + '-rejected', f'{kw}: {type(e).__name__} {e}'); return
        for rep in range(2):
            so = o.solver_options; ctx.close(so.time_steps, dt, tag + '-steps', f'time_steps for {kw}', 1e-13, 1e-15); ctx.close(np.asarray(so.shooting_nodes) - so.shooting_nodes[0], np.concatenate(([0.], np.cumsum(dt))), tag + '-nodes', f'shooting_nodes for {kw}', 1e-13, 1e-15)
            ctx.close(so.cost_scaling, sc if sc is not None else np.append(dt, 1.0), tag + '-scaling', f'cost_scaling for {kw}', 1e-13, 1e-15); ctx.close(so.tf, np.sum(dt), tag + '-tf', f'tf for {kw}', 1e-12, 0); ctx.close(so.Tsim, dt[0], tag + '-tsim', f'Tsim for {kw}', 1e-13, 0); ctx.require(so.N_horizon == N, tag + '-N', f'N_horizon for {kw}')
            if 'shooting_nodes' in kw and 'time_steps' not in kw: ctx.close(so.shooting_nodes, kw['shooting_nodes'], tag + '-given', 'shooting nodes given by the user', 1e-13, 1e-15)
            if rep == 0:
                js = json.loads(json.dumps(o.to_dict(), default=lambda a: np.asarray(a).tolist() if not hasattr(a, 'shape') or isinstance(a, np.ndarray) else None))['solver_options']; ctx.close(js['time_steps'], dt, tag + '-dict', 'time_steps in the dictionary', 1e-13, 1e-15); ctx.close(js['cost_scaling'], so.cost_scaling, tag + '-dict', 'cost_scaling in the dictionary', 0, 0); o.make_consistent()
        T0 = None
        from acados_template import AcadosSim
        sim = AcadosSim.from_ocp(o); ctx.close(sim.solver_options.T, dt[0], tag + '-sim', f'simulation time of the integrator of the first interval for {kw}', 1e-13, 0)
    def bad(tag, **kw):
        ctx.trans(); o = mk(**kw); ctx.rejects(o.make_consistent, tag + '-accepted', f'inconsistent grid accepted: {kw}')
    for tf in (0.1, 1.0, 3.7, 2): check(np.full(N, tf / N), None, 'uniform', tf=tf)
    for sc in (np.ones(N + 1), np.linspace(0.5, 2, N + 1), np.zeros(N + 1), np.linspace(0.5, 2, N + 1).reshape(-1, 1)): check(np.full(N, 1.0 / N), sc.ravel(), 'scaling', tf=1.0, cost_scaling=sc)
    G = grids(N, STEPS)
    for g in G:
        tf = float(np.sum(g)); nodes = np.concatenate(([0.], np.cumsum(g)))
        check(g, None, 'steps', tf=tf, time_steps=g.copy()); check(g, None, 'steps', tf=tf, time_steps=g.reshape(-1, 1).copy()); check(g, np.linspace(3, 4, N + 1), 'steps', tf=tf, time_steps=g.copy(), cost_scaling=np.linspace(3, 4, N + 1))
        check(g, None, 'nodes', tf=float(np.sum(nodes[1:] - nodes[:-1])), shooting_nodes=nodes.copy()); check(g, None, 'both', tf=tf, time_steps=g.copy(), shooting_nodes=nodes * 1.7)
        for f in (1.5, 0.5, 1 + 1e-3, 1 - 1e-3, 1 + 1e-6, 1 - 1e-6, 1 + 1e-10, -1.0, np.nan, np.inf):
            bad('tf', tf=tf * f, time_steps=g.copy()); bad('tf', tf=tf * f, shooting_nodes=nodes.copy())
            if f == -1.0 or not np.isfinite(f): bad('tf', tf=tf, time_steps=g * f)
        for i in range(N):
            for v in (np.nan, g[i] * (1 + 1e-6), g[i] + 1, -g[i]): h = g.copy(); h[i] = v; bad('steps', tf=tf, time_steps=h)
    for m in range(0, N + 3):
        if m and m != N: bad('length', tf=m * 0.1, time_steps=np.full(m, 0.1))
        if m > 1 and m != N + 1: bad('length', tf=(m - 1) * 0.1, shooting_nodes=np.linspace(0, (m - 1) * 0.1, m))
        if m and m != N + 1: bad('length', tf=1.0, cost_scaling=np.ones(m))
    for tf in (None, '1.0', np.array([1.0])): bad('tf-type', tf=tf)


# ---------------------------------------------------------------- real solvers
def blocks(S, P, Bl, ctx, tag, seed=0):
    R = Bl.R; N = R.N; lifted = P.s['integ'] == 'LIFTED_IRK'; p = [P.d['p'] * (1 + 0.2 * k) for k in range(N + 1)]
    for k in range(N + 1): S.set(k, 'p', p[k])
    pt = C10.install(S, P, R, 0.7 + seed, 0)
    for rep in range(6 if lifted else 0): C10.step(S, P); C10.install(S, P, R, 0.7 + seed, 0)
    C10.step(S, P); ctx.trans(); ctx.trace(); return C10.compare(S, Bl, pt, p, P.d['pg'], ctx, tag, 1e-5 if lifted else 1e-9)


def k_solver(case, ctx):
    g = case['grid']; P = prob(case['integ'], len(g), g, case['how'], case['scaling']); ctx.state(*case.values()); S = C10.build(P)
    Bl = C10.Blocks(P); blocks(S, P, Bl, ctx, 'grid'); c = [float(np.asarray(S.cost_get(k, 'scaling')).ravel()[0]) for k in range(len(g) + 1)]; ctx.close(c, Bl.R.sc, 'grid-scaling', 'cost scaling of the solver', 1e-13, 1e-15)
    S.set_iterate(S.get_flat_iterate()); ctx.require(S.N == len(g), 'grid-N', f'N={S.N}')


def k_runtime(case, ctx):
    P0 = prob(case['integ'], 2, [0.25, 0.1]); ctx.state(*case.values()); S = C10.build(P0); F = {}; cur = [0.25, 0.1]; buf = {n: np.zeros(n) for n in (1, 2, 3, 4)}
    def ref(g):
        if g not in F: P = copy.copy(P0); P.s = dict(P0.s, N=len(g)); P.d = dict(P0.d, dt=np.array(g)); F[g] = (P, C10.Blocks(P))
        return F[g]
    al = [(0.1, 0.25), (0.7, 0.7), (0.25, 0.1), (0.1,), (0.1, 0.1, 0.1), (0.25, 0.1, 0.7), (1.0, 2.0), (0.1, 0.25, 0.1, 0.7)]; n = 0
    if case['integ'] in ('GNSF', 'LIFTED_IRK', 'IRK3R', 'IRKZ2', 'ERK1'): al = al[:2] + al[4:5] + al[6:7]
    seqs = [s for s in mclib.sequences(al, case['depth']) if len(s) == case['depth'] and (case['depth'] < 3 or s[0] in al[:3])]
    for seq in seqs:
        for g in seq:
            n += 1; how = n % 5; a = np.array(g)
            if how == 1 and all(v == int(v) for v in g): a = np.array(g).astype(int)                           # integers
            elif how == 2: a = np.repeat(np.array(g), 2)[::2]                                                  # not contiguous
            elif how == 3: buf[len(g)][:] = g; a = buf[len(g)]                                                 # an array the caller keeps using
            try: S.set_new_time_steps(a)
            except Exception as e: ctx.viol('runtime-rejected', f'{g} as {a.dtype}, strides {a.strides}: {type(e).__name__} {e}'); return
            ctx.state(case['integ'], seq, how); P, Bl = ref(tuple(g))
            if P0.s['npg']: S.set_p_global_and_precompute_dependencies(P0.d['pg'])
            if not ctx.require(S.N == len(g), 'runtime-N', f'N={S.N} after setting {g}') or not blocks(S, P, Bl, ctx, 'runtime', n % 3): ctx.viol('runtime-seq', f'after {seq} (array kind {how})'); return
            if n % 4 == 0: S.reset()
    for b in (np.array([0.1, np.nan]),): pass


def k_sim(case, ctx):
    """the integrator AcadosSim.from_ocp describes maps like the first interval of the OCP"""
    from acados_template import AcadosSim, AcadosSimSolver
    if case['integ'] in ('DISCRETE', 'LIFTED_IRK', 'IRKQ'): return
    for g in ((0.25, 0.1), (0.1, 0.7, 0.25)):
        P = prob(case['integ'], len(g), g); nm = solverlib.name(); o = P.ocp(nm); d = os.path.join(os.getcwd(), nm + '_d'); os.makedirs(d); o.code_gen_options.code_export_directory = d + '/c'; o.code_gen_options.json_file = d + '/o.json'; o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
        sim = AcadosSim.from_ocp(o); sim.model.name = nm + 's'; sim.code_gen_options.json_file = d + '/s.json'; sim.code_gen_options.code_export_directory = d + '/cs'; sim.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'; ctx.state(case['integ'], g); S = AcadosSimSolver(sim, verbose=False)
        F = P.sim_fun(g[0]); s = P.s
        for t in range(3):
            x = np.array([0.3, -0.2]) * (t - 1) + 0.1; u = np.array([0.2 * t, -0.1]); p = P.d['p'] + 0.1 * t; pg = P.d['pg'] - 0.1 * t; S.set('x', x); S.set('u', u); S.set('p', np.concatenate([p, pg])) if p.size + pg.size else None
            ctx.trans(); ctx.trace(); st = S.solve(); xn = np.array(F(x, u, p, pg, 0.0)[0]).ravel(); ctx.close(S.get('x'), xn, 'sim', f'next state, grid {g}', 1e-8, 1e-8)


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=2))
