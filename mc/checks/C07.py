"""Integrators through AcadosSimSolver: every configuration within a bounded number of deviations from base models (explicit/implicit/structured
integrators, stages, steps, collocation family, dimensions, algebraic variables, parameters, time dependence, enabled sensitivities), driven through a
grid of states, controls, parameters, step lengths, start times and adjoint seeds, forwards and backwards (history), against an independent Runge-Kutta
scheme differentiated exactly; exhaustive call sequences over an alphabet of inputs including NaN data, option switches and guesses; truncated Newton
iterations compared with the hand-written iteration."""
import os, io, itertools, contextlib, warnings
import numpy as np, casadi as ca
import mclib, ocpspec, solverlib

PID = 'C07'
ASSUME = ['the reference solves the collocation equations to 1e-13; Newton iterations are set to 20 so that implicit integrators converge to the same point',
          'z and S_algebraic are those at the start of the interval (extrapolated from the collocation points), as for OCP stages', 'GNSF only for models its structure detection supports (SX, nu>0)',
          'adjoint output is checked with the default start value of the control part (zero)']
SENS = dict(all=dict(sens_forw=True, sens_adj=True, sens_hess=True), forw=dict(sens_forw=True), adj=dict(sens_forw=False, sens_adj=True), none=dict(sens_forw=False),
            hess=dict(sens_forw=False, sens_hess=True), fa=dict(sens_forw=True, sens_adj=True), fh=dict(sens_forw=True, sens_hess=True), ah=dict(sens_forw=False, sens_adj=True, sens_hess=True))
BASE = dict(sym='SX', integ='IRK', stages=2, steps=2, colloc='GL', nx=2, nu=1, nz=0, np=1, t=0, dyn='nl', sens='all', sp=1, alg=0, oz=1, reuse=0, expand=0)
ALTS = dict(sym=['MX'], integ=['ERK', 'GNSF'], stages=[1, 3, 4], steps=[1, 3], colloc=['RADAU'], nx=[1, 3], nu=[0, 2], nz=[1, 2], np=[0, 2], t=[1], dyn=['lin'],
            sens=['forw', 'adj', 'none', 'hess', 'fa', 'fh', 'ah'], sp=[0], alg=[1], oz=[0], reuse=[1], expand=[1])


def valid(c):
    if c['integ'] == 'ERK' and (c['nz'] or c['t'] or c['colloc'] != 'GL' or c['reuse']): return False
    if c['integ'] == 'GNSF' and (c['sym'] != 'SX' or c['nu'] == 0 or c['t'] or c['sp'] or 'h' in c['sens'] or c['sens'] == 'all'): return False
    if not c['nz'] and (c['alg'] or not c['oz']): return False
    if c['expand'] and c['sym'] != 'MX': return False
    if c['alg'] and c['sens'] in ('adj', 'none'): return False
    return True


def cases(tier):
    k = 2 if tier == 'quick' else 3
    seen = set()
    for b in (BASE, dict(BASE, integ='ERK', stages=4), dict(BASE, integ='GNSF', sens='fa', sp=0), dict(BASE, nz=1, alg=1), dict(BASE, integ='GNSF', sens='fa', sp=0, nz=1)):
        for c in mclib.lattice(b, ALTS, 1 if tier == 'quick' and b is not BASE and b.get('nz') else k, valid):
            h = mclib.digest(sorted(c.items()))
            if h in seen: continue
            seen.add(h); yield dict(kind='grid', **c)
    for c in (dict(), dict(integ='ERK', stages=4), dict(integ='GNSF', sens='fa', sp=0), dict(nz=1, alg=1), dict(stages=1, steps=3, sens='fa'), dict(integ='GNSF', sens='fa', sp=0, nz=1, stages=3)):
        yield dict(kind='seq', depth=2 if tier == 'quick' else 3, **dict(BASE, **c))
    for it, reuse, steps, nz in itertools.product((1, 2, 3), (0, 1), (1, 2), (0, 1)): yield dict(kind='newton', **dict(BASE, steps=steps, nz=nz, sens='none', sp=0, reuse=reuse, iters=it))
    for integ, grid, npg, steps in itertools.product(('ERK', 'IRK', 'GNSF'), ('uniform', 'steps'), (0, 1), (1, 2)):
        if integ == 'GNSF' and npg: continue
        yield dict(kind='ocp', integ=integ, grid=grid, npg=npg, steps=steps)
    yield dict(kind='bad')


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


def problem(c):
    return ocpspec.Problem(ocpspec.spec(**{k: c[k] for k in ('sym', 'integ', 'stages', 'steps', 'colloc', 'nx', 'nu', 'nz', 'np', 't', 'dyn')}, T=0.3, N=1, bu=0))


def sim(P, c, T=0.3, iters=None, tol=0.0):
    iters = iters or (80 if c['reuse'] else 20)   # with a reused Jacobian the convergence is only linear
    from acados_template import AcadosSim
    s = AcadosSim(); s.model = P.model(solverlib.name('m')); o = s.solver_options
    o.T = T; o.integrator_type = c['integ']; o.num_stages = c['stages']; o.num_steps = c['steps']; o.newton_iter = iters; o.newton_tol = tol
    o.collocation_type = {'GL': 'GAUSS_LEGENDRE', 'RADAU': 'GAUSS_RADAU_IIA'}[c['colloc']]
    for k, v in SENS[c['sens']].items(): setattr(o, k, v)
    o.sens_algebraic = bool(c['alg']); o.output_z = bool(c['oz']); o.sim_method_jac_reuse = c['reuse']
    s.code_gen_options.sens_forw_p = bool(c['sp']); s.code_gen_options.ext_fun_expand_dyn = bool(c['expand'])
    s.parameter_values = P.d['p'].copy()
    return s


def solver(s):
    from acados_template import AcadosSimSolver
    nm = solverlib.name('i'); d = os.path.join(os.getcwd(), nm); os.makedirs(d, exist_ok=True)
    s.code_gen_options.code_export_directory = os.path.join(d, 'c'); s.code_gen_options.json_file = os.path.join(d, 's.json')
    return AcadosSimSolver(s, verbose=False)


_ref = {}


def reference(P, T):
    """function (x, u, p, lam, t0) -> x+, z, derivatives"""
    key = (id(P), round(T, 12))
    if key in _ref: return _ref[key]
    s = P.s; phi = P.sim_fun(T)
    x, u, p, t0, lam = ca.MX.sym('x', s['nx']), ca.MX.sym('u', s['nu']), ca.MX.sym('p', s['np']), ca.MX.sym('t0'), ca.MX.sym('lam', s['nx'])
    xn, z = phi(x, u, p, ca.MX(0, 1), t0); w = ca.vertcat(x, u); J = ca.jacobian(xn, w); adj = ca.jtimes(xn, w, lam, True)
    f = ca.Function('r', [x, u, p, lam, t0], [xn, z, J, adj, ca.jacobian(adj, w), ca.jacobian(z, w), ca.jacobian(xn, p)])
    def ev(x, u, p, lam, t0):
        r = [np.array(v.full()) for v in f(x, u, p, lam, t0)]
        return dict(x=r[0].ravel(), z=r[1].ravel(), S_forw=r[2], S_adj=r[3].ravel(), S_hess=r[4], S_algebraic=r[5], S_p=r[6])
    _ref[key] = ev, P
    return _ref[key]


def points(c):
    nx, nu, np_ = c['nx'], c['nu'], c['np']
    X = [np.array([.3, -.2, .15])[:nx], np.array([-.7, .5, .4])[:nx], np.zeros(nx)]
    U = [np.array([.4, -.3])[:nu], np.array([-.6, .2])[:nu]]
    Pv = [np.array([.3, -.2])[:np_], np.array([-.5, .45])[:np_]]
    L = [np.array([1., -.5, .25])[:nx], np.array([-.3, 2., 1.])[:nx]]
    out = []
    for i, (x, u, T) in enumerate(itertools.product(X, U, (.3, .11))):
        out.append(dict(x=x, u=u, T=T, p=Pv[(i // 2) % 2], seed=L[i % 2], t0=(0., .7)[(i // 3) % 2]))
    return out


def apply_(S, P, q):
    S.set('x', q['x']); S.set('u', q['u']); S.set('T', q['T']); S.set('seed_adj', q['seed'])
    if P.s['np']: S.set('p', q['p'])
    S.set('t0', q['t0'])


def compare(ctx, S, P, c, q, on, tag, what=''):
    """the solver's outputs after solving with input q"""
    R = reference(P, float(q['T']))[0](q['x'], q['u'], q['p'], q['seed'], q['t0'])
    tol = 2e-8
    chk = lambda f, v, a=1e-8: ctx.close(S.get(f), v, f'{f}{what}', tag, tol, a)
    nx = c['nx']
    chk('x', R['x'])
    ctx.close(S.get('u'), q['u'], 'u' + what, tag, 0, 0) if False else None
    if c['nz'] and c['oz']: chk('z', R['z'])
    if on['sens_forw']:
        chk('S_forw', R['S_forw'])
        chk('Sx', R['S_forw'][:, :nx])
        if c['nu']: chk('Su', R['S_forw'][:, nx:])
    if on['sens_adj']: chk('S_adj', R['S_adj'])
    if on['sens_hess']: chk('S_hess', R['S_hess'])
    if c['alg'] and c['nz'] and (on['sens_forw'] or on['sens_hess']): chk('S_algebraic', R['S_algebraic'])
    if c['sp'] and c['np']: chk('S_p', R['S_p'])


def enabled(c): return dict(sens_forw=False, sens_adj=False, sens_hess=False) | SENS[c['sens']]


def make(c, ctx, **kw):
    P = problem(c); s = sim(P, c, **kw)
    try: S = solver(s)
    except Exception as e:
        S = None
        if c['integ'] == 'GNSF': ctx.outcome('GNSF detection: ' + str(e)[:60])
        else: ctx.viol('rejected', f'{c}: {type(e).__name__} {e}')
    return P, s, S


def k_grid(c, ctx):
    P, s, S = make(c, ctx)
    if S is None: return
    on = enabled(c); pts = points(c)
    # the values of the description are the initial ones
    x, u = pts[0]['x'], pts[0]['u']
    r = ctx.accepts(lambda: S.simulate(x=x, u=u), 'simulate', 'first call')
    R = reference(P, 0.3)[0](x, u, P.d['p'], np.zeros(c['nx']), 0.0)
    ctx.close(r, R['x'], 'initial-values', 'simulate with the parameters and step length of the description', 2e-8, 1e-8)
    for rnd, seq in (('forwards', pts), ('backwards', pts[::-1])):
        for i, q in enumerate(seq):
            apply_(S, P, q)
            if not ctx.require(S.solve() == 0, 'status', f'{rnd} {i}'): return
            compare(ctx, S, P, c, q, on, lambda: f'{rnd} call {i} with {q}')
            ctx.state(rnd, i, sorted(c.items())); ctx.trace()
            if ctx.viols: return
    q = pts[1]; apply_(S, P, q)                                                   # simulate() keeps what is not given
    kw = dict(x=pts[4]['x']);
    ctx.close(S.simulate(**kw), reference(P, q['T'])[0](pts[4]['x'], q['u'], q['p'], q['seed'], q['t0'])['x'], 'simulate-partial', 'x only', 2e-8, 1e-8)
    kw = dict(u=pts[3]['u'], **(dict(p=pts[3]['p']) if c['np'] else {}))
    ctx.close(S.simulate(**kw), reference(P, q['T'])[0](pts[4]['x'], pts[3]['u'], pts[3]['p'] if c['np'] else q['p'], q['seed'], q['t0'])['x'], 'simulate-partial', 'u, p only', 2e-8, 1e-8)
    ctx.outcome(c['integ'])


# ------------------------------------------------------------------------------------------------- call sequences
def k_seq(c, ctx):
    P, s, S = make(c, ctx)
    if S is None: return
    pts = points(c); sens = [k for k in ('sens_forw', 'sens_adj', 'sens_hess') if enabled(c)[k]]
    nan = np.full(c['nx'], np.nan)
    alpha = ['A', 'B', 'nan', 'nanu'] + ['off:' + k for k in sens] + (['guess', 'guess2'] if c['integ'] == 'IRK' else []) + (['T'])
    final = [pts[0], pts[5]]
    for seq in mclib.sequences(alpha, c['depth']):
        for k in sens: S.options_set(k, True)
        on = dict(enabled(c)); T = None
        for a in seq:
            if a in ('A', 'B'): apply_(S, P, pts[2] if a == 'A' else pts[7]); S.solve()
            elif a == 'nan': apply_(S, P, dict(pts[2], x=nan)); S.solve()
            elif a == 'nanu':
                if c['nu']: apply_(S, P, dict(pts[2], u=np.full(c['nu'], np.nan))); S.solve()
            elif a.startswith('off:'): S.options_set(a[4:], False); on[a[4:]] = False
            elif a == 'guess': S.set('xdot', .3 * np.ones(c['nx'])); c['nz'] and S.set('z', -.2 * np.ones(c['nz']))
            elif a == 'guess2': S.set('xdot', 2. * np.ones(c['nx'])); S.solve()
            elif a == 'T': S.set('T', .05); S.solve()
        for j, q in enumerate(final):
            apply_(S, P, q); st = S.solve()
            tag = f'after {seq}, input {j}'
            if not ctx.require(st == 0, 'status-after-history' + ('-nan' if any(a.startswith('nan') for a in seq) else ''), tag): break
            compare(ctx, S, P, c, q, on, tag, '-after-history')
            ctx.state(seq, j, c['integ'], c['nz'], c['stages']); ctx.trace()
        if len(ctx.viols) > 6: return


# ------------------------------------------------------------------------------------------------ truncated Newton
def k_newton(c, ctx):
    P, s, S = make(c, ctx, iters=c['iters'])
    if S is None: return
    nx, nz, st = c['nx'], c['nz'], c['stages']; A, b, cc = ocpspec.butcher('IRK', st, c['colloc'])
    f = ca.Function('f', P.args(), [P.f]); g = ca.Function('g', P.args(), [P.galg]); n = nx + nz
    w = ca.MX.sym('w', n * st); X, u, p = ca.MX.sym('x', nx), ca.MX.sym('u', c['nu']), ca.MX.sym('p', c['np']); h = ca.MX.sym('h')
    K = [w[i * nx:(i + 1) * nx] for i in range(st)]; Z = [w[st * nx + i * nz:st * nx + (i + 1) * nz] for i in range(st)]; res = []
    for i in range(st):
        a = (X + h * sum(A[i, j] * K[j] for j in range(st)), u, Z[i], p, ca.MX(0, 1), 0); res += [K[i] - f(*a), g(*a)]
    G = ca.vertcat(*res); F = ca.Function('G', [w, X, u, p, h], [G, ca.jacobian(G, w)])
    for q, gx, gz in itertools.product(points(c)[:6], (0.0, .4), (0.0, -.3)):
        apply_(S, P, dict(q, t0=0.)); S.set('xdot', gx * np.ones(nx))
        if nz: S.set('z', gz * np.ones(nz))
        S.solve()
        x = q['x'].copy(); W = np.concatenate((np.full(nx * st, gx), np.full(nz * st, gz))); J = None
        for k in range(c['steps']):
            for it in range(c['iters']):
                r, Jn = [v.full() for v in F(W, x, q['u'], q['p'], q['T'] / c['steps'])]
                if J is None or not c['reuse']: J = Jn
                W = W - np.linalg.solve(J, r).ravel()
            x = x + q['T'] / c['steps'] * sum(b[i] * W[i * nx:(i + 1) * nx] for i in range(st))
        ctx.close(S.get('x'), x, 'newton-iterates' + ('-reuse' if c['reuse'] else ''), f'{c["iters"]} Newton iterations, reuse {c["reuse"]}, guess {gx} {gz}, {q}', 1e-9, 1e-10)
        ctx.state(c['iters'], c['reuse'], c['steps'], nz, gx, gz, repr(q)); ctx.trace()


# --------------------------------------------------------------------------------------------------------- from_ocp
def k_ocp(c, ctx):
    from acados_template import AcadosSim
    P = ocpspec.Problem(ocpspec.spec(integ=c['integ'], grid=c['grid'], npg=c['npg'], steps=c['steps'], np=2, nu=1, stages=2, N=3, nz=0))
    o = P.ocp(solverlib.name('o'), sim_method_newton_iter=15); o.code_gen_options.acados_lib_path = os.path.join(os.environ['ACADOS_SOURCE_DIR'], 'lib')
    if c['steps'] == 2: o.solver_options.sim_method_num_steps = np.array([2, 1, 3])
    s = ctx.accepts(lambda: AcadosSim.from_ocp(o), 'from_ocp', c)
    if s is None: return
    S = ctx.accepts(lambda: solver(s), 'from_ocp-solver', c)
    if S is None: return
    h = float(P.dt()[0]); phi = P.sim_fun(h, num_steps=c['steps'])
    for x, u, dp in itertools.product((P.d['x0'], -P.d['x0']), (np.array([.3]), np.array([-.5])), (None, .2)):
        p, pg = P.d['p'] + (dp or 0), P.d['pg'] - (dp or 0)
        r = S.simulate(x=x, u=u, **({} if dp is None else dict(p=np.concatenate((p, pg)))))
        if dp is None: p, pg = P.d['p'], P.d['pg']
        ctx.close(r, phi(x, u, p, pg, 0)[0].full().ravel(), 'from_ocp-x', f'x {x} u {u} dp {dp}', 2e-8, 1e-8); ctx.trace(); ctx.state(repr((x, u, dp)))
        if dp is not None: S.set('p', np.concatenate((P.d['p'], P.d['pg'])))


def k_bad(c, ctx):
    b = dict(BASE, nz=1, alg=1); P, s, S = make(b, ctx)
    if S is None: return
    q = points(b)[0]; apply_(S, P, q); S.solve(); x0 = S.get('x')
    n = dict(x=2, u=1, xdot=2, z=1, T=1, t0=1, seed_adj=2, p=1)
    for f, k in n.items():
        for m in {0, k - 1, k + 1, k + 5} - {k}:
            ctx.rejects(lambda: S.set(f, np.full(m, .9)), f'wrong-dimension-{f}', f'set({f}) with {m} values'); ctx.state(f, m)
    for f in ('X', 'lam', 'S_hess', 'Tsim', ''): ctx.rejects(lambda: S.set(f, np.ones(2)), 'unknown-set', f)
    for f in ('X', 'p', 'T', ''): ctx.rejects(lambda: S.get(f), 'unknown-get', f, KeyError)
    for f, v in (('sens_forw', 1), ('sens_x', True), ('', True), ('sens_adj', None)): ctx.rejects(lambda: S.options_set(f, v), 'options_set', f'{f} {v}')
    for i in ('ERK', 'GNSF'):
        Pi, si, Si = make(dict(BASE, integ=i, sens='fa', sp=0), ctx)
        for f in ('xdot', 'z'): ctx.rejects(lambda: Si.set(f, np.ones(2 if f == 'xdot' else 0)), f'guess-{i}', f)
    S.solve(); ctx.close(S.get('x'), x0, 'rejected-changed', 'state after rejected calls', 1e-11, 1e-12)
    b2 = dict(BASE, sens='none', sp=0); P2, s2, S2 = make(b2, ctx)
    for k in ('sens_forw', 'sens_adj', 'sens_hess'): ctx.rejects(lambda: S2.options_set(k, True), 'options_set-not-generated', k)
    for k in ('sens_forw', 'sens_adj', 'sens_hess'): ctx.accepts(lambda: S2.options_set(k, False), 'options_set-off', k)
    def mk(f, **kw):
        P = problem(dict(BASE, **kw)); s = sim(P, dict(BASE, **kw)); s.code_gen_options.acados_lib_path = os.path.join(os.environ['ACADOS_SOURCE_DIR'], 'lib'); f(s); s.make_consistent()
    for nm, f, kw in (('T', lambda s: setattr(s.solver_options, 'T', None), {}), ('np', lambda s: setattr(s, 'parameter_values', np.ones(3)), {}), ('np0', lambda s: setattr(s, 'parameter_values', np.ones(0)), {}),
                      ('alg-none', lambda s: (setattr(s.solver_options, 'sens_algebraic', True), setattr(s.solver_options, 'sens_forw', False)), dict(nz=1, sens='none')), ('alg-erk', lambda s: setattr(s.solver_options, 'sens_algebraic', True), dict(integ='ERK')), ('gnsf-sp', lambda s: setattr(s.code_gen_options, 'sens_forw_p', True), dict(integ='GNSF', sens='fa', sp=0)), ('gnsf-sp-deprecated', lambda s: setattr(s.solver_options, 'sens_forw_p', True), dict(integ='GNSF', sens='fa', sp=0)),
                      ('no-expl', lambda s: setattr(s.model, 'f_expl_expr', None), dict(integ='ERK')), ('no-impl', lambda s: setattr(s.model, 'f_impl_expr', None), {}), ('no-impl-gnsf', lambda s: setattr(s.model, 'f_impl_expr', None), dict(integ='GNSF', sens='fa', sp=0))):
        def t():
            mk(f, **kw)
        ctx.rejects(t, 'description-' + nm, nm); ctx.state(nm)
    ctx.trace()


if __name__ == '__main__':
    import sys; sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=10))
