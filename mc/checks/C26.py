"""GNSF structure detection: all implicit models of a bounded grammar (dimensions, mass matrix form, and per equation every choice of up to two right-hand side terms from
an alphabet of linear, bilinear, nonlinear, parametric, control-only, algebraic and derivative terms) are passed through the real detection; the returned model is compared
with the original dynamics on a grid of points: its residuals must be an invertible constant recombination of the original residuals, its maps consistent with its
expressions, its matrices invertible, the linear part maximal (independently computed closure), and the purely-linear flag exact. A sub-family is compiled and simulated
with the GNSF integrator against the fully implicit integrator."""
import io, itertools, contextlib, warnings
import numpy as np, casadi as ca
import mclib, solverlib

PID = 'C26'
ASSUME = ['"exactly the solutions": the GNSF residuals equal an invertible constant matrix times the original residuals at every grid point (all sign combinations, 48 points per model)',
          'index-1 models with a nonsingular linear part in the algebraic variables where the integrator is run', 'SX models without global parameters (others must be rejected)']
# term: name -> function of (x, xd, z, u, p, i) ; those naming absent variables are skipped
TERMS = {
    '0': lambda v, i: 0, 'c': lambda v, i: 0.3,
    'x0': lambda v, i: 0.7 * v.x[0], 'x1': lambda v, i: -0.4 * v.x[1], 'x2': lambda v, i: 1.1 * v.x[2],
    'u0': lambda v, i: 0.5 * v.u[0], 'u1': lambda v, i: -0.6 * v.u[1], 'z0': lambda v, i: 0.2 * v.z[0], 'z1': lambda v, i: -0.3 * v.z[1],
    'sx0': lambda v, i: ca.sin(v.x[0]), 'sx1': lambda v, i: 0.5 * ca.sin(v.x[1] + 0.1), 'x0x1': lambda v, i: 0.3 * v.x[0] * v.x[1], 'sxN': lambda v, i: ca.cos(v.x[-1]),
    'uu': lambda v, i: 0.2 * v.u[0] ** 2, 'xu': lambda v, i: 0.4 * v.x[-1] * v.u[0], 'px': lambda v, i: v.p[0] * v.x[0], 'p': lambda v, i: v.p[0],
    'zz': lambda v, i: 0.1 * ca.sin(v.z[0]), 'xz': lambda v, i: 0.2 * v.x[-1] * v.z[-1], 'xdN': lambda v, i: 0.1 * v.xd[0] * v.x[-1], 'dd': lambda v, i: 0.1 * ca.sin(v.xd[-1]),
    'par': lambda v, i: v.p[0] * (v.x[0] + v.u[0]) ,
}
MASS = {1: ('I', 'neg', 'state'), 2: ('I', 'swap', 'full', 'neg', 'state', 'zcol'), 3: ('I', 'swap', 'full', 'cycle')}


class V: pass


def names(nx, nz, nu, np_):
    out = []
    for t in TERMS:
        if t == 'x1' and nx < 2 or t == 'x2' and nx < 3 or t == 'u1' and nu < 2 or t in ('sx1', 'x0x1') and nx < 2: continue
        if t == 'z0' and nz < 1 or t == 'z1' and nz < 2 or t in ('zz', 'xz') and nz < 1 or t in ('px', 'p', 'par') and not np_: continue
        out.append(t)
    return out


def build(c):
    from acados_template import AcadosModel
    v = V(); S = ca.SX.sym
    v.x, v.xd, v.u, v.p = S('x', c['nx']), S('xd', c['nx']), S('u', c['nu']), S('p', c['np'])
    v.z = S('z', c['nz'])
    nx, nz = c['nx'], c['nz']
    rhs = [sum((TERMS[t](v, i) for t in ts), ca.SX(0)) for i, ts in enumerate(c['eqs'])]
    m = c['mass']
    M = ca.SX.eye(nx)
    if m == 'swap': M = M[list(range(nx))[::-1], :]
    elif m == 'cycle': M = M[[1, 2, 0], :]
    elif m == 'full': M = M + 0.5 * ca.SX(np.triu(np.ones((nx, nx)), 1)) + 0.2 * ca.SX(np.tril(np.ones((nx, nx)), -1))
    elif m == 'neg': M = -2 * M
    elif m == 'state': M = M * (2 + v.x[0] ** 2)
    lhs = M @ v.xd
    if m == 'zcol' and nz: lhs[0] += 0.3 * v.z[0]
    f = [rhs[i] - lhs[i] for i in range(nx)]
    Mz = ca.SX.eye(nz)
    if nz == 2 and c['mz'] == 'swap': Mz = Mz[[1, 0], :]
    lz = Mz @ v.z
    if nz == 2 and c['mz'] == 'full': lz = ca.DM([[1, .5], [.2, 1]]) @ v.z
    f += [(lz[j] if c['mz'] != 'nl' else lz[j] + 0.2 * lz[j] ** 3) - rhs[nx + j] for j in range(nz)]
    if c['order']: f = f[::-1]
    model = AcadosModel()
    model.name = 'm'; model.x, model.xdot, model.u, model.p = v.x, v.xd, v.u, v.p
    if nz: model.z = v.z
    model.f_impl_expr = ca.vertcat(*f)
    v.f = model.f_impl_expr
    return model, v


def dims(c):
    from acados_template import AcadosSimDims
    d = AcadosSimDims(); d.nx, d.nu, d.nz, d.np = c['nx'], c['nu'], c['nz'], c['np']
    return d


def case(nx, nz, nu, np_, mass, mz, eqs, order=0): return dict(nx=nx, nz=nz, nu=nu, np=np_, mass=mass, mz=mz, eqs=[list(e) for e in eqs], order=order)


def models(tier):
    full = tier == 'thorough'
    # one state: every subset of up to 2 (3) terms
    for np_, nu in ((1, 1), (0, 2)):
        T = names(1, 0, nu, np_)
        for mass in MASS[1]:
            for k in range(1, 4 if full else 3):
                for ts in itertools.combinations(T, k): yield case(1, 0, nu, np_, mass, 'I', [ts])
    # two states: every pair of terms x every term x mass
    T = names(2, 0, 1, 1)
    for mass in MASS[2][:5]:
        for a in itertools.combinations(T, 2) if full else itertools.combinations(('x1', 'u0', 'sx0', 'xu', 'px', 'dd'), 2) if mass == 'I' else [(t,) for t in T]:
            for b in T: yield case(2, 0, 1, 1, mass, 'I', [a, (b,)])
    # three states: chains and couplings
    T3 = names(3, 0, 1, 0)
    for mass in MASS[3]:
        for e in itertools.product(T3, ('x0', 'x1', 'x2', 'u0', 'sx0', 'dd') if full else ('x0', 'x2', 'sx0'), ('0', 'x1') if not full else T3): yield case(3, 0, 1, 0, mass, 'I', [(t,) for t in e])
    # DAEs
    T = names(1, 1, 1, 1)
    for mz, order in itertools.product(('I', 'nl'), (0, 1)):
        for a, b in itertools.product(T, T):
            if b in ('z0', 'zz', 'xz') : continue
            if full or order: yield case(1, 1, 1, 1, 'I', mz, [(a, 'z0'), (b, 'x0')], order)
            if full or not order: yield case(1, 1, 1, 1, 'I', mz, [(a,), (b,)], order)
    T = names(2, 2, 1, 0)
    for mass, mz, order in itertools.product(('I', 'swap', 'zcol'), ('I', 'swap', 'full', 'nl'), (0, 1)):
        for a, b, d in itertools.product(('0', 'z0', 'sx0', 'zz', 'x1', 'xz'), ('x0', 'z1', 'sx1', 'u0'), ('0', 'x1', 'sx0', 'uu', 'xu')) if full else itertools.product(('z0', 'sx0', 'zz'), ('x0', 'z1'), ('x1', 'uu', 'xu')):
            if d in ('z0', 'z1', 'zz', 'xz', 'xdN', 'dd'): continue
            yield case(2, 2, 1, 0, mass, mz, [(a,), (b, 'x1'), (d,), ('x0',)], order)


def cases(tier):
    ms = list(models(tier))
    n = 40
    for i in range(0, len(ms), n): yield dict(kind='detect', models=ms[i:i + n])
    step = max(1, len(ms) // (100 if tier == 'quick' else 600))
    comp = [dict(m, stages=(1, 2, 3)[i // step % 3], steps=(1, 2)[i // step // 3 % 2]) for i, m in enumerate(ms) if i % step == step // 2]
    for m in comp: yield dict(kind='sim', **m)
    yield dict(kind='bad')


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


def affine(v, f):
    """jacobian wrt (x,xd,z,u) constant (p counts as variable coefficient)?"""
    w = ca.vertcat(v.x, v.xd, v.z, v.u)
    J = ca.jacobian(f, w)
    jf = ca.Function('J', [w, v.p], [J]); ff = ca.Function('f', [w, v.p], [f])
    return jf, ff


def points(c, n=48):
    nn = c['nx'] * 2 + c['nz'] + c['nu']
    k = np.arange(n)[:, None]; j = np.arange(nn + c['np'])[None, :]
    return np.sin(1.3 + k * (j + 1) * 0.7 + 0.31 * j * j) * (1 + 0.5 * np.cos(k + j))


def detect(model, c):
    from acados_template.gnsf import detect_gnsf_structure
    detect_gnsf_structure(model, dims(c), print_info=False)
    return model.gnsf_model


def nullrank(M, tol=1e-9): return np.linalg.matrix_rank(M, tol=tol)


def closure(c, v):
    """explicit models (xdot_i = rhs_i, no derivative/algebraic terms in rhs): states that must be in the nonlinear subsystem"""
    jf, _ = affine(v, v.f)
    pts = points(c, 12); nn = c['nx'] * 2 + c['nz'] + c['nu']
    Js = np.array([jf(q[:nn], q[nn:]).full() for q in pts])
    var = np.abs(Js - Js[0]).max(0) > 1e-12
    lin = (np.abs(Js[0]) > 1e-12) & ~var
    nx = c['nx']
    seed = {j for j in range(nx) if var[:, j].any()} | {j for j in range(nx) if var[:, nx + j].any()}
    rows = range(nx) if not c['order'] else range(nx - 1, -1, -1)
    while True:
        new = set(seed)
        for i in seed: new |= {j for j in range(nx) if lin[rows[i], j]} | {j for j in range(nx) if lin[rows[i], nx + j]}
        if new == seed: return seed
        seed = new


def k_detect(case, ctx):
    for c in case['models']:
        model, v = build(c)
        tag = ' + '.join(','.join(e) for e in c['eqs']) + f"|nx{c['nx']} nz{c['nz']} {c['mass']} {c['mz']} o{c['order']}"
        try: g = detect(model, c)
        except Exception as e:
            ctx.viol('detection fails for a supported model', f'{tag}: {type(e).__name__}: {str(e)[:200]}'); continue
        ctx.state(tag); check(c, v, model, g, ctx, tag)


def check(c, v, model, g, ctx, tag):
    nx, nz, nu = c['nx'], c['nz'], c['nu']
    d = g.dims; nx1, nz1 = d.nx1, d.nz1
    px, pz = [int(i) for i in g.idx_perm_x], [int(i) for i in g.idx_perm_z]
    ctx.require(sorted(px) == list(range(nx)) and sorted(pz) == list(range(nz)), 'index lists are not permutations', tag)
    pick = lambda w, idx: w[idx] if len(idx) else ca.SX(0, 1)
    x1, x2, d1, d2, z1, z2 = pick(v.x, px[:nx1]), pick(v.x, px[nx1:]), pick(v.xd, px[:nx1]), pick(v.xd, px[nx1:]), pick(v.z, pz[:nz1]), pick(v.z, pz[nz1:])
    A = {k: np.array(getattr(g, k), dtype=float) for k in ('A', 'B', 'C', 'E', 'A_LO', 'B_LO', 'E_LO', 'c', 'c_LO', 'L_x', 'L_xdot', 'L_z', 'L_u')}
    n1, n2 = nx1 + nz1, nx + nz - nx1 - nz1
    # nonlinearity takes only y, uhat, p
    y = ca.SX.sym('y', g.y.numel()); uh = ca.SX.sym('uh', g.uhat.numel())
    try:
        phi_f = ca.Function('phi', [g.y, g.uhat, v.p], [g.phi]); flo_f = ca.Function('flo', [x1, d1, z1, v.u, v.p], [g.f_LO])
    except Exception as e:
        ctx.viol('nonlinear functions depend on other variables than their arguments', f'{tag}: {str(e)[:200]}'); return
    col = lambda M, w: ca.DM(M) @ w if M.size and w.numel() else ca.SX(M.shape[0], 1)
    res = []
    yy = sum((col(A[k].reshape(g.y.numel(), -1) if A[k].size else A[k], w) for k, w in (('L_x', x1), ('L_xdot', d1), ('L_z', z1)) if A[k].size), ca.SX(g.y.numel(), 1))
    uu = col(A['L_u'], v.u) if A['L_u'].size else ca.SX(g.uhat.numel(), 1)
    ph = phi_f(yy, uu, v.p)
    if n1: res.append(col(A['A'], x1) + col(A['B'], v.u) + (col(A['C'], ph) if ph.numel() else 0) + ca.DM(A['c'].flatten()) - col(A['E'], ca.vertcat(d1, z1)))
    if n2: res.append(col(A['A_LO'], x2) + col(A['B_LO'], v.u) + flo_f(x1, d1, z1, v.u, v.p) + ca.DM(A['c_LO'].flatten()) - col(A['E_LO'], ca.vertcat(d2, z2)))
    w = ca.vertcat(v.x, v.xd, v.z, v.u)
    F = ca.Function('F', [w, v.p], [v.f, ca.vertcat(*res), g.y - yy, g.uhat - uu])
    pts = points(c); nn = w.numel()
    R, G = [], []
    for q in pts:
        a, b, ey, eu = [o.full().flatten() for o in F(q[:nn], q[nn:])]
        R.append(a); G.append(b); ctx.trans()
        ctx.require(not ey.size or np.abs(ey).max() < 1e-12, 'y differs from its linear maps', tag); ctx.require(not eu.size or np.abs(eu).max() < 1e-12, 'uhat differs from its linear map', tag)
    R, G = np.array(R), np.array(G)
    M, *_ = np.linalg.lstsq(R, G, rcond=None)
    M2, *_ = np.linalg.lstsq(G, R, rcond=None)
    ok = R.shape == G.shape and np.abs(R @ M - G).max() < 1e-8 and np.abs(G @ M2 - R).max() < 1e-8 and np.linalg.matrix_rank(G, tol=1e-8) == np.linalg.matrix_rank(R, tol=1e-8)
    ctx.require(ok, 'GNSF residual is not equivalent to the original', lambda: f'{tag}: {np.abs(R @ M - G).max():.2e} {np.abs(G @ M2 - R).max():.2e}')
    if n1:
        ctx.require(nullrank(A['E'][:nx1, :nx1]) == nx1 and (not nz1 or nullrank(A['E'][nx1:, nx1:]) == nz1), 'E11 or E22 singular', lambda: f"{tag} {A['E']}")
    if n2: ctx.require(nullrank(A['E_LO']) == n2, 'E_LO singular', lambda: f"{tag} {A['E_LO']}")
    # linearity
    jf, ff = affine(v, v.f)
    Js = np.array([jf(q[:nn], q[nn:]).full() for q in pts]); f0 = np.array([(ff(q[:nn], q[nn:]) - jf(q[:nn], q[nn:]) @ q[:nn]).full() for q in pts])
    lin = np.abs(Js - Js[0]).max() < 1e-11 and np.abs(f0 - f0[0]).max() < 1e-11
    ctx.require(bool(g.purely_linear) == bool(lin), 'purely linear flag', f'{tag}: flag {g.purely_linear}, model affine: {lin}')
    if lin: ctx.require(nx1 == 0 and nz1 == 0, 'states of a linear model in the nonlinear part', tag)
    ptsf = [flo_f(*[ca.Function('e', [w], [s])(q[:nn]) for s in (x1, d1, z1, v.u)], q[nn:]).full() for q in pts[:6]] if n2 else [np.zeros(1)]
    if max(np.abs(o).max() for o in ptsf) > 1e-12: ctx.require(bool(g.nontrivial_f_LO), 'nontrivial_f_LO flag false although f_LO is not zero', tag)
    if nz == 0 and c['mass'] in ('I', 'neg') and not any(t in ('xdN', 'dd') for e in c['eqs'] for t in e):
        s = closure(c, v)
        ctx.require(sorted(px[:nx1]) == sorted(s), 'linear output system is not the largest possible', lambda: f'{tag}: nonlinear part {px[:nx1]}, needed {sorted(s)}')
    for k in ('ny', 'nuhat', 'nout'):
        want = dict(ny=g.y.numel(), nuhat=g.uhat.numel(), nout=g.phi.numel())[k]
        ctx.require(getattr(d, k) == want, f'dimension {k}', tag)
    ctx.trace()


def k_sim(case, ctx):
    from acados_template import AcadosSim, AcadosSimSolver
    c = case; out = {}
    for integ in ('IRK', 'GNSF'):
        model, v = build(c); model.name = solverlib.name()
        s = AcadosSim(); s.model = model
        s.solver_options.T = 0.2; s.solver_options.integrator_type = integ; s.solver_options.num_stages = c['stages']; s.solver_options.num_steps = c['steps']
        s.solver_options.newton_iter = 25; s.solver_options.sens_forw = True; s.solver_options.sens_adj = True
        if c['nz']: s.solver_options.output_z = True; s.solver_options.sens_algebraic = True
        if c['np']: s.parameter_values = np.full(c['np'], 0.3)
        nm = solverlib.name()
        try: sv = solverlib.sim_solver(s, nm) if hasattr(solverlib, 'sim_solver') else mk(s, nm)
        except Exception as e:
            ctx.viol(f'{integ} simulator of a supported model cannot be built', f'{type(e).__name__}: {str(e)[:200]}'); return
        r = []
        for q in points(c, 6):
            sv.set('x', 0.5 * q[:c['nx']]); sv.set('u', 0.5 * q[-c['nu'] - c['np']:][:c['nu']]); sv.set('seed_adj', np.ones(c['nx']))
            st = sv.solve(); ctx.trans(); r.append((st, sv.get('x'), sv.get('S_forw'), sv.get('S_adj')) + ((sv.get('z'), sv.get('S_algebraic')) if c['nz'] else ()))
        out[integ] = r
    ctx.trace()
    for i, (a, b) in enumerate(zip(out['IRK'], out['GNSF'])):
        if not all(np.all(np.isfinite(w)) for w in a[1:]) : ctx.outcome('reference diverges'); continue
        ctx.require(a[0] == b[0], 'GNSF integrator status differs from IRK', f'{a[0]} {b[0]}')
        for k, w in zip(range(1, len(a)), ('x', 'S_forw', 'S_adj', 'z', 'S_algebraic')):
            ctx.close(b[k], a[k], f'GNSF simulation differs from IRK: {w}', lambda: f'point {i}: {b[k]} vs {a[k]}', rtol=1e-7, atol=1e-8)
    ctx.state('sim', c['nx'], c['nz'])


def mk(s, nm):
    from acados_template import AcadosSimSolver
    return AcadosSimSolver(s, json_file=nm + '.json', verbose=False)


def k_bad(case, ctx):
    c = globals()['case'](2, 0, 1, 1, 'I', 'I', [('x0',), ('sx0',)])
    model, v = build(c)
    pg = ca.SX.sym('pg'); model.p_global = pg; model.f_impl_expr = model.f_impl_expr + pg
    ctx.rejects(lambda: detect(model, c), 'global parameters in GNSF dynamics accepted', '')
    from acados_template import AcadosModel
    m = AcadosModel(); m.name = 'mx'; m.x, m.xdot, m.u, m.p = ca.MX.sym('x', 2), ca.MX.sym('xd', 2), ca.MX.sym('u'), ca.MX.sym('p')
    m.f_impl_expr = m.xdot - ca.sin(m.x) - m.u
    ctx.rejects(lambda: detect(m, c), 'MX model accepted by GNSF detection', '')


if __name__ == '__main__':
    import sys
    sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=1, jobs=8))
