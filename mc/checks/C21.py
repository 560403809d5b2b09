"""Every problem transformation is applied to every formulation of a bounded lattice (and to every sequence of added constraints, every list of
constraint rows from an alphabet, every degree / horizon split), and the stored constraints, costs and dynamics of the result are evaluated on a grid
of points inside, on and outside the bounds and compared with an independent statement of the original problem; control horizons go through the solver."""
import io, sys, itertools, contextlib, copy, warnings, os
import numpy as np, casadi as ca
import mclib, ocpspec, costlib, conlib, solverlib

PID = 'C21'
ASSUME = ['constraint detection is claimed for problems without earlier bounds on the detected variables; rows at the initial stage together with the same rows at the path stages (input bounds and linear constraints are common to both)',
          'control horizons: initial state given, uniform time steps, costs and constraints without separate initial-stage terms, no linear constraint rows (rejected loudly); with a control horizon of one, no path constraints (they also bind at the initial node)']
SUF = ('', '_0', '_e')
CON = dict(bu=[0, 2], bx=[1, 2], bxe=[1, 2], g=[1, 2], ge=[1, 2], h=[1, 2], h0=[1, 2], he=[1, 2], phi=[1], phi0=[1], phie=[1], onesided=[1], x0=['box', 'none', 'partial', 'eqpart'], sym=['MX'], np=[2], npg=[1], nx=[1, 3], nu=[1])
FULL = dict(bu=2, bx=2, bxe=2, g=2, ge=2, h=2, h0=2, he=2)


def lat(base, alts, k): return mclib.lattice(base, alts, k)


def cases(tier):
    k = 2 if tier == 'quick' else 3
    base = {f: ocpspec.DEFAULT[f] for f in CON}
    for b in (base, dict(base, **FULL)):
        for c in lat(b, CON, k if b is base else k - 1):
            yield dict(kind='rm', **c); yield dict(kind='feas', **c)
    for sym, nu, nx, g in itertools.product(('SX', 'MX'), (0, 1, 2), (1, 2), (0, 1, 2)):
        yield dict(kind='lin', sym=sym, nu=nu, nx=nx, g=g, depth=k, bu=min(1, nu))
    for x0 in ('x0', 'box', 'none', 'partial', 'eqpart'):
        for c in lat(dict(base, x0=x0), dict(bx=[2], h0=[1], g=[1], nx=[1, 3], sym=['MX']), 2): yield dict(kind='x0', **c)
    for sym in ('SX', 'MX'):
        for first in range(len(ROWS)): yield dict(kind='detect', sym=sym, first=first, depth=3 if tier != 'quick' and sym == 'SX' else 2)
    yield dict(kind='detect_bad')
    for sym, np_, npg, t in itertools.product(('SX', 'MX'), (0, 1, 2), (0, 1), (0, 1)): yield dict(kind='t0', sym=sym, np=np_, npg=npg, t=0)
    for sym, nu, deg, np_, cost, t in itertools.product(('SX', 'MX'), (1, 2), (0, 1, 2, 3), (0, 2), ('NLS', 'CONL', 'EXT'), (0, 1)): yield dict(kind='poly', sym=sym, nu=nu, deg=deg, np=np_, cost=cost, t=t)
    for sym in ('SX', 'MX'):
        for cost in ('LLS', 'NLS', 'CONL', 'EXT'):
            for soft in ((), ('bu',), ('bx',), ('g',), ('h',), ('bx*', 'h*'), ('bu*', 'bx*', 'g*', 'h*'), ('bu', 'g*', 'h')):
                for np_ in (0, 2):
                    for npg in (0, 1): yield dict(kind='cs', sym=sym, cost=cost, soft=soft, np=np_, npg=npg)
    for N in (2, 3, 4):
        for Nc in range(1, N + 1):
            for Nr in [None] + [r for r in (1, 2, 3) if r <= N and Nc < N]:
                for f in (dict(), dict(cost='LLS', coste='LLS'), dict(integ='IRK', sym='MX'), dict(integ='DISCRETE'), dict(np=2), dict(bx=2), dict(nx=3, nu=1), dict(cost='EXT', coste='EXT'), dict(h=1), dict(he=1)):
                    if Nc == 1 and (f.get('bx') or f.get('h')): continue          # path constraints also hold at the (fixed) initial node then
                    if Nr not in (None, N - Nc) and (f.get('integ') == 'DISCRETE'): continue
                    if tier == 'quick' and N == 4 and f and Nr not in (None, 1): continue
                    yield dict(kind='ch', N=N, Nc=Nc, Nr=Nr, **f)
    yield dict(kind='ch_bad')


def setup(tier): solverlib.setup()


def mk(case, name='m'):
    c = {k: v for k, v in case.items() if k in ocpspec.DEFAULT}
    if 'soft' in c: c['soft'] = tuple(c['soft'])
    s = ocpspec.spec(**c)
    if 'EXT' in (s['cost'], s['coste']): s['opts'] = dict(hessian_approx='EXACT')
    P = ocpspec.Problem(s); o = P.ocp(name); o.code_gen_options.acados_lib_path = os.path.join(os.environ['ACADOS_SOURCE_DIR'], 'lib')
    return P, o


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)
    ctx.trace()


def pts(P, limit=14): return costlib.grid(P.s['nx'], P.s['nu'], P.s['nz'], vals=(-0.8, 0.1, 0.7), limit=limit)


def grp(q): return q.split('_')[0]


def ref_rows(P, suf): return [(grp(r[0]), r[1], r[2], r[3]) for r in P.constraints(suf)]


def same_constraints(ctx, P, o, suf, expect, key, params=None):
    """stored rows equal the expected ones, in order within each group"""
    try: got = conlib.rows(o, suf)
    except AssertionError as e: ctx.viol(key, f'stored constraints of stage type {suf!r} are inconsistent: {e}'); return
    for g in ('bu', 'bx', 'g', 'h', 'phi'):
        a = [q for q in got if q[0] == g]; b = [q for q in expect if q[0] == g]
        if not ctx.require(len(a) == len(b), key, lambda: f'{suf!r} {g}: {len(a)} rows, expected {len(b)}'): continue
        if not a: continue
        ctx.close([q[2] for q in a], [q[2] for q in b], key, f'{suf!r} {g} lower', 1e-12, 1e-12); ctx.close([q[3] for q in a], [q[3] for q in b], key, f'{suf!r} {g} upper', 1e-12, 1e-12)
        S = type(P.x)
        fa = ca.Function('a', costlib.args(o.model), [ca.vertcat(*[S(q[1]) for q in a])]); fb = ca.Function('b', P.args(), [ca.vertcat(*[S(q[1]) for q in b])])
        for (x, u, z) in pts(P):
            for p, pg in params or [(P.d['p'], P.d['pg'])]:
                ctx.close(fa(x, u, z, p, pg, .3).full(), fb(x, u, z, p, pg, .3).full(), key, lambda: f'{suf!r} {g} at {x} {u}', 1e-10, 1e-11)


def same_cost(ctx, P, o, key):
    for suf in SUF:
        typ = getattr(o.cost, 'cost_type' + suf)
        if typ is None: continue
        f = costlib.fun(o.model, costlib.expr(o, suf)); e = P.cost_expr(suf); g = ca.Function('g', P.args(), [e])
        for (x, u, z) in pts(P, 6): ctx.close(f(x, u, z, P.d['p'], P.d['pg'], .3)[0].full(), g(x, u, z, P.d['p'], P.d['pg'], .3).full(), key, f'cost {suf!r} changed', 1e-10, 1e-11)


def same_dyn(ctx, P, o, key):
    m = o.model
    for nm in ('f_expl_expr', 'f_impl_expr', 'disc_dyn_expr'):
        e = getattr(m, nm)
        if costlib.empty(e): continue
        r = {'f_expl_expr': P.f, 'f_impl_expr': ca.vertcat(P.xdot - P.f, P.galg) if P.s['nz'] else P.xdot - P.f, 'disc_dyn_expr': getattr(P, 'disc', None)}[nm]
        fa = ca.Function('a', costlib.args(m) + [m.xdot], [e]); fb = ca.Function('b', P.args() + [P.xdot], [r]); xd = np.arange(1., P.s['nx'] + 1)
        for (x, u, z) in pts(P, 5): ctx.close(fa(x, u, z, P.d['p'], P.d['pg'], .3, xd).full(), fb(x, u, z, P.d['p'], P.d['pg'], .3, xd).full(), key, nm, 1e-11, 1e-12)


def consistent(ctx, o, key, what=''):
    return ctx.accepts(lambda: (o.make_consistent(verbose=False), True)[1], key, f'make_consistent after the transformation {what}')


def k_rm(case, ctx):
    for keep in (False, True):
        P, o = mk(case); has = P.s['x0'] == 'x0'
        if keep and not has: ctx.rejects(lambda: o.remove_all_constraints(keep_x0=True), 'rm-keep_x0', 'no x0 constraint to keep', NotImplementedError); continue
        o.remove_all_constraints(keep_x0=keep) if keep else o.remove_all_constraints()
        for suf in SUF: same_constraints(ctx, P, o, suf, [r for r in ref_rows(P, suf) if r[0] == 'bx'] if keep and suf == '_0' else [], 'rm-constraints')
        ctx.require(o.constraints.has_x0 == keep, 'rm-has_x0', f'keep_x0={keep}'); same_cost(ctx, P, o, 'rm-cost'); same_dyn(ctx, P, o, 'rm-dynamics')
        if consistent(ctx, o, 'rm-inconsistent'):
            d = o.dims; ctx.require((d.nbu, d.nbx, d.ng, d.nh, d.nphi, d.nh_0, d.nphi_0, d.nbx_e, d.ng_e, d.nh_e, d.nphi_e) == (0,) * 11 and d.nbx_0 == (P.s['nx'] if keep else 0), 'rm-dims', str(d.__dict__))
        ctx.state('rm', keep, sorted(case.items()))


def viol2(rows, S):
    v = S(0)
    for g, e, lo, up in rows: v = v + ca.fmax(e - up, 0) ** 2 + ca.fmax(lo - e, 0) ** 2
    return v


def k_feas(case, ctx):
    for keep_x0, keep_cost, par in itertools.product((0, 1), repeat=3):
        for ct in ('NLS', 'CONL', 'EXT') if keep_cost else ('NLS', 'LLS'):
            P, o = mk(dict(case, cost=ct, coste=ct)); has = P.s['x0'] == 'x0'; S = type(P.x)
            f = lambda: o.translate_to_feasibility_problem(keep_x0=bool(keep_x0), keep_cost=bool(keep_cost), parametric_x0=bool(par))
            if (keep_x0 or par) and (not has or (keep_x0 and par)): ctx.rejects(f, 'feas-options', f'keep_x0 {keep_x0} parametric_x0 {par} has_x0 {has}', NotImplementedError); continue
            if ctx.accepts(lambda: (f(), True), 'feas-rejected', f'{keep_x0} {keep_cost} {par} {ct}') is None: continue
            np0 = P.s['np']
            if par:
                ctx.close(o.parameter_values, np.concatenate((P.d['p'], P.d['x0'])), 'feas-x0-parameter', 'parameter values', 0, 0); ctx.require(o.model.p.shape[0] == np0 + P.s['nx'], 'feas-x0-parameter', 'length of p')
            for suf in SUF:
                rows = [r for r in ref_rows(P, suf)]
                x0s = [P.d['x0']] + ([P.d['x0'] + 0.4] if par else [])
                for xi in x0s:
                    rr = [(r[0], r[1], xi[i % P.s['nx']], xi[i % P.s['nx']]) if par and r[0] == 'bx' and suf == '_0' else r for i, r in enumerate([q for q in rows if q[0] == 'bx'] + [q for q in rows if q[0] != 'bx'])]
                    ref = 0.5 * viol2(rr, S) + (P.cost_expr(suf) if keep_cost else 0)
                    fa = costlib.fun(o.model, costlib.expr(o, suf)); fb = ca.Function('b', P.args(), [ref])
                    p = P.d['p'] if not par else np.concatenate((P.d['p'], xi))
                    P2 = pts(P) + [(np.full(P.s['nx'], 0.02), np.full(P.s['nu'], 0.01), np.zeros(P.s['nz']))]
                    for (x, u, z) in P2: ctx.close(fa(x, u, z, p, P.d['pg'], .3)[0].full(), fb(x, u, z, P.d['p'], P.d['pg'], .3).full(), 'feas-cost', lambda: f'{suf!r} keep_x0={keep_x0} keep_cost={keep_cost} parametric={par} {ct} at {x} {u}', 1e-9, 1e-10)
                same_constraints(ctx, P, o, suf, [r for r in rows if r[0] == 'bx'] if keep_x0 and suf == '_0' else [], 'feas-constraints')
            same_dyn(ctx, P, o, 'feas-dynamics') if not par else None
            if case.get('phi') or case.get('phi0') or case.get('phie') or 1: consistent(ctx, o, 'feas-inconsistent', f'{keep_x0} {keep_cost} {par} {ct}')
            ctx.state('feas', keep_x0, keep_cost, par, ct, sorted(case.items()), )
            if ctx.viols: return


def k_lin(case, ctx):
    nx, nu = case['nx'], case['nu']
    r = lambda n, k, s: np.array([[0.3 * (i + 1) - 0.2 * j * s + 0.1 * k for j in range(n)] for i in range(k)]).reshape(k, n)
    ops = [(r(nx, k, s), r(nu, k, -s), -np.arange(1., k + 1) * s, np.arange(1., k + 1) + s) for k, s in ((1, 1), (2, 1), (1, 3))]
    for seq in mclib.sequences(range(len(ops)), case['depth']):
        P, o = mk(case); exp = {suf: ref_rows(P, suf) for suf in SUF}; n0 = case['g']
        for i in seq:
            C, D, lg, ug = ops[i]
            if ctx.accepts(lambda: (o.add_linear_constraint(C.copy(), D.copy(), lg.copy(), ug.copy()), 1), 'lin-rejected', f'{seq}') is None: return
            for suf in ('', '_0'):
                for a in range(C.shape[0]): exp[suf].append(('g', ca.mtimes(ca.DM(C[a:a + 1]), P.x) + (ca.mtimes(ca.DM(D[a:a + 1]), P.u) if nu else 0), lg[a], ug[a]))
        for suf in SUF: same_constraints(ctx, P, o, suf, exp[suf], 'lin-constraints')
        if consistent(ctx, o, 'lin-inconsistent', f'{seq}'):
            ctx.require(o.dims.ng == n0 + sum(ops[i][0].shape[0] for i in seq), 'lin-dims', f'ng {o.dims.ng} after {seq}')
            for suf in SUF: same_constraints(ctx, P, o, suf, exp[suf], 'lin-constraints')
        same_cost(ctx, P, o, 'lin-cost'); ctx.state('lin', sorted(case.items()), seq); ctx.trace()
        if ctx.viols: return
    C, D, lg, ug = ops[1]
    for bad in ((C[:1], D, lg, ug), (C, D[:1], lg, ug), (C, D, lg[:1], ug), (C, D, lg, ug[:1])):
        P, o = mk(case); ctx.rejects(lambda: o.add_linear_constraint(*bad), 'lin-accepted', f'shapes {[b.shape for b in bad]}')


def k_x0(case, ctx):
    P, o = mk(case, solverlib.name()); P1, o1 = mk(case, solverlib.name())
    snap = {suf: ref_rows(P, suf) for suf in SUF}
    o.remove_x0_elimination()
    for q in (o, o1): q.solver_options.nlp_solver_tol_stat = q.solver_options.nlp_solver_tol_eq = q.solver_options.nlp_solver_tol_ineq = q.solver_options.nlp_solver_tol_comp = 1e-9
    for suf in SUF: same_constraints(ctx, P, o, suf, snap[suf], 'x0-constraints')
    ctx.require(not o.constraints.has_x0 and len(o.constraints.idxbxe_0) == 0, 'x0-flag', f'has_x0 {o.constraints.has_x0} idxbxe_0 {o.constraints.idxbxe_0}')
    same_cost(ctx, P, o, 'x0-cost')
    s0, s1 = solverlib.solver(o), solverlib.solver(o1); N = P.s['N']
    a, b = s0.solve(), s1.solve()
    if not ctx.require(a == b == 0, 'x0-solve', f'status without elimination {a}, with {b}'): return
    T0, T1 = solverlib.traj(s0, N), solverlib.traj(s1, N)
    for k in range(N + 1): ctx.close(T0['x'][k], T1['x'][k], 'x0-solution', f'x of stage {k}', 1e-5, 1e-5)
    for k in range(N): ctx.close(T0['u'][k], T1['u'][k], 'x0-solution', f'u of stage {k}', 1e-5, 1e-5)
    R = ocpspec.Ref(P).kkt(T0['x'], T0['u'], T0['sl'], T0['su'], T0['pi'], T0['lam'])
    for q in ('stat', 'eq', 'ineq', 'comp'): ctx.require(R['ok'] and R[q] < 1e-5, 'x0-kkt', f'{q} {R}')
    ctx.state('x0', sorted(case.items()))


ROWS = ('x0', '-2*x1', 'x0+1', '3*u0-1', '-u1', '0.5*u1-0.25', 'x1+u0', '2*x0-x1+0.5', '-x0-u0-u1-2', 'x0*u0', 'ca.sin(x1)', 'p0*x0', 'pg0+u0', 'x0**2-1', 'ca.SX(0.3)' , '0*x0+x1')
BND = ((-0.5, 0.7), (-1e10, 0.4), (-0.3, 1e10), (0.2, 0.2))


def k_detect(case, ctx):
    from acados_template.mpc_utils import detect_constraint_structure
    n = len(ROWS)
    for depth in range(1, case['depth'] + 1):
        for rest in itertools.product(range(n), repeat=depth - 1):
            sel = (case['first'],) + rest
            for st in ('path', 'terminal', 'both'):
                P, o = mk(dict(sym=case['sym'], np=1, npg=1, bu=0, x0='none'))
                env = dict(ca=ca, x0=P.x[0], x1=P.x[1], u0=P.u[0], u1=P.u[1], p0=P.p[0], pg0=P.pg[0])
                txt = [ROWS[i] for i in sel]; es = [eval(t, env) for t in txt]; es = [type(P.x)(ca.DM(e)) if isinstance(e, ca.SX) and isinstance(P.x, ca.MX) else e for e in es]
                bd = [BND[(i + j) % 4] for j, i in enumerate(sel)]; lo, up = np.array([b[0] for b in bd]), np.array([b[1] for b in bd])
                usesu = any('u' in t for t in txt)
                sufs = {'path': ('',), 'terminal': ('_e',), 'both': ('_0', '')}[st]
                for suf in sufs: setattr(o.model, 'con_h_expr' + suf, ca.vertcat(*es)); setattr(o.constraints, 'lh' + suf, lo.copy()); setattr(o.constraints, 'uh' + suf, up.copy())
                what = f'{st}: {txt} in {bd}'
                try:
                    for suf in sufs: detect_constraint_structure(o.model, o.constraints, {'': 'path', '_e': 'terminal', '_0': 'initial'}[suf])
                except Exception as e:
                    ctx.require(st == 'terminal' and usesu and isinstance(e, ValueError), 'detect-rejected', lambda: f'{what}: {type(e).__name__} {e}'); continue
                if not ctx.require(not (st == 'terminal' and usesu), 'detect-terminal-u', what): continue
                for suf in sufs:
                    try: f, l2, u2, gr = conlib.fun(o, suf)
                    except AssertionError as e: ctx.viol('detect-inconsistent', f'{what}: {e}'); continue
                    fr = ca.Function('r', P.args(), [ca.vertcat(*es)])
                    for (x, u, z) in costlib.grid(2, 2, 0, vals=(-0.8, 0.1, 0.7), limit=30):
                        for p, pg in ((.5, .2), (-1., -.4)):
                            v, w = f(x, u, z, p, pg, 0).full().ravel(), fr(x, u, z, p, pg, 0).full().ravel()
                            if np.minimum(np.abs(w - lo), np.abs(w - up)).min() < 1e-9: continue
                            fa, fb = bool(((v >= l2) & (v <= u2)).all()), bool(((w >= lo) & (w <= up)).all())
                            if not ctx.require(fa == fb, 'detect-feasible', lambda: f'{what}: point x={x} u={u} p={p}: feasible before {fb}, after {fa}; groups {gr}, bounds {l2.tolist()} {u2.tolist()}'): break
                    ctx.require(sorted((l2 <= -1e10).tolist() + (u2 >= 1e10).tolist()) == sorted((lo <= -1e10).tolist() + (up >= 1e10).tolist()), 'detect-infinite', lambda: f'{what}: {l2.tolist()} {u2.tolist()}')
                    lin = [t for t in txt if not any(q in t for q in ('*u0' if t == 'x0*u0' else '@', 'sin', 'p0', 'pg0', '**'))]
                    nh = len(txt) - len(lin)
                    ctx.require(gr.count('h') == nh, 'detect-nonlinear-rows', lambda: f'{what}: {gr.count("h")} nonlinear rows left, {nh} are not affine in x, u')
                ctx.state('detect', case['sym'], sel, st); ctx.trace()
                if ctx.viols: return


def k_detect_bad(case, ctx):
    from acados_template.mpc_utils import detect_constraint_structure
    for bad in ('', 'foo', 'Path', None):
        P, o = mk(dict(h=1)); ctx.rejects(lambda: detect_constraint_structure(o.model, o.constraints, bad), 'detect-stage-type', repr(bad), ValueError); ctx.state('bad', repr(bad))
    for st in ('path', 'initial', 'terminal'):                       # nothing to detect
        P, o = mk(dict(bu=1, bx=1)); detect_constraint_structure(o.model, o.constraints, st)
        for suf in SUF: same_constraints(ctx, P, o, suf, ref_rows(P, suf), 'detect-nothing')
        ctx.state('nothing', st)


def k_t0(case, ctx):
    P, o = mk(dict(case, h=1, h0=1, he=1)); sym = case['sym']
    if ctx.accepts(lambda: (o.augment_with_t0_param(), 1), 't0-rejected') is None: return
    n = case['np']
    ctx.close(o.parameter_values, np.append(P.d['p'], 0.0), 't0-values', '', 0, 0); ctx.close(o.p_global_values, P.d['pg'], 't0-p_global', 'p_global_values', 0, 0)
    ctx.require(o.model.p.shape[0] == n + 1, 't0-p', 'length of p')
    f = ca.Function('f', [o.model.p], [o.model.t0]); v = np.arange(1., n + 2); ctx.close(f(v).full(), n + 1., 't0-symbol', 'model.t0 is the last entry of p')
    P2 = [(np.append(P.d['p'], .7), P.d['pg'])]
    for suf in SUF:
        a = ca.Function('a', costlib.args(o.model), [costlib.expr(o, suf if suf != '_0' else '')]); b = ca.Function('b', P.args(), [P.cost_expr(suf)])
        for (x, u, z) in pts(P, 5): ctx.close(a(x, u, z, P2[0][0], P.d['pg'], 0).full(), b(x, u, z, P.d['p'], P.d['pg'], 0).full(), 't0-cost', suf, 1e-12, 1e-12)
    ctx.rejects(lambda: o.augment_with_t0_param(), 't0-twice', 'second time parameter', ValueError)
    if consistent(ctx, o, 't0-inconsistent'): ctx.require(o.dims.np == n + 1 and o.dims.np_global == case['npg'], 't0-dims', f'np {o.dims.np} np_global {o.dims.np_global}')
    ctx.state('t0', sorted(case.items()))


def k_poly(case, ctx):
    nu, deg = case['nu'], case['deg']
    P, o = mk(dict(sym=case['sym'], nu=nu, np=case['np'], cost=case['cost'], coste=case['cost'], h=1, h0=1, he=1, t=case['t'] if case['cost'] != 'EXT' else 0, integ='IRK', bu=0))
    m = o.model; nm = m.name
    ev = ctx.accepts(lambda: m.reformulate_with_polynomial_control(deg), 'poly-rejected')
    if ev is None: return
    ctx.require(m.u.shape[0] == nu * (deg + 1) and m.nu_original == nu and m.p.shape[0] == case['np'], 'poly-dims', f'{m.u.shape} {m.nu_original} {m.p.shape}')
    ctx.require(m.name != nm, 'poly-name', 'model name unchanged')
    uc = np.array([0.5 * (i + 1) * (-1) ** i for i in range(nu * (deg + 1))]); xd = np.array([.3, -.2])
    for t in (0.0, 0.25, 1.0, 2.0):
        u = sum(t ** i * uc[i * nu:(i + 1) * nu] for i in range(deg + 1))
        ctx.close(ev(uc, t).full(), u, 'poly-eval', f't={t}', 1e-12, 1e-12)
        pairs = [('f_expl_expr', P.f), ('f_impl_expr', P.xdot - P.f), ('con_h_expr', P.c['h']), ('con_h_expr_0', P.c['h_0']), ('con_h_expr_e', P.c['h_e'])]
        if case['cost'] == 'EXT': pairs += [('cost_expr_ext_cost', P.ext['']), ('cost_expr_ext_cost_e', P.ext['_e'])]
        else: pairs += [('cost_y_expr', P.y['']), ('cost_y_expr_e', P.y['_e'])]
        if case['cost'] == 'CONL': pairs += [('cost_psi_expr', P.psi[''])]
        for k, ref in pairs:
            ex = [] if k != 'cost_psi_expr' else [(m.cost_r_in_psi_expr, P.r_in_psi[''])]
            fa = ca.Function('a', costlib.args(m) + [m.xdot] + [e[0] for e in ex], [getattr(m, k)]); fb = ca.Function('b', P.args() + [P.xdot] + [e[1] for e in ex], [ref])
            for x in ((.3, -.4), (-.7, .6)):
                xa = [np.arange(1., e[0].shape[0] + 1) for e in ex]
                ctx.close(fa(x, uc, [], P.d['p'], [], t, xd, *xa).full(), fb(x, u, [], P.d['p'], [], t, xd, *xa).full(), 'poly-' + k, f't={t} x={x} degree {deg}', 1e-11, 1e-12)
    ctx.rejects(lambda: m.reformulate_with_polynomial_control(deg), 'poly-twice', 'second reformulation', ValueError); ctx.state('poly', sorted(case.items()))


def k_cs(case, ctx):
    from acados_template.mpc_utils import create_model_with_cost_state
    P, o = mk(dict(case, coste=case['cost'], bu=2, bx=2, g=2, h=2)); n = P.s['nx']
    consistent(ctx, o, 'cs-machinery')
    before = {k: id(getattr(o.model, k)) for k in ('x', 'xdot', 'f_expl_expr', 'f_impl_expr', 'u', 'p')}
    r = ctx.accepts(lambda: create_model_with_cost_state(o), 'cs-rejected')
    if r is None: return
    m, pv = r
    ctx.close(pv, P.d['p'], 'cs-parameters', '', 0, 0); ctx.require(m.x.shape[0] == n + 1 and m.xdot.shape[0] == n + 1 and o.model.x.shape[0] == n and o.model.f_expl_expr.shape[0] == n, 'cs-dims', f'{m.x.shape} original {o.model.x.shape}')
    zl, zu, Zl, Zu, _, _ = P.slack(''); c = P.cost_expr('')
    for g, e, lo, up, si in P.constraints(''):
        if si >= 0: a, b = ca.fmax(lo - e, 0), ca.fmax(e - up, 0); c = c + zl[si] * a + .5 * Zl[si] * a ** 2 + zu[si] * b + .5 * Zu[si] * b ** 2
    ref = ca.Function('r', P.args() + [P.xdot], [ca.vertcat(P.f, c), P.xdot - P.f, c])
    fe = ca.Function('e', costlib.args(m) + [m.xdot], [m.f_expl_expr, m.f_impl_expr]); xd = np.array([.3, -.2, .9])
    for (x, u, z) in pts(P, 40):
        for cs in (0.0, 5.0):
            a, b = fe(np.append(x, cs), u, z, P.d['p'], P.d['pg'], 0, xd), ref(x, u, z, P.d['p'], P.d['pg'], 0, xd[:2]); a0, a1 = a[0].full().ravel(), a[1].full().ravel()
            ctx.close(a0[:n], b[0].full().ravel()[:n], 'cs-dynamics', 'explicit dynamics of the original states', 1e-11, 1e-12); ctx.close(a0[n], float(b[2]), 'cs-cost', lambda: f'cost derivative at {x} {u}', 1e-10, 1e-11)
            ctx.close(a1[:n], b[1].full(), 'cs-dynamics', 'implicit dynamics', 1e-11, 1e-12); ctx.close(a1[n], xd[2] - float(b[2]), 'cs-cost', 'implicit cost dynamics', 1e-10, 1e-11)
    ctx.state('cs', sorted(case.items()))


def k_ch(case, ctx):
    from acados_template.mpc_utils import create_ocp_with_control_horizon
    N, Nc, Nr = case['N'], case['Nc'], case['Nr']
    P, o = mk(dict(case), solverlib.name()); s = P.s; T = s['T']; Ts = T / N
    h1 = Ts * (N - Nc) / (Nr or max(N - Nc, 1)); M = Nr or (N - Nc); steps = [Ts] * Nc + [h1] * (M if Nc < N else 0)
    m = ctx.accepts(lambda: create_ocp_with_control_horizon(o, Nc, Nr) if Nr else create_ocp_with_control_horizon(o, Nc), 'ch-rejected')
    if m is None: return
    if Nc == N: ctx.require(m is o, 'ch-identity', 'Nc == N'); ctx.state('ch', sorted(case.items(), key=str)); return
    sol = ctx.accepts(lambda: solverlib.solver(m), 'ch-generate', 'the multi-phase problem cannot be generated')
    if sol is None: return
    st = sol.solve()
    if not ctx.require(st == 0, 'ch-solve', f'status {st}'): return
    # reference: original problem with the control held from stage Nc-1 on, on the documented grid
    d = P.d; nx, nu = s['nx'], s['nu']; K = len(steps)
    X = [ca.MX.sym(f'x{k}', nx) for k in range(K + 1)]; U = [ca.MX.sym(f'u{k}', nu) for k in range(Nc)]
    F = {h: P.sim_fun(h) for h in set(steps)}; J = 0; G, lo, up = [], [], []
    base = {suf: ca.Function('b', P.args(), [P.cost_expr(suf), ca.vertcat(*[c[1] for c in P.constraints(suf)]) if P.constraints(suf) else P.S(0, 1)]) for suf in SUF}
    for k in range(K + 1):
        suf = '_e' if k == K else ('_0' if k == 0 else ''); u = U[min(k, Nc - 1)] if k < K else ca.MX.zeros(nu)
        l, c = base[suf](X[k], u, [], d['p'], d['pg'], 0); J = J + l * (steps[k] if k < K else 1.0)
        G.append(c); lo += [r[2] for r in P.constraints(suf)]; up += [r[3] for r in P.constraints(suf)]
        if k < K: G.append(X[k + 1] - F[steps[k]](X[k], u, d['p'], d['pg'], 0)[0]); lo += [0.] * nx; up += [0.] * nx
    w = ca.vertcat(*X, *U)
    nl = ca.nlpsol('s', 'ipopt', dict(x=w, f=J, g=ca.vertcat(*G)), dict(print_time=False, ipopt=dict(print_level=0, tol=1e-10)))
    r = nl(x0=np.zeros(w.shape[0]), lbg=lo, ubg=up); 
    if not nl.stats()['success']: ctx.outcome('reference solver gave up'); return
    w0 = r['x'].full().ravel(); Xr = w0[:nx * (K + 1)].reshape(K + 1, nx); Ur = w0[nx * (K + 1):].reshape(Nc, nu)
    got = []
    nodes = list(range(Nc)) + list(range(Nc, Nc + M + 2))           # Nc-1 control stages, transition stage Nc-1, then M+1 intervals
    ctx.close(sol.get_cost(), float(r['f']), 'ch-cost', f'optimal cost, steps {steps}', 1e-5, 1e-6)
    for k in range(Nc - 1): ctx.close(sol.get(k, 'x'), Xr[k], 'ch-x', f'stage {k}', 2e-3, 2e-3); ctx.close(sol.get(k, 'u'), Ur[k], 'ch-u', f'stage {k}', 2e-3, 2e-3)
    ctx.close(sol.get(Nc - 1, 'u'), Ur[Nc - 1], 'ch-u', 'held control', 2e-3, 2e-3)
    for j in range(M + 2):
        xa = sol.get(Nc + j, 'x'); ctx.close(xa[:nx], Xr[Nc - 1 + j], 'ch-x', f'remaining horizon node {j}', 2e-3, 2e-3); ctx.close(xa[nx:], Ur[Nc - 1], 'ch-held', f'held control at node {j}', 2e-3, 2e-3)
    ctx.state('ch', sorted(case.items(), key=str)); ctx.sample(f'{case}: cost {float(r["f"])}')


def k_ch_bad(case, ctx):
    from acados_template.mpc_utils import create_ocp_with_control_horizon
    for Nc in (0, -1, 4, 10):
        P, o = mk(dict(N=3)); ctx.rejects(lambda: create_ocp_with_control_horizon(o, Nc), 'ch-Nc', f'Nc={Nc}', ValueError); ctx.state('ch_bad', Nc)
    P, o = mk(dict(N=3)); o.solver_options.integrator_type = 'GNSF'; ctx.rejects(lambda: create_ocp_with_control_horizon(o, 1), 'ch-integrator', 'GNSF', ValueError)


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], timeout=180, chunk=8, jobs=8))
