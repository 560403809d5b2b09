"""Penalty functions: every combination of a grid of lengths, slopes/curvatures, Hessian floors and arguments (all branches, both sides of every
kink) against the piecewise definition.  Evaluator: every formulation within a bounded number of deviations from a base OCP, every stage, points
of a grid inside and outside all bounds, parameters given at construction, per call and taken from a solver, against an independent model."""
import io, sys, itertools, contextlib, warnings
import numpy as np, casadi as ca
import mclib, ocpspec, costlib

PID = 'C29'
ASSUME = ['whole-trajectory cost only for formulations whose initial stage cost is the path cost and whose initial stage has no slacks (documented limitation of the evaluator)', 'zero slack lower bounds']
DEL, TAU, MH = (0.05, 0.3, 1.0, 2.5), (0.1, 1.0, 7.0), (0.0, 1e-3, 0.8, 50.0)

SOFTS = ((), ('bx',), ('h',), ('bx*', 'h*'), ('bx_e',), ('bx_e*', 'h_e*'), ('bx*', 'g', 'h*', 'bx_e*', 'g_e*', 'h_e*'), ('bu', 'bx', 'g*', 'h', 'h_e'), ('bu*', 'bx*', 'g*', 'h*', 'bx_e*', 'g_e*', 'h_e*'))
ALTS = dict(sym=['MX'], N=[1, 2, 5], np=[1, 2, 3], npg=[1, 2], cost=['LLS', 'CONL', 'EXT'], coste=['LLS', 'CONL', 'EXT'], cost0=['NLS', 'EXT'], scaling=['custom', 'ones'], grid=['steps', 'nodes'],
            bu=[0, 2], bx=[1, 2], bxe=[1, 2], g=[1, 2], ge=[1, 2], h=[1, 2], he=[1, 2], soft=SOFTS[1:], nx=[1, 3], nu=[1], onesided=[1])


def valid(c):
    n = dict(bu=min(c['bu'], c['nu']), bx=min(c['bx'], c['nx']), g=c['g'], h=c['h'], bx_e=min(c['bxe'], c['nx']), g_e=c['ge'], h_e=c['he'])
    return all(n[g.rstrip('*')] for g in c['soft']) and not ('CONL' in (c['cost'], c['coste'], c['cost0']) and 'EXT' in (c['cost'], c['coste'], c['cost0']))


def cases(tier):
    for fn in ('loss', 'one', 'sym'):
        for d in DEL: yield dict(kind='huber', fn=fn, delta=d)
    yield dict(kind='huber_bad')
    base = {k: ocpspec.DEFAULT[k] for k in ALTS}; base.update(N=3)
    full = dict(base, bx=2, bxe=2, bu=2, g=2, ge=2, h=2, he=2)
    seen = set()
    for b, k in ((base, 2), (full, 2 if tier == 'quick' else 3)):
        for c in mclib.lattice(b, ALTS, k, valid):
            h = mclib.digest(sorted(c.items(), key=lambda t: t[0]))
            if h in seen: continue
            seen.add(h); yield dict(kind='eval', **c)
    yield dict(kind='eval_bad')
    for c in (dict(), dict(cost='EXT', coste='EXT'), dict(scaling='custom'), dict(soft=('bx*', 'h*')), dict(soft=('bx*', 'h*', 'bx_e*', 'h_e*')), dict(cost='LLS', coste='LLS', soft=('bx_e*', 'h_e*')), dict(sym='MX', grid='steps'), dict(N=1), dict(N=1, soft=('bx_e*', 'h_e*'))):
        for np_ in (0, 1, 3):
            for npg in (0, 1): yield dict(kind='solver', **dict(dict(base, bx=2, bxe=2, h=2, he=2, np=np_, npg=npg), **c))


def setup(tier):
    import solverlib; solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


# --------------------------------------------------------------------------------------------------------- penalties
def ref_loss(v, d, tau):
    """value, slope, curvature of (tau/delta) huber, and slope / argument"""
    k = tau / d; a = abs(v)
    if a < d: return k * v * v / 2, k * v, k, k
    return k * d * (a - d / 2), k * d * np.sign(v), 0.0, k * d / a


def ref_one(u, d, tau):
    """penalty for u <= 0: 0, then w u^2 / 2 on [0, 2 delta], then slope tau"""
    w = tau / (2 * d)
    xgn = 0.5 * ref_loss(u - d, d, tau)[3]
    if u <= 0: return 0.0, 0.0, 0.0, xgn
    if u <= 2 * d: return w * u * u / 2, w * u, w, xgn
    return w * 2 * d * d + tau * (u - 2 * d), tau, 0.0, xgn


def ref_sym(u, d, tau):
    p, g, h, x = ref_one(abs(u) - 1, d, tau)
    return p, g * np.sign(u), h, x


def k_huber(case, ctx):
    import acados_template.penalty_utils as pu
    fn, d = case['fn'], case['delta']
    for S in (ca.SX, ca.MX):
        for mode, t in itertools.product(('tau', 'w') if fn != 'loss' else ('tau',), TAU):
            for mh in (MH if fn != 'loss' else (None,)):
                u = S.sym('u')
                tau = t if mode == 'tau' else 2 * t * d
                if fn == 'loss': ex = pu.huber_loss(u, d, t); ref = ref_loss; kinks = (-d, d)
                else:
                    ex = {'one': pu.one_sided_huber_penalty, 'sym': pu.symmetric_huber_penalty}[fn](u, d, **{mode: t}, **({} if mh == 0.0 and t == TAU[0] else dict(min_hess=mh)))
                    ref = {'one': ref_one, 'sym': ref_sym}[fn]; kinks = (0, 2 * d) if fn == 'one' else (1, 1 + 2 * d, -1, -1 - 2 * d)
                if not ctx.require(len(ex) == 4, 'huber-arity', fn): return
                f = ca.Function('f', [u], list(ex))
                pts = sorted({k + s * e for k in kinks for e in (0, 1e-6, 0.3 * d, 0.9 * d, 1.7 * d, 3 * d, 20 * d) for s in (1, -1)} | {0.0, 1e-3, -1e-3, 100., -100., .5, -.5})
                for v in pts:
                    got = [float(q) for q in f(v)]; exp = ref(v, d, tau); tag = lambda: f'{fn} delta={d} {mode}={t} min_hess={mh} at {v} ({S.__name__})'
                    near = any(abs(v - k) < 1e-7 for k in kinks)
                    ctx.close(got[0], exp[0], f'{fn}-penalty', tag, 1e-9, 1e-10 * (1 + tau))
                    ctx.close(got[1], exp[1], f'{fn}-gradient', tag, 1e-9, 1e-9 * (1 + tau))
                    m = mh or 0.0
                    if not near: ctx.close(got[2], max(m, exp[2]) if m > 0 else exp[2], f'{fn}-hessian', tag, 1e-9, 1e-10)
                    if fn == 'sym' and v == 0: continue                                   # the Gauss-Newton Hessian has no distinguished side there
                    ctx.close(got[3], max(m, exp[3]) if m > 0 else exp[3], f'{fn}-xgn-hessian', tag, 1e-9, 1e-10)
                    ctx.require(got[3] >= 0 and got[3] >= got[2] - 1e-12 or near, f'{fn}-xgn-convex', tag)
                    ctx.state(fn, d, mode, t, mh, v, S.__name__); ctx.trace()
                if ctx.viols: return


def k_huber_bad(case, ctx):
    import acados_template.penalty_utils as pu
    for f in (pu.one_sided_huber_penalty, pu.symmetric_huber_penalty):
        for d, kw in itertools.product((0.1, 1.0), (dict(), dict(tau=1.0, w=1.0), dict(tau=None, w=None), dict(tau=1.0, w=2.0, min_hess=.1))):
            ctx.rejects(lambda: f(ca.SX.sym('u'), d, **kw), 'huber-args', f'{f.__name__} delta {d} {kw}', ValueError); ctx.state(f.__name__, d, sorted(kw))
        for d in (-1e-9, -1.0):
            for kw in (dict(tau=1.0), dict(w=1.0)): ctx.rejects(lambda: f(ca.SX.sym('u'), d, **kw), 'huber-delta', f'{f.__name__} delta {d}', ValueError); ctx.state(f.__name__, d, sorted(kw))
    ctx.trace()


# --------------------------------------------------------------------------------------------------------- evaluator
class Model:
    """stage cost and violations of a formulation, from its definition"""
    def __init__(self, P):
        self.P = P; self.sc = P.scaling()
        self.c = {k: P.constraints(k) for k in ('', '_e')}
        self.f = {k: ca.Function('f', P.args(), [P.cost_expr(k), ca.vertcat(*[r[1] for r in self.c[k]]) if self.c[k] else P.S(0, 1)]) for k in ('', '_e')}

    def stage(self, suf, x, u, p, pg):
        P = self.P; nz = P.s['nz']
        l, v = self.f[suf](x, u if suf != '_e' else np.zeros(P.s['nu']), np.zeros(nz), p, pg, 0.0); v = v.full().ravel()
        zl, zu, Zl, Zu, _, _ = P.slack(suf)
        lo = np.array([max(r[2] - a, 0) for r, a in zip(self.c[suf], v)]); up = np.array([max(a - r[3], 0) for r, a in zip(self.c[suf], v)])
        hard = [i for i, r in enumerate(self.c[suf]) if r[4] < 0]; soft = sorted((r[4], i) for i, r in enumerate(self.c[suf]) if r[4] >= 0); soft = [i for _, i in soft]
        sl, su = (lo[soft], up[soft]) if soft else (np.zeros(0), np.zeros(0))
        return dict(cost_without_slacks=float(l), cost_slacks=float(zl @ sl + zu @ su + .5 * Zl @ sl ** 2 + .5 * Zu @ su ** 2),
                    soft=np.concatenate((sl, su)), hard=np.concatenate((lo[hard], up[hard])) if hard else np.zeros(0), sl=sl, su=su)


def points(s):
    return costlib.grid(s['nx'], s['nu'], vals=(-0.6, 0.15, 1.3), limit=24)


def k_eval(case, ctx):
    from acados_template import AcadosCostConstraintEvaluator, AcadosOcpIterate
    c = {k: v for k, v in case.items() if k != 'kind'}; c['soft'] = tuple(c['soft'])
    s = ocpspec.spec(**c)
    if 'EXT' in (s['cost'], s['coste'], s['cost0']): s['opts'] = dict(hessian_approx='EXACT')
    P = ocpspec.Problem(s); o = P.ocp('ev'); o.code_gen_options.acados_lib_path = libdir()
    N, np_, npg = s['N'], s['np'], s['npg']
    ev = ctx.accepts(lambda: AcadosCostConstraintEvaluator(o), 'evaluator-rejected')
    if ev is None: return
    M = Model(P); pts = points(s)
    ctx.close(ev.p_global_values, P.d['pg'], 'p_global_values', '', 0, 0)
    dp = np.array(ev.parameter_values)
    for k in range(N):
        if np_: ctx.close(dp[:, k], P.d['p'], 'parameter_values', f'stage {k}', 0, 0)
    alt_p = np.array([[0.2 * (i + 1) - 0.15 * k for k in range(dp.shape[1])] for i in range(np_)]).reshape(np_, dp.shape[1]); alt_g = P.d['pg'] + 0.3
    for j, (x, u) in enumerate(pts):
        for k in range(N):
            for p, pg in (((None, None), (alt_p, alt_g)) if np_ or npg else ((None, None),)):
                r = ev.evaluate(x, u, step=k, p=p, p_global=pg) if k or p is not None else ev.evaluate(x, u)
                e = M.stage('', x, u, P.d['p'] if p is None else alt_p[:, k], P.d['pg'] if pg is None else alt_g)
                t = lambda: f'stage {k} point {j} x={x} u={u} given parameters {p is not None}'
                ctx.close(r['cost_without_slacks'], M.sc[k] * e['cost_without_slacks'], 'stage-cost', t, 1e-9, 1e-11)
                ctx.close(r['cost_slacks'], M.sc[k] * e['cost_slacks'], 'slack-cost', t, 1e-9, 1e-11)
                ctx.close(r['cost'], M.sc[k] * (e['cost_without_slacks'] + e['cost_slacks']), 'total-cost', t, 1e-9, 1e-11)
                ctx.close(np.array(r['violation_soft_constraints'], float), e['soft'], 'soft-violation', t, 1e-9, 1e-11)
                ctx.close(np.array(r['violation_hard_constraints'], float), e['hard'], 'hard-violation', t, 1e-9, 1e-11)
                ctx.trace(); ctx.state(sorted(c.items()), j, k, p is None)
        if ctx.viols: return
    # whole trajectories
    if s['cost0'] or any(g.rstrip('*') in ('bu', 'g') for g in s['soft']): return
    from itertools import islice
    for j in range(4):
        X = [pts[(j + 3 * k) % len(pts)][0] for k in range(N + 1)]; U = [pts[(2 * j + k) % len(pts)][1] for k in range(N)]
        it = AcadosOcpIterate(x=X, u=U, z=[np.zeros(0)] * N, sl=[np.zeros(0)] * (N + 1), su=[np.zeros(0)] * (N + 1), pi=[np.zeros(s['nx'])] * N, lam=[np.zeros(0)] * (N + 1))
        for p, pg in (((None, None), (alt_p, alt_g), (None, alt_g), (alt_p, None)) if np_ or npg else ((None, None),)):
            got = ev.evaluate_ocp_cost(it, p, pg) if p is not None else ev.evaluate_ocp_cost(it, p_global=pg); tot = 0.0
            for k in range(N + 1):
                pk = P.d['p'] if p is None else alt_p[:, k]; gk = P.d['pg'] if pg is None else alt_g
                e = M.stage('' if k < N else '_e', X[k], U[k] if k < N else None, pk, gk)
                tot += M.sc[k] * (e['cost_without_slacks'] + (e['cost_slacks'] if k else 0))
            ctx.close(float(got), tot, 'trajectory-cost', lambda: f'trajectory {j}, parameters given {p is not None}, {pg is not None}', 1e-9, 1e-10); ctx.trace(); ctx.state('traj', sorted(c.items()), j, p is None, pg is None)
    if np_: ctx.rejects(lambda: ev.evaluate(*pts[0], p=np.zeros((np_ + 1, dp.shape[1]))), 'parameter-shape', 'p of wrong shape', ValueError)
    if npg: ctx.rejects(lambda: ev.evaluate(*pts[0], p_global=np.zeros(npg + 1)), 'parameter-shape', 'p_global of wrong shape', ValueError)


def k_eval_bad(case, ctx):
    from acados_template import AcadosCostConstraintEvaluator
    for c in (dict(integ='IRK', nz=1), dict(phi=1)):
        P = ocpspec.Problem(ocpspec.spec(**c)); o = P.ocp('ev'); o.code_gen_options.acados_lib_path = libdir()
        ctx.rejects(lambda: AcadosCostConstraintEvaluator(o), 'unsupported', str(c), NotImplementedError); ctx.state(sorted(c))
    o = ocpspec.Problem(ocpspec.spec()).ocp('ev'); o.code_gen_options.acados_lib_path = libdir()
    ctx.rejects(lambda: AcadosCostConstraintEvaluator(o, with_parametric_bounds=True), 'unsupported', 'parametric bounds', NotImplementedError); ctx.trace()


def libdir():
    import os
    return os.path.join(os.environ['ACADOS_SOURCE_DIR'], 'lib')


def k_solver(case, ctx):
    import solverlib
    from acados_template import AcadosCostConstraintEvaluator
    c = {k: v for k, v in case.items() if k != 'kind'}; c['soft'] = tuple(c['soft']); s = ocpspec.spec(**c)
    if 'EXT' in (s['cost'], s['coste']): s['opts'] = dict(hessian_approx='EXACT')
    P = ocpspec.Problem(s); nm = solverlib.name(); o = P.ocp(nm); N = s['N']
    sol = solverlib.solver(o, nm, save_p_global=True); ev = AcadosCostConstraintEvaluator(o)
    sol.options_set('tol_stat', 1e-9); sol.options_set('tol_eq', 1e-9); sol.options_set('tol_ineq', 1e-9); sol.options_set('tol_comp', 1e-9)
    for rnd in range(3):
        if rnd:
            for k in range(N + 1):
                if s['np']: sol.set(k, 'p', P.d['p'] * (1 + 0.1 * rnd) + 0.02 * k)
            if s['npg']: sol.set_p_global_and_precompute_dependencies(P.d['pg'] + 0.05 * rnd)
            ev.update_all(sol)
        st = sol.solve()
        if not ctx.require(st == 0, 'not-solved', f'status {st}'): return
        ctx.close(ev.evaluate_ocp_cost(sol.store_iterate_to_obj()), sol.get_cost(), 'solver-cost', f'round {rnd}', 1e-6, 1e-6)
        ctx.trace(); ctx.state(sorted(c.items()), rnd)
        if not (s['np'] or s['npg']): break


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], timeout=180, chunk=12, jobs=8))
