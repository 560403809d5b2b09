"""C05: real-time iterations of the real solver.  (split) for every formulation, option set, starting point and pair of initial states: preparation, change of the initial state, feedback gives the iterate of one combined
call and of one full SQP step, and the result satisfies the KKT conditions of the QP linearized at the starting point by an independent evaluation; (hist) every sequence of phases, initial state and parameter
changes up to a depth, after which one preparation and feedback from the iterate reached must equal the combined call of a fresh solver put at that iterate; (as) closed loops with the advanced step levels A to D and
1 or 2 inner iterations: the prepared iterate has to solve the QP the level documents (matrices of the last linearization; values, bounds and gradient at the point the level says; initial state predicted
by the integrator) and the feedback the QP linearized at the prepared iterate with the new initial state."""
import sys, copy, itertools, warnings, numpy as np
import mclib, solverlib, ocpspec
import C01, C10, C12
PID = 'C05'
ASSUME = ['dimension bounds nx<=3 nu<=2 N<=4', 'implicit integrators converged to 1e-12 (the number of Newton iterations otherwise depends on the history)', 'levels B and C only for the formulations they support (documented: external or convex-over-nonlinear cost; B hard constraints; C linear constraints)',
          'a feedback phase is only called after a preparation or a combined call']
B0 = dict(C01.BASE)
PROBS = {k: C12.PROBS[k] for k in ('nls', 'bx', 'h', 'hall', 'phi', 'soft', 'softall', 'conl', 'lls', 'irk', 'disc', 'par', 'x1', 'onesided', 'irkz', 'gnsf', 'grid') if k in C12.PROBS}
PROBS.update(ext=dict(B0, cost='EXT', coste='EXT', cost0='EXT', nl='h'), exts=dict(B0, cost='EXT', coste='EXT', cost0='EXT', bx=1, bu=2, lin='gge'), mix=dict(B0, cost='LLS', cost0='EXT', coste='NLS', bx=1, nl='hall'))
X = dict(hessian_approx='EXACT')
OPTS = {'gn': {}, 'cond1': dict(qp_solver_cond_N=1), 'full': dict(qp_solver='FULL_CONDENSING_HPIPM'), 'lm': dict(levenberg_marquardt=0.4), 'exact': dict(X, regularize_method='NO_REGULARIZE', levenberg_marquardt=5.0), 'proj': dict(X, regularize_method='PROJECT'),
        'mirror': dict(X, regularize_method='MIRROR'), 'projred': dict(X, regularize_method='PROJECT_REDUC_HESS'), 'gersh': dict(X, regularize_method='GERSHGORIN_LEVENBERG_MARQUARDT'), 'fix.5': dict(globalization_fixed_step_length=0.5),
        'fixd': dict(globalization_fixed_step_length=0.7, globalization_full_step_dual=1), 'ws': dict(qp_solver_warm_start=1), 'ric0': dict(qp_solver_ric_alg=0),
        'fullproj': dict(X, regularize_method='PROJECT', qp_solver='FULL_CONDENSING_HPIPM'), 'cond1proj': dict(X, regularize_method='PROJECT', qp_solver_cond_N=1), 'noelim': dict(), 'warm2': dict(qp_solver_warm_start=2, nlp_solver_warm_start_first_qp=True, nlp_solver_warm_start_first_qp_from_nlp=False)}
AS = {'A': 0, 'B': 1, 'C': 2, 'D': 3}
NOEXACT = ('phi', 'irkz', 'gnsf', 'conl')
IT = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')


def ok(p, o): return not (OPTS[o].get('hessian_approx') and p in NOEXACT)


def cases(tier):
    q = tier == 'quick'
    for p, o in itertools.product(PROBS, OPTS):
        if not ok(p, o): continue
        if q and p in ('x1', 'grid', 'onesided', 'bx', 'lls', 'par') and o not in ('gn', 'full', 'proj', 'lm'): continue
        yield dict(kind='split', p=p, o=o, ns=3 if q else 12)
    for p, o in itertools.product(PROBS, ['gn', 'full', 'proj', 'lm', 'ws', 'cond1proj', 'fixd', 'projred']):
        if not ok(p, o) or q and (o in ('ws', 'cond1proj', 'fixd', 'projred') and p not in ('nls', 'hall', 'softall')): continue
        yield dict(kind='hist', p=p, o=o, depth=3 if q else 5)
    for p, o, l in itertools.product(PROBS, ['gn', 'cond1', 'full', 'lm'], AS):
        if l in 'BC' and p not in ('ext', 'exts', 'conl'): continue
        if l == 'C' and p != 'exts': continue
        if q and o == 'cond1' and p not in ('nls', 'exts', 'hall'): continue
        for it in ((1, 2) if l != 'A' else (1,)): yield dict(kind='as', p=p, o=o, l=l, it=it, n=3 if q else 6, ns=2 if q else 6)


def setup(tier): solverlib.setup()
def run(case, ctx): warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


def make(p, o, **opts):
    P = ocpspec.Problem(C01.expand(dict(PROBS[p], x0='x0'))); ocp = P.ocp(solverlib.name()); q = ocp.solver_options
    for k, v in dict(OPTS[o], **opts).items(): setattr(q, k, v)
    q.sim_method_newton_iter = 40; q.sim_method_newton_tol = 1e-12
    for t in ('stat', 'eq', 'ineq', 'comp'): setattr(q, 'qp_solver_tol_' + t, 1e-10)
    q.qp_solver_iter_max = 200
    if o in ('full', 'fullproj'): q.qp_solver_cond_N = P.s['N']
    if o == 'noelim': ocp.constraints.remove_x0_elimination()
    return P, ocp


def rti(p, o, **opts):
    P, ocp = make(p, o, nlp_solver_type='SQP_RTI', **opts); return P, solverlib.solver(ocp, ocp.name)


def x0s(P): return [P.d['x0'], P.d['x0'] + 0.15 * np.cos(2 + np.arange(P.s['nx'])), P.d['x0'] * 0.7 - 0.1]
def setx0(S, x): [S.set(0, f, x) for f in ('lbx', 'ubx')]
def it(S): return {f: S.get_flat(f) for f in IT}
def load(S, w): [S.set_flat(f, w[f]) for f in IT if w[f].size]
def phase(S, ph): S.options_set('rti_phase', ph); return S.solve()


def near(ctx, a, b, key, msg, tol):
    s = 1 + max(np.abs(v).max() for v in b.values() if v.size)
    return all([ctx.close(a[f], b[f], key, f'{msg}: {f}', tol, tol * s) for f in IT])


def scale(pt, w): return 1 + max([0.0] + [np.abs(v).max() for v in w.values() if v.size] + [np.abs(g).max() for k in range(pt.N + 1) for g in [pt.grad(k)] if g.size])


class I: pass
def point(P, x0, w):
    """values at an iterate, for the problem with this initial state"""
    old = P.d['x0']; P.d['x0'] = np.asarray(x0, float); R = ocpspec.Ref(P); N = R.N; q = I(); o = {}
    for f in ('x', 'u', 'sl', 'su', 'pi', 'lam'):
        n = {'x': [P.s['nx']] * (N + 1), 'u': [P.s['nu']] * N, 'pi': [P.s['nx']] * N, 'sl': [len(R.slk[k][0]) for k in range(N + 1)], 'su': [len(R.slk[k][0]) for k in range(N + 1)], 'lam': [2 * len(R.cons[k]) + 2 * len(R.slk[k][0]) for k in range(N + 1)]}[f]
        setattr(q, f, np.split(w[f], np.cumsum(n)[:-1]) if n else [])
    pt = C12.Point(R, q); P.d['x0'] = old; pt.P = P; pt.x0 = x0; return pt


def step(a, b): return [y - x for x, y in zip(a.w(), b.w())]


def kkt(ctx, lin, d, new, gap, v, key, msg, lm=0.0, tol=2e-6):
    """the step d with the multipliers of new solves the QP with the matrices of lin and the given constants"""
    P = lin.P; old = P.d['x0']; P.d['x0'] = lin.x0; r = C12.qp_residual(lin, C10.Blocks(P, lin.R), d, new.PI, new.LAM, gap, v, lm); P.d['x0'] = old
    s = 1 + max([np.abs(x).max() for L in (d, new.PI, new.LAM) for x in L if x.size] + [np.abs(lin.grad(k)).max() for k in range(lin.N + 1)])
    bad = {k: float(x) for k, x in r.items() if not x <= tol * s}; ctx.trans(len(r))
    return ctx.require(not bad, key, f'{msg}: {bad}')


GN = ('gn', 'cond1', 'full', 'lm', 'ws', 'ric0', 'noelim', 'warm2')


def k_split(case, ctx):
    p, o = case['p'], case['o']; P, S = rti(p, o); _, o2 = make(p, o, nlp_solver_type='SQP', nlp_solver_max_iter=1); Q = solverlib.solver(o2, o2.name); R = ocpspec.Ref(P); xs = x0s(P)
    for i in range(case['ns']):
        for a, b in ((0, 0), (0, 1), (1, 2), (2, 0)):
            tag = f'{p}/{o} start {i} initial states {a}->{b}'; st = C12.start(i); ctx.trace(); ctx.state(p, o, i, a, b)
            S.reset(); C12.put(S, R, st); w = it(S); setx0(S, xs[a]); phase(S, 1); prep = it(S)
            if not all(np.array_equal(prep[f], w[f]) for f in IT if f != 'z'): ctx.viol('prep-moves', f'{tag}: the preparation changed the iterate')
            setx0(S, xs[b]); s1 = phase(S, 2); split = it(S)
            S.reset(); C12.put(S, R, st); setx0(S, xs[b]); s0 = phase(S, 0); one = it(S)
            Q.reset(); C12.put(Q, R, st); setx0(Q, xs[b]); s2 = Q.solve(); sqp = it(Q)
            if 4 in (s1, s0) or not np.isfinite(one['x']).all(): ctx.require(s1 == s0, 'split-status', f'{tag}: status {s1} in two calls, {s0} in one'); ctx.outcome('QP failed'); continue
            ctx.require(s1 == s0 == 0, 'split-status', f'{tag}: status {s1} in two calls, {s0} in one')
            if S.get_stats('qp_stat')[-1]: ctx.outcome('QP not solved to tolerance'); continue
            if not near(ctx, split, one, 'split', f'{tag}: preparation+feedback against one call', 1e-6): return
            if not near(ctx, one, sqp, 'sqp', f'{tag}: one real-time iteration against one SQP step', 1e-6): return
            if o in GN:
                A = point(P, xs[b], w); B = point(P, xs[b], split)
                if not kkt(ctx, A, step(A, B), B, A.gap, A.v, 'kkt', f'{tag}: the result does not solve the QP linearized at the start', OPTS[o].get('levenberg_marquardt', 0.0)): return
            ctx.outcome('split')


def k_hist(case, ctx):
    p, o, depth = case['p'], case['o'], case['depth']; P, S = rti(p, o); R = ocpspec.Ref(P); xs = x0s(P); from acados_template import AcadosOcpSolver
    pars = [P.d['p'], P.d['p'] * 1.1] if P.s['np'] else None
    F = AcadosOcpSolver(S.acados_ocp, generate=False, build=False, verbose=False)
    acts = ['1', '2', '0', 'x1', 'x2'] + (['p'] if pars else [])
    for seq in itertools.product(acts, repeat=depth):
        if seq[-1] in ('x1', 'x2', 'p') or '2' in seq and not any(c in '01' for c in seq[:seq.index('2')]): continue
        S.reset(); C12.put(S, R, C12.start(1)); setx0(S, xs[0]); x = xs[0]; pv = 0; fail = False; pars and [S.set(k, 'p', pars[0]) for k in range(R.N + 1)]
        for c in seq:
            if c[0] == 'x': x = xs[int(c[1])]; setx0(S, x)
            elif c == 'p': pv = 1 - pv; [S.set(k, 'p', pars[pv]) for k in range(R.N + 1)]
            elif phase(S, int(c)) == 4 or not np.isfinite(S.get_flat('x')).all(): fail = True; break
        ctx.trace()
        if fail or np.abs(S.get_flat('x')).max() > 1e3: ctx.outcome('QP failed on the way'); continue
        w = it(S); xd, zg = {}, {}
        F.reset(); load(F, w); setx0(F, x); pars and [F.set(k, 'p', pars[pv]) for k in range(R.N + 1)]
        s0 = phase(F, 0); ref = it(F); phase(S, 1); s1 = phase(S, 2); got = it(S); ctx.state(p, o, seq)
        if 4 in (s0, s1): ctx.outcome('QP failed'); continue
        if F.get_stats('qp_stat')[-1] or S.get_stats('qp_stat')[-1]: ctx.outcome('QP not solved to tolerance'); continue
        if not near(ctx, got, ref, 'hist', f'{p}/{o} after {"".join(s[0] if s[0] != "x" else s for s in seq)}: preparation+feedback against a fresh solver at that iterate', 2e-6): return
    ctx.outcome('hist')


def k_as(case, ctx):
    p, o, l, K = case['p'], case['o'], case['l'], case['it']; P, S = rti(p, o, as_rti_level=AS[l], as_rti_iter=K); R = ocpspec.Ref(P); N = R.N; nx = P.s['nx']; xs = x0s(P); lm = OPTS[o].get('levenberg_marquardt', 0.0)
    S1 = rti(p, o, as_rti_level=AS[l], as_rti_iter=1)[1] if K == 2 and l in 'BC' else None; T = rti(p, o)[1] if l == 'D' else None
    from acados_template import AcadosOcpSolver
    for i in range(case['ns']):
        if o == 'full' and i: S, S1 = (s and AcadosOcpSolver(s.acados_ocp, generate=False, build=False, verbose=False, save_p_global=True) for s in (S, S1))      # documented: reset() restarts the QP solver and with it the advanced steps only for partial condensing
        tag0 = f'{p}/{o} level {l} iter {K} start {i}'; S.reset(); C12.put(S, R, C12.start(i)); x = xs[0]; setx0(S, x); lin = None
        if S1: S1.reset(); C12.put(S1, R, C12.start(i)); setx0(S1, x)
        for j in range(case['n']):
            tag = f'{tag0} sample {j}'; w = it(S); cur = point(P, x, w); ctx.trace(); ctx.state(p, o, l, K, i, j)
            st = phase(S, 1); wp = it(S); S1 and j < 2 and phase(S1, 1)
            if st == 4: ctx.outcome('QP failed'); break
            if max(np.abs(wp['x']).max(), np.abs(wp['pi']).max()) > 1e4: ctx.outcome('diverging'); break
            qs = S.get_stats('qp_stat') if j or l == 'D' else np.zeros(1)
            if np.any(np.asarray(qs)): ctx.outcome('QP not solved to tolerance'); break
            xh = cur.E[0]['xn'] if j else x         # the first call does not advance
            if j == 0 and l != 'D':
                if not ctx.require(all(np.array_equal(wp[f], w[f]) for f in IT if f != 'z'), 'as-first', f'{tag}: the first preparation changed the iterate'): return
            elif l == 'D':
                T.reset(); load(T, w); setx0(T, xh); ts = [phase(T, 0) for _ in range(K)]
                if 4 in ts: ctx.outcome('QP failed'); break
                if not near(ctx, wp, it(T), 'as-D', f'{tag}: prepared iterate against {K} full steps', 1e-6): return
            else:
                c = cur if K == 1 or l == 'A' else point(P, xh, w1) if (w1 := it(S1)) and j == 1 else None
                if c is not None:
                    new = point(P, xh, wp); L = point(P, xh, linw); c = point(P, xh, {f: v for f, v in zip(IT, [None] * 7)} if False else (w if c is cur else w1)); D = step(L, new)
                    if l == 'A': gap, v, d = L.gap, L.v, D
                    elif l == 'B':
                        h = step(L, c); gap = [c.gap[k] - L.lin_gap(h, k) for k in range(N)]; v = [c.v[k] - L.jac(k) @ h[k] for k in range(N + 1)]; d = D
                    else:
                        d = step(c, new); gap, v = c.gap, c.v; g = [c.grad(k).copy() for k in range(N + 1)]
                        for k in range(N): m = c.E[k]['A'].shape[1]; g[k][:m] += (c.E[k]['A'] - L.E[k]['A']).T @ c.PI[k]
                        L.grad = lambda k: g[k]
                    if not kkt(ctx, L, d, new, gap, v, 'as-' + l, f'{tag}: the prepared iterate does not solve the documented QP', lm, 5e-6): return
            linw = wp; x = xs[(j + 1) % 3] if j % 2 == 0 else np.array(R.eval(0, *[np.split(wp['x'], N + 1)[0], np.split(wp['u'], N)[0]])['xn']) + 0.05
            setx0(S, x); s = phase(S, 2); wf = it(S)
            if S1 and j < 1: setx0(S1, x); phase(S1, 2)
            if s == 4: ctx.outcome('QP failed'); break
            if np.any(np.asarray(S.get_stats('qp_stat'))[-1:]): ctx.outcome('QP not solved to tolerance'); break
            L = point(P, x, wp); new = point(P, x, wf)
            if not kkt(ctx, L, step(L, new), new, L.gap, L.v, 'as-feedback', f'{tag}: the feedback does not solve the QP linearized at the prepared iterate', lm, 5e-6): return
            ctx.outcome('as ' + l)


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=400, chunk=1, jobs=8))
