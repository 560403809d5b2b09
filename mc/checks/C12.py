"""C12: for every formulation, globalization method, option and starting point within the bounds the real SQP solver is run with all iterates stored, and the complete trace is replayed by an independent automaton of the documented
method (step lengths tried, acceptance test, merit weights, funnel width and penalty mode, second order correction, dual updates) whose function values, derivatives and quadratic models are evaluated from the expressions alone:
every transition of the trace has to be the one the automaton takes, the step has to be the solution of the QP at that iterate."""
import sys, itertools, warnings, numpy as np
import mclib, solverlib, ocpspec
import C01, C10
PID = 'C12'
ASSUME = ['dimension bounds nx<=3, nu<=2, N<=4', 'comparisons of the acceptance test within 1e-9 relative of a tie may go either way', 'the step of an exact Hessian run with regularization is not recomputed (C13 covers the regularization)']
B0 = dict(C01.BASE)
PROBS = {
    'nls': dict(B0), 'bx': dict(B0, bx=1, bxe=1, bu=2), 'h': dict(B0, nl='h', lin='g'), 'hall': dict(B0, nl='hall', lin='gge', bu=2), 'phi': dict(B0, nl='phiall'), 'soft': dict(B0, nl='hall', bx=1, lin='gge', slack='most'), 'softall': dict(B0, nl='hall', bx=1, bu=2, lin='gge', slack='all', onesided=1),
    'conl': dict(B0, cost='CONL', coste='CONL', cost0='CONL', nl='h'), 'lls': dict(B0, cost='LLS', coste='LLS', nl='h'), 'irk': dict(B0, integ='IRK', nl='h'), 'disc': dict(B0, integ='DISCRETE', nl='h', slack='most', x0='none', sym='MX'), 'grid': dict(B0, grid='steps', scaling='custom', nl='h', N=4),
    'free': dict(B0, x0='box', bx=2, N=1), 'par': dict(B0, par='both', nl='hall', t=1), 'x1': dict(B0, dim='x1', nl='h'), 'onesided': dict(B0, onesided=1, nl='hall', bx=1), 'irkz': dict(B0, integ='IRKZ2'), 'gnsf': dict(B0, integ='GNSF', nl='h')}
M = 'MERIT_BACKTRACKING'; F = 'FUNNEL_L1PEN_LINESEARCH'
OPTS = {
    'fix': dict(globalization='FIXED_STEP'), 'fix.3': dict(globalization='FIXED_STEP', globalization_fixed_step_length=0.3), 'fix.6dual': dict(globalization='FIXED_STEP', globalization_fixed_step_length=0.6, globalization_full_step_dual=1), 'fix0': dict(globalization='FIXED_STEP', globalization_fixed_step_length=0.0),
    'm': dict(globalization=M), 'mdual': dict(globalization=M, globalization_full_step_dual=1), 'msd': dict(globalization=M, globalization_line_search_use_sufficient_descent=1), 'msd3': dict(globalization=M, globalization_line_search_use_sufficient_descent=1, globalization_eps_sufficient_descent=0.3, globalization_alpha_reduction=0.5, globalization_alpha_min=0.01),
    'msoc': dict(globalization=M, globalization_use_SOC=1, globalization_full_step_dual=1), 'msocsd': dict(globalization=M, globalization_use_SOC=1, globalization_full_step_dual=1, globalization_line_search_use_sufficient_descent=1), 'mred': dict(globalization=M, globalization_alpha_reduction=0.9, globalization_alpha_min=0.3),
    'f': dict(globalization=F), 'fdual0': dict(globalization=F, globalization_full_step_dual=0), 'fpen': dict(globalization=F, globalization_funnel_use_merit_fun_only=True), 'ftight': dict(globalization=F, globalization_funnel_init_upper_bound=0.01, globalization_funnel_init_increase_factor=1.2, globalization_alpha_reduction=0.4),
    'fopt': dict(globalization=F, globalization_funnel_init_upper_bound=0.1, globalization_funnel_init_increase_factor=1.5, globalization_funnel_sufficient_decrease_factor=0.5, globalization_funnel_kappa=0.3, globalization_funnel_fraction_switching_condition=0.2, globalization_funnel_initial_penalty_parameter=0.5, globalization_eps_sufficient_descent=0.1),
    'lm': dict(globalization=M, levenberg_marquardt=0.5)}
STARTS = [(0.0, 0.0, 0), (1.0, 0.0, 1), (3.0, 1.0, 2), (-4.0, -2.0, 3), (0.0, 4.0, 4), (8.0, -6.0, 5)]


def cases(tier):
    q = tier == 'quick'
    for p, o in itertools.product(PROBS, OPTS):
        if q and p in ('x1', 'free', 'grid', 'par', 'irkz', 'gnsf', 'onesided', 'lls', 'bx') and o in ('fix.3', 'fix0', 'mdual', 'mred', 'fdual0', 'fpen', 'lm', 'msocsd'): continue
        yield dict(kind='sqp', p=p, o=o, it=8 if q else 25, ns=len(STARTS) if q else 24)
    for h, o in itertools.product(DDP, DOPT): yield dict(kind='ddp', h=h, o=o, it=10 if q else 40, ns=6 if q else 24)
    for p, o in itertools.product(['nls', 'h', 'hall', 'softall', 'irk'], FQ): yield dict(kind='feasqp', p=p, o=o, it=8 if q else 25, ns=6 if q else 24)
    yield dict(kind='options')


def setup(tier): solverlib.setup()
def run(case, ctx):
    warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


def start(i): return STARTS[i] if i < len(STARTS) else (0.7 * i * (-1) ** i, 0.4 * i, i)


def put(S, R, st, rand=0.0):
    a, b, seed = st; N = R.N
    for k in range(N + 1):
        P = R.Pk[k]; nx, nu = P.s['nx'], P.s['nu'] if k < N else 0
        S.set(k, 'x', a * np.cos(1.7 * k + 2.3 * np.arange(nx) + seed) if k or P.s['x0'] != 'x0' else P.d['x0'])
        if nu: S.set(k, 'u', b * np.sin(0.9 + 1.1 * k + 1.9 * np.arange(nu) + seed))
        for n in ('sl', 'su'):
            m = len(R.slk[k][0])
            if m: S.set(k, n, np.maximum(R.slk[k][4 if n == 'sl' else 5], 0.05 * seed))
        if P.s['integ'] in ('IRK', 'GNSF') and k < N: S.set(k, 'xdot_guess', np.zeros(nx)); P.s['nz'] and S.set(k, 'z_guess', np.zeros(P.s['nz']))


class Point:
    """function values at an iterate"""
    def __init__(self, R, it):
        N = R.N; self.N = N; self.R = R; self.it = it; g = lambda t, k: np.asarray(t[k]).ravel() if k < len(t) else np.zeros(0)
        self.X = [g(it.x, k) for k in range(N + 1)]; self.U = [g(it.u, k) for k in range(N)]; self.SL = [g(it.sl, k) for k in range(N + 1)]; self.SU = [g(it.su, k) for k in range(N + 1)]
        self.PI = [g(it.pi, k) for k in range(N)]; self.LAM = [g(it.lam, k) for k in range(N + 1)]; self.update()

    def update(self):
        R, N = self.R, self.N; self.E = [R.eval(k, self.X[k], self.U[k] if k < N else None) for k in range(N + 1)]
        self.cost = R.cost(self.X, self.U, self.SL, self.SU); self.gap = [self.E[k]['xn'] - self.X[k + 1] for k in range(N)]; self.v = []
        for k in range(N + 1):
            c = R.cons[k]; lo = np.array([q[2] for q in c]); up = np.array([q[3] for q in c]); v = self.E[k]['c']; si = [q[4] for q in c]; zl, zu, Zl, Zu, ls, us = R.slk[k]
            a = np.array([lo[i] - v[i] - (self.SL[k][si[i]] if si[i] >= 0 else 0) if lo[i] > -1e9 else -np.inf for i in range(len(c))]); b = np.array([v[i] - up[i] - (self.SU[k][si[i]] if si[i] >= 0 else 0) if up[i] < 1e9 else -np.inf for i in range(len(c))])
            self.v.append(np.concatenate([a, b, ls - self.SL[k], us - self.SU[k]]))
        return self

    def w(self): return [np.concatenate([self.U[k] if k < self.N else [], self.X[k], self.SL[k], self.SU[k]]) for k in range(self.N + 1)]

    def at(self, d, a):
        """the point moved by a*d"""
        q = object.__new__(Point); q.R, q.N = self.R, self.N; q.X, q.U, q.SL, q.SU = [], [], [], []; q.PI, q.LAM = self.PI, self.LAM
        for k in range(self.N + 1):
            w = self.w()[k] + a * d[k]; m = len(self.U[k]) if k < self.N else 0; n = len(self.X[k]); s = len(self.SL[k])
            if k < self.N: q.U.append(w[:m])
            q.X.append(w[m:m + n]); q.SL.append(w[m + n:m + n + s]); q.SU.append(w[m + n + s:])
        return q.update()

    def l1(self): return sum(np.abs(g).sum() for g in self.gap) + sum(np.maximum(0, v).sum() for v in self.v)
    def linf(self): return max([0.0] + [np.abs(g).max() for g in self.gap if g.size] + [np.maximum(0, v).max() for v in self.v if v.size])
    def merit(self, wp, wl): return self.cost + sum(p @ np.abs(g) for p, g in zip(wp, self.gap)) + sum(np.abs(l) @ np.maximum(0, v) for l, v in zip(wl, self.v))

    def jac(self, k):
        """derivatives of the constraint violations with respect to [u x sl su]"""
        c = self.R.cons[k]; nc = len(c); G = self.E[k]['gc']; n = G.shape[1]; s = len(self.SL[k]); J = np.zeros((2 * nc + 2 * s, n + 2 * s)); J[:nc, :n] = -G; J[nc:2 * nc, :n] = G
        for i, q in enumerate(c):
            if q[4] >= 0: J[i, n + q[4]] = -1; J[nc + i, n + s + q[4]] = -1
        J[2 * nc:, n:] = -np.eye(2 * s); return J

    def grad(self, k):
        zl, zu, Zl, Zu, ls, us = self.R.slk[k]; sc = self.R.sc[k]; return sc * np.concatenate([self.E[k]['gl'], zl + Zl * self.SL[k], zu + Zu * self.SU[k]])

    def slope(self, d): return sum(self.grad(k) @ d[k] for k in range(self.N + 1))

    def lin_gap(self, d, k): m = len(self.U[k + 1]) if k + 1 < self.N else 0; n = len(self.X[k + 1]); return self.E[k]['A'] @ d[k][:self.E[k]['A'].shape[1]] - d[k + 1][m:m + n]

    def dmerit(self, d, wp, wl):
        r = self.slope(d)
        for k in range(self.N): r += wp[k] @ (np.where(self.gap[k] > 0, 1.0, -1.0) * self.lin_gap(d, k))
        lo = hi = r     # at the kink of an inequality that is active up to rounding either one-sided derivative is accepted
        for k in range(self.N + 1):
            t = wl[k] * (self.jac(k) @ d[k]); z = np.abs(self.v[k]) < 1e-10; c = t[(self.v[k] > 0) & ~z].sum(); lo += c + np.minimum(0, t[z]).sum(); hi += c + np.maximum(0, t[z]).sum()
        return lo, hi


def qp_residual(pt, Bl, d, pi, lam, gap, v, lm=0.0):
    """KKT residual of the step d with multipliers in the QP linearized at pt, with the constants gap and v"""
    N = pt.N; R = pt.R; r = {}; m = {}
    for k in range(N + 1):
        e = pt.E[k]; nu = len(pt.U[k]) if k < N else 0; nx = len(pt.X[k]); s = len(pt.SL[k]); P = R.Pk[k]
        B = Bl.ref(k, pt.X[k], pt.U[k] if k < N else None, pt.X[k + 1] if k < N else None, P.d['p'], P.d['pg'], pt.PI[k] if k < N else None, np.diff(pt.LAM[k][:2 * len(R.cons[k])].reshape(2, -1), axis=0).ravel()); J = pt.jac(k); fin = np.isfinite(v[k])
        vv = np.where(fin, v[k], 0.0) + J @ d[k]; r[f'primal {k}'] = max([0.0] + list(vv[fin])); r[f'complementarity {k}'] = max([0.0] + list(np.abs(vv * lam[k])[fin])); r[f'sign {k}'] = max([0.0] + list(-lam[k]))
        if k < N: r[f'dynamics {k}'] = np.abs(pt.lin_gap(d, k) + gap[k]).max()
        if 'R' in B:
            H = np.zeros((nu + nx + 2 * s,) * 2); H[:nu, :nu] = B['R']; H[nu:nu + nx, nu:nu + nx] = B['Q']; H[:nu, nu:nu + nx] = B['S']; H[nu:nu + nx, :nu] = B['S'].T; zl, zu, Zl, Zu, ls, us = R.slk[k]
            H[nu + nx:, nu + nx:] = R.sc[k] * np.diag(np.concatenate([Zl, Zu])); H[:nu + nx, :nu + nx] += lm * R.sc[k] * np.eye(nu + nx); t = H @ d[k] + pt.grad(k) + J.T @ lam[k]
            t[:nu + nx] += scqp(pt, k) @ d[k][:nu + nx]
            if k < N: t[:nu + nx] += e['A'].T @ pi[k]
            if k > 0: t[nu:nu + nx] -= pi[k - 1]
            r[f'stationarity {k}'] = np.abs(t).max() if t.size else 0.0
    return r


SC = {}
def scqp(pt, k):
    """sequential convex quadratic programming: curvature of the outer function of a convex-over-nonlinear constraint, weighted with the multiplier of its upper bound"""
    R = pt.R; P = R.Pk[k]; suf = R.kinds[k]; m = len(pt.U[k]) if k < pt.N else 0; n = len(pt.X[k]); H = np.zeros((n + m, n + m))
    if suf not in P.phi: return H
    if (id(P), suf) not in SC:
        import casadi as ca
        r, rex, phi = P.phi[suf]; w = ca.vertcat(P.u, P.x) if k < pt.N else P.x; J = ca.jacobian(rex, w); SC[id(P), suf] = (P, ca.Function('scqp', P.args(), [ca.mtimes([J.T, ca.substitute(ca.hessian(phi, r)[0], r, rex), J])]))
    i = [j for j, c in enumerate(R.cons[k]) if c[0].startswith('phi')][0]; s = P.s
    return pt.LAM[k][len(R.cons[k]) + i] * np.array(SC[id(P), suf][1](pt.X[k], pt.U[k] if k < pt.N else np.zeros(s['nu']), np.zeros(s['nz']), P.d['p'], P.d['pg'], R.t0[k]))


def lt(a, b):
    """a < b, None if too close to call"""
    if not (np.isfinite(a) and np.isfinite(b)): return bool(a < b)
    return None if abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)) else bool(a < b)


class Tie(Exception): pass


def sure(x):
    if x is None: raise Tie()
    return x


def step_of(a, b, al): return [(y - x) / al for x, y in zip(a.w(), b.w())]


def qp_duals(a, b, al, full):
    f = lambda o, n: n if full or al == 1.0 else (n - (1 - al) * o) / al
    return [f(o, n) for o, n in zip(a.PI, b.PI)], [f(o, n) for o, n in zip(a.LAM, b.LAM)]


def iterates(S, R):
    n = S.get_stats('nlp_iter'); return [Point(R, S.get_iterate(k)) for k in range(n + 1)]


def scale_of(pt, d, pi, lam): return 1 + max([0.0] + [np.abs(v).max() for L in (d, pi, lam, pt.X) for v in L if v.size])


def common(q, it):
    q.nlp_solver_type = 'SQP'; q.nlp_solver_max_iter = it; q.store_iterates = True; q.qp_solver_iter_max = 200; q.sim_method_newton_iter = 40; q.sim_method_newton_tol = 1e-12
    for t in ('stat', 'eq', 'ineq', 'comp'): setattr(q, 'nlp_solver_tol_' + t, 1e-8); setattr(q, 'qp_solver_tol_' + t, 1e-10)


def k_sqp(case, ctx):
    c = PROBS[case['p']]; so = dict(OPTS[case['o']]); assert C01.valid({k: v for k, v in c.items() if k != 'opt'}) or True
    s = C01.expand(c); s['opts'] = dict(s['opts'] or {}, **so); P = ocpspec.Problem(s); o = P.ocp(solverlib.name()); q = o.solver_options; common(q, case['it'])
    S = solverlib.solver(o, o.name, save_p_global=True) if s['npg'] else solverlib.solver(o, o.name); R = ocpspec.Ref(P); Bl = C10.Blocks(P, R); A = dict(q_of(q), lm=so.get('levenberg_marquardt', 0.0))
    full = None
    if A['soc']: o2 = P.ocp(solverlib.name()); common(o2.solver_options, 1); o2.solver_options.globalization = 'FIXED_STEP'; o2.solver_options.globalization_use_SOC = 0; full = solverlib.solver(o2, o2.name)
    for i in range(case['ns']):
        S.reset(); put(S, R, start(i)); ctx.trace()
        try: st = S.solve()
        except Exception as ex: ctx.require(False, 'c12-raise', f'{case}: {ex}'); return
        try: al = list(np.atleast_1d(S.get_stats('alpha')))
        except Exception as ex: ctx.require(False, 'c12-alpha', f'get_stats(alpha): {ex}'); return
        T = iterates(S, R); n = len(T) - 1; qs = S.get_stats('qp_stat')
        if st == 4: ctx.outcome('QP failure'); T = T[:-1] if n else T; n = len(T) - 1
        ctx.outcome(f'status {st}'); G = Glob(A, T[0], ctx); G.full = full
        for k in range(n):
            if not all(np.isfinite(w).all() for w in T[k + 1].w()): break
            tag = f'{case["p"]}/{case["o"]} start {i} iteration {k}'
            if qs[k + 1]: ctx.outcome(f'QP not solved to tolerance (status {int(qs[k + 1])}), not replayed'); break
            if not G.check(T[k], T[k + 1], al[k + 1], k, tag, Bl, R): break
            ctx.state(case['p'], case['o'], i, k); ctx.trans()
        if ctx.viols: return


def q_of(q):
    return dict(g=q.globalization, fixed=q.globalization_fixed_step_length, amin=q.globalization_alpha_min, red=q.globalization_alpha_reduction, eps=q.globalization_eps_sufficient_descent, sd=q.globalization_line_search_use_sufficient_descent, soc=q.globalization_use_SOC, full=q.globalization_full_step_dual,
                up=q.globalization_funnel_init_upper_bound, inc=q.globalization_funnel_init_increase_factor, suf=q.globalization_funnel_sufficient_decrease_factor, kap=q.globalization_funnel_kappa, sw=q.globalization_funnel_fraction_switching_condition, pen=q.globalization_funnel_initial_penalty_parameter, con=0.5, eta=1e-6, only=q.globalization_funnel_use_merit_fun_only)


class Glob:
    def __init__(self, A, p0, ctx):
        self.A, self.ctx = A, ctx; self.wp = self.wl = None; self.width = max(A['up'], A['inc'] * p0.l1()); self.pen = A['pen']; self.mode = False; self.tied = False

    def check(self, a, b, al, k, tag, Bl, R):
        A, ctx = self.A, self.ctx; m = A['g']
        if m == 'FIXED_STEP':
            if not ctx.close(al, A['fixed'], 'c12-fixed', f'{tag}: step length', 1e-12, 1e-12): return False
            if al == 0.0: return ctx.close(np.concatenate(a.w()), np.concatenate(b.w()), 'c12-fixed', f'{tag}: step length 0, iterate changed', 1e-12, 1e-12)
        else:
            j = np.log(al) / np.log(A['red'])
            if not ctx.require(0 < al <= 1 and abs(j - round(j)) < 1e-6, 'c12-grid', f'{tag}: step length {al} is not a power of {A["red"]}'): return False
        if al < 1e-4: ctx.outcome('tiny step, not replayed'); return False
        d = step_of(a, b, al); pi, lam = qp_duals(a, b, al, A['full']); sc = scale_of(a, d, pi, lam); gap, v = a.gap, a.v; soc = False
        if sc > 1e5: ctx.outcome('large numbers, not replayed'); return False
        if A['soc']:
            try: soc, gap, v = self.correction(a, k)
            except Tie: ctx.outcome('tie'); return False
            if soc is None: ctx.outcome('no full step'); return False
            ctx.outcome('second order correction' if soc else 'full step without correction')
        if 1:
            r = qp_residual(a, Bl, d, pi, lam, gap, v, A['lm']); w = max(r, key=r.get)
            if not ctx.require(r[w] <= (3e-6 if k == 0 else 1e-6) * sc * sc / min(1, al), 'c12-step', f'{tag}: step length {al}, the step is not the solution of the QP: residual {r[w]:.2e} in {w}; iterate {a.w()} step {d} pi {pi} lam {lam}'): return False
        if m == 'FIXED_STEP': return True
        try: e = (self.merit if m == 'MERIT_BACKTRACKING' else self.funnel)(a, d, pi, lam, al, k, soc)
        except Tie: ctx.outcome('tie'); return False
        if al < 1: ctx.outcome(f'{m} reduced step')
        return ctx.require(e is not None and abs(e - al) < 1e-9, 'c12-z-line-search' if R.Pk[0].s['nz'] else 'c12-' + ('merit' if m[0] == 'M' else 'funnel'), f'{tag}: accepted step length {al}, the documented test accepts {e}; {self.log}')

    def weights(self, k, pi, lam):
        p, l = [np.abs(x) for x in pi], [x + 0.0 for x in lam]
        if k == 0: return p, l
        return [np.maximum(x, 0.5 * (x + w)) for x, w in zip(p, self.wp)], [np.maximum(x, 0.5 * (x + w)) for x, w in zip(l, self.wl)]

    def correction(self, a, k):
        """take the full step if merit function and violation improve, otherwise the step of the QP with the constraint values at the full step"""
        S = self.full; S.reset(); S.set_iterate(a.it); S.solve(); f = Point(a.R, S.get_iterate())
        if S.get_stats('nlp_iter') < 1: return None, None, None
        d = step_of(a, f, 1.0); wp, wl = self.weights(k, f.PI, f.LAM); m0, m1 = a.merit(wp, wl), f.merit(wp, wl)
        if not np.isfinite(m1): return None, None, None
        if sure(lt(m1, m0)) and sure(lt(f.linf(), a.linf())): return False, a.gap, a.v
        return True, [f.gap[j] - a.lin_gap(d, j) for j in range(a.N)], [f.v[j] - a.jac(j) @ d[j] for j in range(a.N + 1)]

    def merit(self, a, d, pi, lam, al, k, soc):
        A = self.A; self.wp, self.wl = self.weights(k, pi, lam); m0 = a.merit(self.wp, self.wl); dm = [min(0.0, x) for x in a.dmerit(d, self.wp, self.wl)] if A['sd'] else [0.0]; t = 1.0; self.log = f'merit {m0}, slope {dm}'
        if A['soc'] and not soc: return 1.0
        while t * A['red'] > A['amin']:
            m1 = a.at(d, t).merit(self.wp, self.wl); self.log += f', {t}: {m1}'; ok = {sure(lt(m1, m0 + A['eps'] * x * t)) for x in dm}
            if len(ok) > 1: raise Tie()
            if True in ok: return t
            t *= A['red']
        self.ctx.outcome('smallest step'); return t

    def funnel(self, a, d, pi, lam, al, k, soc):
        A = self.A; inf = a.l1(); po = -a.slope(d); pi_ = inf; t = 1.0; p = po
        if p < 0 and p > -1e-4: p = 0.0
        if sure(lt(self.pen * p + pi_, A['eta'] * pi_)): self.pen = max(0.0, min(A['con'] * self.pen, (1 - A['eta']) * pi_ / (-p + 1e-9)))
        m0 = self.pen * a.cost + inf; pm = self.pen * po + pi_; self.log = f'cost {a.cost}, infeasibility {inf}, width {self.width}, penalty {self.pen}, mode {self.mode}, predicted {po} {pi_}'; arm = lambda act, pred: not sure(lt(act, A['eps'] * t * max(0.0, pred - 1e-9)))
        if A['only']: self.mode = True
        while t >= A['amin'] * 0.999:
            q = a.at(d, t); h = q.l1(); self.log += f', {t}: {q.cost} {h}'; m1 = self.pen * q.cost + h
            if A['only'] or not sure(lt(self.width, h)):
                if not self.mode:
                    if not sure(lt(t * po, A['sw'] * pi_)):
                        if arm(a.cost - q.cost, po): self.ctx.outcome('f-step'); return t
                    elif not sure(lt(A['suf'] * self.width, h)): self.width = (1 - A['kap']) * h + A['kap'] * self.width; self.ctx.outcome('h-step'); return t
                    elif sure(lt(h, inf)) and arm(m0 - m1, pm): self.mode = True; self.ctx.outcome('b-step'); return t
                elif arm(m0 - m1, pm):
                    self.ctx.outcome('p-step')
                    if not sure(lt(A['suf'] * self.width, h)): self.width = (1 - A['kap']) * h + A['kap'] * self.width; self.mode = False
                    return t
            t *= A['red']


DB = dict(bu=0, opt='ddp')
DDP = {'erk': DB, 'irk': dict(DB, integ='IRK'), 'disc': dict(DB, integ='DISCRETE', sym='MX'), 'conl': dict(DB, cost='CONL', cost0='CONL', coste='CONL'), 'grid': dict(DB, grid='steps', scaling='custom', N=4), 'x3': dict(DB, dim='x3', cost0='NLS'), 'N1': dict(DB, N=1), 'par': dict(DB, par='both', t=1), 'lls': dict(DB, cost='LLS', coste='LLS')}
DOPT = {'m': {}, 'dual0': dict(globalization_full_step_dual=0), 'opt': dict(globalization_alpha_reduction=0.4, globalization_eps_sufficient_descent=0.3), 'amin': dict(globalization_alpha_min=0.6), 'lm': dict(levenberg_marquardt=0.3), 'ad': dict(with_adaptive_levenberg_marquardt=True), 'ad2': dict(with_adaptive_levenberg_marquardt=True, adaptive_levenberg_marquardt_lam=3.0, adaptive_levenberg_marquardt_mu0=0.05, adaptive_levenberg_marquardt_mu_min=1e-3, adaptive_levenberg_marquardt_obj_scalar=0.7, globalization_full_step_dual=0),
        'fix': dict(globalization='FIXED_STEP'), 'fix.5': dict(globalization='FIXED_STEP', globalization_fixed_step_length=0.5), 'fix.5dual': dict(globalization='FIXED_STEP', globalization_fixed_step_length=0.5, globalization_full_step_dual=1)}


def k_ddp(case, ctx):
    """differential dynamic programming: Riccati recursion, closed-loop rollout of the nonlinear dynamics and Armijo test recomputed from the expressions"""
    s = C01.expand(DDP[case['h']]); s['opts'] = dict(s['opts'] or {}, **DOPT[case['o']]); P = ocpspec.Problem(s); o = P.ocp(solverlib.name()); q = o.solver_options; common(q, case['it']); q.nlp_solver_type = 'DDP'; q.eval_residual_at_max_iter = True
    S = solverlib.solver(o, o.name, save_p_global=True) if s['npg'] else solverlib.solver(o, o.name); R = ocpspec.Ref(P); Bl = C10.Blocks(P, R); A = q_of(q); N = R.N; full = bool(A['full'])
    for i in range(case['ns']):
        S.reset(); put(S, R, start(i)); ctx.trace(); st = S.solve(); T = iterates(S, R); al = 0.0; mu = bar = q.adaptive_levenberg_marquardt_mu0; feas = False; ctx.outcome(f'ddp status {st}')
        for k in range(len(T) - 1):
            a, b = T[k], T[k + 1]; tag = f'ddp {case["h"]}/{case["o"]} start {i} iteration {k}'
            if not all(np.isfinite(w).all() and np.abs(w).max() < 1e4 for w in b.w()): ctx.outcome('large numbers, not replayed'); break
            w = q.levenberg_marquardt
            if q.with_adaptive_levenberg_marquardt:
                if k: mu, bar = (max(q.adaptive_levenberg_marquardt_mu_min, bar / q.adaptive_levenberg_marquardt_lam), mu) if al == 1.0 else (min(q.adaptive_levenberg_marquardt_lam * mu, 1.0), bar)
                w = max(0.0, q.adaptive_levenberg_marquardt_obj_scalar * a.cost * mu)
            M = [Bl.ref(j, a.X[j], a.U[j] if j < N else None, a.X[j + 1] if j < N else None, P.d['p'], P.d['pg'], None, None) for j in range(N + 1)]; nx = [len(x) for x in a.X]
            I = lambda B, n, j: B + w * R.sc[j] * np.eye(n); PP = I(M[N]['Q'], nx[N], N); p = M[N]['q']; KK, kk, PL = {}, {}, {N: (PP, p)}
            for j in range(N - 1, -1, -1):
                B, Am, g = M[j]['B'], M[j]['A'], M[j]['b']; nu = len(a.U[j]); Hr = I(M[j]['R'], nu, j) + B.T @ PP @ B; Hs = M[j]['S'] + B.T @ PP @ Am; hr = M[j]['r'] + B.T @ (p + PP @ g); K = -np.linalg.solve(Hr, Hs); kf = -np.linalg.solve(Hr, hr)
                p = M[j]['q'] + Am.T @ (p + PP @ g) + Hs.T @ kf; PP = I(M[j]['Q'], nx[j], j) + Am.T @ PP @ Am + Hs.T @ K; KK[j], kk[j], PL[j] = K, kf, (PP, p)
            dx = [np.zeros(nx[0])]; du = []
            for j in range(N): du.append(kk[j] + KK[j] @ dx[j]); dx.append(M[j]['A'] @ dx[j] + M[j]['B'] @ du[j] + M[j]['b'])
            pi = [PL[j + 1][0] @ dx[j + 1] + PL[j + 1][1] for j in range(N)]
            val = sum(0.5 * dx[j] @ I(M[j]['Q'], nx[j], j) @ dx[j] + M[j]['q'] @ dx[j] for j in range(N + 1)) + sum(0.5 * du[j] @ I(M[j]['R'], len(du[j]), j) @ du[j] + du[j] @ M[j]['S'] @ dx[j] + M[j]['r'] @ du[j] for j in range(N))
            def trial(t):
                c = object.__new__(Point); c.R, c.N = R, N; c.X = [a.X[0] + t * dx[0]]; c.U = []; c.SL, c.SU, c.PI, c.LAM = a.SL, a.SU, a.PI, a.LAM
                for j in range(N): c.U.append(a.U[j] + t * kk[j] + KK[j] @ (c.X[j] - a.X[j]) if j else a.U[0] + t * du[0]); c.X.append(R.eval(j, c.X[j], c.U[j])['xn'])
                return c.update()
            g = max(np.abs(x).max() for x in a.gap); inf0 = not feas and g > q.nlp_solver_tol_eq; feas = True
            try:
                if inf0: t = 1.0
                elif A['g'] == 'FIXED_STEP': t = A['fixed']
                else:
                    t = 1.0; log = f'cost {a.cost}, predicted {-val}'
                    while True:
                        c = trial(t).cost; log += f', {t}: {c}'; bound = min(-A['eps'] * t * max(-val, 0.0) + 1e-18, 0.0); r = lt(bound, c - a.cost)
                        if r is None or abs(c - a.cost - bound) < 1e-11 * (1 + abs(c)): raise Tie()
                        if not r: break
                        t *= A['red']
                        if t < A['amin']: t = None; break
            except Tie: ctx.outcome('ddp tie'); break
            if t is None: ctx.require(False, 'c12-ddp-min', f'{tag}: {log}: smallest step length reached, but the solver went on with status {st}'); return
            e = trial(t); sc = 1 + max(np.abs(x).max() for x in e.w() + dx + pi); al = t; full_ = full or inf0
            if t < 1: ctx.outcome('ddp reduced step')
            ok = ctx.close(np.concatenate(b.w()), np.concatenate(e.w()), 'c12-ddp-step', f'{tag}: iterate after a step of length {t} from {a.w()}, {"infeasible start" if inf0 else ""}', 1e-6 * sc, 1e-6 * sc)
            ok = ok and ctx.close(np.concatenate(b.PI), np.concatenate([x if full_ else (1 - t) * y + t * x for x, y in zip(pi, a.PI)]), 'c12-ddp-dual', f'{tag}: multipliers after a step of length {t}, full step for multipliers {full_}', 1e-6 * sc, 1e-6 * sc)
            if not ok: return
            ctx.state('ddp', case['h'], case['o'], i, k); ctx.trans()


FQ = {'fq': {}, 'fqb': dict(search_direction_mode='BYRD_OMOJOKUN'), 'fqf': dict(search_direction_mode='BYRD_OMOJOKUN', use_constraint_hessian_in_feas_qp=False), 'fqopt': dict(globalization_funnel_init_upper_bound=0.1, globalization_funnel_init_increase_factor=1.5, globalization_funnel_sufficient_decrease_factor=0.5, globalization_alpha_reduction=0.5, globalization_full_step_dual=0)}


def k_feasqp(case, ctx):
    """SQP with feasible QP: step lengths from the grid, infeasibility below the funnel width that starts at its documented value and never grows, nominal steps are solutions of the QP at the iterate"""
    s = C01.expand(PROBS[case['p']]); s['opts'] = dict(s['opts'] or {}, globalization=F, **FQ[case['o']]); P = ocpspec.Problem(s); o = P.ocp(solverlib.name()); q = o.solver_options; common(q, case['it']); q.nlp_solver_type = 'SQP_WITH_FEASIBLE_QP'
    S = solverlib.solver(o, o.name); R = ocpspec.Ref(P); Bl = C10.Blocks(P, R); A = q_of(q)
    for i in range(case['ns']):
        S.reset(); put(S, R, start(i)); ctx.trace(); st = S.solve(); T = iterates(S, R); ctx.outcome(f"feasqp status {st}"); al = np.atleast_1d(S.get_stats('statistics')[11]); width = max(A['up'], A['inc'] * T[0].l1())
        for k in range(len(T) - 1):
            a, b = T[k], T[k + 1]; t = al[k + 1]; tag = f'feasqp {case["p"]}/{case["o"]} start {i} iteration {k}'
            if st == 4 and k == len(T) - 2: break
            if not all(np.isfinite(w).all() for w in b.w()): break
            j = np.log(t) / np.log(A['red']) if t > 0 else -1
            if not ctx.require(0 < t <= 1 and abs(j - round(j)) < 1e-6, 'c12-feasqp-grid', f'{tag}: step length {t} is not a power of {A["red"]}'): return
            if not ctx.require(b.l1() <= width * (1 + 1e-7) + 1e-9, 'c12-feasqp-funnel', f'{tag}: infeasibility {b.l1()} outside the initial funnel width {width}'): return
            if t < 1: ctx.outcome('feasqp reduced step')
            d = step_of(a, b, t)
            for n in range(R.N):      # every search direction satisfies the linearized dynamics
                if not ctx.require(t < 1e-4 or np.abs(a.lin_gap(d, n) + a.gap[n]).max() < 1e-6 * scale_of(a, d, [], []) / min(1, t), 'c12-feasqp-dyn', f'{tag}: step of length {t} violates the linearized dynamics of stage {n}'): return
            ctx.state('fq', case['p'], case['o'], i, k); ctx.trans()


def k_options(case, ctx):
    from acados_template import AcadosOcpOptions
    for a, good, bad in (('globalization', ['FIXED_STEP', M, F], ['MERIT', 'fixed_step']), ('globalization_fixed_step_length', [0.0, 0.5, 1.0], [-0.1, 1.1]), ('globalization_alpha_min', [0.01], []), ('globalization_alpha_reduction', [0.5], []), ('globalization_use_SOC', [0, 1], [2, -1]),
                         ('globalization_line_search_use_sufficient_descent', [0, 1], [2]), ('globalization_full_step_dual', [0, 1], [2]), ('globalization_funnel_init_increase_factor', [1.5], [1.0, 0.5]), ('globalization_funnel_init_upper_bound', [0.5], [0.0, -1.0]), ('globalization_funnel_sufficient_decrease_factor', [0.5], [0.0, 1.0]),
                         ('globalization_funnel_kappa', [0.5], [0.0, 1.0]), ('globalization_funnel_fraction_switching_condition', [0.5], [0.0, 1.0]), ('globalization_funnel_initial_penalty_parameter', [0.0, 1.0], [-0.1, 1.1])):
        for v in good:
            o = AcadosOcpOptions(); ctx.state(a, v); ctx.trans()
            try: setattr(o, a, v); ctx.require(getattr(o, a) == v, 'c12-options', f'{a} set to {v}, reads {getattr(o, a)}')
            except Exception as e: ctx.require(False, 'c12-options', f'{a} = {v} rejected: {e}')
        for v in bad:
            o = AcadosOcpOptions(); ctx.state(a, str(v)); ctx.trans(); ctx.rejects(lambda: setattr(o, a, v), 'c12-options', f'{a} = {v!r} accepted')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=400, chunk=1, jobs=8))
