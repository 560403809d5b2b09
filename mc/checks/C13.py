"""C13: on the real generated solver whose stage Hessians are entered entry by entry: every symmetric integer matrix with entries in a bounded set (and scalings of it), for every regularization method, epsilon setting,
phase split and stage position; the matrices handed to the QP are compared with the documented ones (eigenvalues mirrored or clipped in the same eigenbasis, multiples of the identity, positive definiteness of stage or reduced
Hessian, unchanged where the bound already holds); convexified and regularized QPs are also solved and compared with the solution of the (documented) QP."""
import sys, itertools, warnings, numpy as np, casadi as ca
import mclib, solverlib
from acados_template import AcadosOcp, AcadosModel
PID = 'C13'
ASSUME = ['matrices with integer entries up to 2 (thorough 3), scaled by fixed factors', 'solution invariance of CONVEXIFY: equality constrained QPs with positive definite reduced Hessian (documented limits)']
EPS = [None, 0.5, 1e-3]
DIMS = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (2, 0), (1, 0)]


def cases(tier):
    q = tier == 'quick'
    for (nx, nu), N in itertools.product(DIMS, (1, 2, 3)):
        if N == 3 and (nx, nu) not in ((1, 1), (2, 1)) or N == 1 and (nx, nu) in ((1, 0), (3, 1)): continue
        for m in ('NO_REGULARIZE', 'MIRROR', 'PROJECT', 'GERSHGORIN_LEVENBERG_MARQUARDT', 'PROJECT_REDUC_HESS', 'CONVEXIFY'):
            if nu == 0 and m in ('PROJECT_REDUC_HESS', 'CONVEXIFY'): continue
            for eps in EPS if m in ('MIRROR', 'PROJECT', 'GERSHGORIN_LEVENBERG_MARQUARDT') else [None]: yield dict(kind='block', nx=nx, nu=nu, N=N, m=m, eps=eps, adapt=None, q=q)
            if m in ('MIRROR', 'PROJECT'):
                for ad in ([10.0, 1e-2], [1e4, 0.3], [None, None]): yield dict(kind='block', nx=nx, nu=nu, N=N, m=m, eps=0.2, adapt=ad, q=q)
        for lm in (0.0, 0.3, 2.0):
            for sc in (None, 'ones', 'custom'): yield dict(kind='lm', nx=nx, nu=nu, N=N, lm=lm, sc=sc, q=q)
    for (nx, nu), N in itertools.product([(1, 1), (2, 1), (2, 2)], (1, 2)):
        for t in ('SQP', 'SQP_RTI', 'SQP_WITH_FEASIBLE_QP'):
            for m in ('NO_REGULARIZE', 'MIRROR', 'PROJECT', 'GERSHGORIN_LEVENBERG_MARQUARDT', 'CONVEXIFY', 'PROJECT_REDUC_HESS', 'LM'):
                if t == 'SQP_WITH_FEASIBLE_QP' and m in ('CONVEXIFY', 'LM'): continue
                yield dict(kind='step', nx=nx, nu=nu, N=N, t=t, m=m, q=q)
    for v in itertools.product((5.0, 2.0), (1e-3, 0.5), (2.0, 0.5), (1e-16, 1e-2), (1.0, 0.5)):
        for d in ((1, 1, 1), (2, 1, 2)): yield dict(kind='adaptive', v=v, d=d)
    yield dict(kind='options')


def setup(tier): solverlib.setup()


def run(case, ctx): warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


class QP:
    """min sum sc_k (0.5 v'H_k v + g_k'v), v = [u; x], x+ = A x + B u + b, x_0 given; every number is a stage-wise parameter"""
    def __init__(self, nx, nu, N, free=False, **opts):
        self.nx, self.nu, self.N = nx, nu, N; nv = self.nv = nx + nu; self.tri = [(i, j) for i in range(nv) for j in range(i + 1)]; nt = len(self.tri)
        x = ca.SX.sym('x', nx); u = ca.SX.sym('u', nu); p = ca.SX.sym('p', nt + nv + nx * (nv + 1)); v = ca.vertcat(u, x); H = ca.SX.zeros(nv, nv)
        for n, (i, j) in enumerate(self.tri): H[i, j] = H[j, i] = p[n]
        c = lambda v, H, g: 0.5 * v.T @ H @ v + g.T @ v; AB = ca.reshape(p[nt + nv:], nx, nv + 1)
        o = AcadosOcp(); m = o.model = AcadosModel(); nm = self.nm = solverlib.name(); m.name = nm; m.x, m.p = x, p
        if nu: m.u = u
        else: m.u = ca.SX.sym('u', 0)
        m.disc_dyn_expr = AB[:, :nx] @ x + (AB[:, nx:nv] @ u if nu else 0) + AB[:, nv]
        o.cost.cost_type = o.cost.cost_type_e = 'EXTERNAL'; m.cost_expr_ext_cost = c(v, H, p[nt:nt + nv]); m.cost_expr_ext_cost_e = c(x, H[nu:, nu:], p[nt + nu:nt + nv]); o.parameter_values = np.zeros(p.shape[0])
        self.x0 = np.array([0.4, -0.3, 0.2])[:nx]
        if not free: o.constraints.x0 = self.x0
        s = o.solver_options; s.N_horizon = N; s.tf = 0.5 * N; s.integrator_type = 'DISCRETE'; s.hessian_approx = 'EXACT'; s.nlp_solver_type = 'SQP_RTI'; s.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; s.qp_solver_cond_N = N; s.qp_solver_ric_alg = 0; s.qp_solver_cond_ric_alg = 0;
        if 'cost_scaling' not in opts: s.cost_scaling = np.ones(N + 1)
        s.qp_solver_tol_stat = s.qp_solver_tol_eq = s.qp_solver_tol_ineq = s.qp_solver_tol_comp = 1e-10; s.qp_solver_iter_max = 100
        for k, w in opts.items():
            if w is not None: setattr(s, k, w)
        self.S = solverlib.solver(o, nm); self.sc = np.ones(N + 1) if 'cost_scaling' not in opts else (np.asarray(opts['cost_scaling']) if opts['cost_scaling'] is not None else np.array([0.5] * N + [1.0]))

    def put(self, Hs, gs, As, Bs, bs):
        for k in range(self.N + 1):
            j = min(k, self.N - 1); H = Hs[k]
            if k == self.N: H = np.block([[np.eye(self.nu), np.zeros((self.nu, self.nx))], [np.zeros((self.nx, self.nu)), H]])
            self.S.set(k, 'p', np.concatenate([[H[i, l] for i, l in self.tri], gs[k], np.column_stack([As[j], Bs[j], bs[j]]).flatten('F')]))

    def zero(self):
        for k in range(self.N + 1):
            self.S.set(k, 'x', self.x0 if k == 0 else np.zeros(self.nx))
            if k < self.N: self.S.set(k, 'u', np.zeros(self.nu)); self.S.set(k, 'pi', np.zeros(self.nx))

    def block(self, k):
        Q = np.atleast_2d(self.S.get_from_qp_in(k, 'Q')); Q = np.tril(Q) + np.tril(Q, -1).T
        if k == self.N: return Q
        R = np.atleast_2d(self.S.get_from_qp_in(k, 'R')).reshape(self.nu, self.nu); R = np.tril(R) + np.tril(R, -1).T; M = np.atleast_2d(self.S.get_from_qp_in(k, 'S')).reshape(self.nu, self.nx); return np.block([[R, M], [M.T, Q]])


def mats(n, tier_q, big=True):
    """every symmetric integer matrix of the size with bounded entries, in a fixed order"""
    tri = [(i, j) for i in range(n) for j in range(i + 1)]
    vals = {1: range(-4, 5), 2: range(-2, 3) if tier_q else range(-3, 4), 3: range(-1, 2) if tier_q else (-2, -1, 0, 1), 4: (-1, 0, 1)}[n]; diag = vals if n < 4 else ((-1, 0, 2) if not tier_q else (-1, 2))
    for e in itertools.product(*[diag if i == j else (vals if n < 4 or not tier_q or abs(i - j) == 1 else (0, 1) if (i, j) == (3, 0) else (0,)) for i, j in tri]):
        H = np.zeros((n, n))
        for (i, j), v in zip(tri, e): H[i, j] = H[j, i] = v
        yield H


def dyn(nx, nu, N):
    As = [np.array([[1.0, 0.5, 0.2], [-0.3, 0.9, 0.1], [0.2, 0.0, 0.8]])[:nx, :nx] * (1 - 0.2 * k) for k in range(N)]; Bs = [np.array([[0.4, 1.0], [1.0, -0.2], [0.3, 0.5]])[:nx, :nu] * (1 + 0.3 * k) for k in range(N)]; bs = [np.array([0.1, -0.2, 0.3])[:nx] * (k + 1) for k in range(N)]; return As, Bs, bs


def grad(nv, N): return [np.cos(np.arange(nv) + 2 * k) for k in range(N + 1)]


def opts_of(c):
    o = dict(regularize_method=c['m'])
    if c.get('eps') is not None: o['reg_epsilon'] = c['eps']
    if c.get('adapt'):
        o['reg_adaptive_eps'] = True
        if c['adapt'][0] is not None: o['reg_max_cond_block'], o['reg_min_epsilon'] = c['adapt']
    return o


def eig_apply(H, f): d, V = np.linalg.eigh(H); return (V * f(d)) @ V.T


def expected(m, H, eps, adapt):
    """documented regularized block"""
    if adapt: d = np.linalg.eigvalsh(H); top = np.max(np.abs(d)) if m == 'MIRROR' else max(np.max(d), 0.0); eps = max(top / adapt[0], adapt[1])
    if m == 'MIRROR': return eig_apply(H, lambda d: np.maximum(eps, np.abs(d)))
    if m == 'PROJECT': return eig_apply(H, lambda d: np.maximum(eps, d))
    return H


def reduced(Hs, As, Bs, nx, nu, N, free):
    """Hessian of the QP in the free variables (controls, and x_0 if free)"""
    n = N * nu + (nx if free else 0); X = [np.zeros((nx, n))]; o = nx if free else 0
    if free: X[0][:, :nx] = np.eye(nx)
    M = np.zeros((n, n))
    for k in range(N + 1):
        if k == N: M += X[k].T @ Hs[k] @ X[k]; break
        U = np.zeros((nu, n)); U[:, o + k * nu:o + (k + 1) * nu] = np.eye(nu); Z = np.vstack([U, X[k]]); M += Z.T @ Hs[k] @ Z; X.append(As[k] @ X[k] + Bs[k] @ U)
    return M


def kkt(Hs, gs, As, Bs, bs, x0, nx, nu, N):
    """solution of the equality constrained QP in (x, u) with multipliers of the dynamics"""
    nw = N * (nx + nu) + nx; off = lambda k: k * (nu + nx); H = np.zeros((nw, nw)); g = np.zeros(nw); C = np.zeros(((N + 1) * nx, nw)); d = np.zeros((N + 1) * nx)
    for k in range(N + 1):
        o = off(k); n = nx if k == N else nx + nu; H[o:o + n, o:o + n] = Hs[k]; g[o:o + n] = gs[k][nu:] if k == N else gs[k]
    C[:nx, nu:nu + nx] = np.eye(nx); d[:nx] = x0
    for k in range(N):
        o = off(k); r = (k + 1) * nx; C[r:r + nx, o:o + nu] = Bs[k]; C[r:r + nx, o + nu:o + nu + nx] = As[k]; q = off(k + 1) + (0 if k + 1 == N else nu); C[r:r + nx, q:q + nx] = -np.eye(nx); d[r:r + nx] = -bs[k]
    K = np.block([[H, C.T], [C, np.zeros((C.shape[0],) * 2)]]); w = np.linalg.solve(K, np.concatenate([-g, d])); v = w[:nw]; pi = w[nw:].reshape(N + 1, nx)[1:]
    return [v[off(k) + (0 if k == N else nu):][:nx] for k in range(N + 1)], [v[off(k):off(k) + nu] for k in range(N)], pi


def k_block(case, ctx):
    nx, nu, N, m, q = (case[k] for k in ('nx', 'nu', 'N', 'm', 'q')); nv = nx + nu; P = QP(nx, nu, N, **opts_of(case)); As, Bs, bs = dyn(nx, nu, N); gs = grad(nv, N); eps = 1e-4 if case['eps'] is None else case['eps']
    adapt = case['adapt'] and [1e7 if case['adapt'][0] is None else case['adapt'][0], 1e-8 if case['adapt'][1] is None else case['adapt'][1]]
    L = list(mats(nv, q)); LN = list(mats(nx, q)); step = 7 if len(L) > 7 else 1; F = (1.0, 0.05, 30.0); heavy = m in ('CONVEXIFY', 'PROJECT_REDUC_HESS'); n = 0
    stride = max(1, len(L) * (2 if heavy else 1) // (250 if q else 6000))
    for i in range(0, len(L), stride):
        f = F[i % 3]; Hs = [f * L[(i + k * step + k * 31) % len(L)] for k in range(N)] + [f * LN[(i * 5 + i // 3) % len(LN)]]; P.put(Hs, gs, As, Bs, bs); got = {}
        for split in (0, 1) if i % 2 else (1, 0):
            P.S.reset() if i % 8 == 0 else None; P.zero()
            if split:
                P.S.options_set('rti_phase', 1); P.S.solve(); got['after preparation'] = [P.block(k) for k in range(N + 1)]; P.S.options_set('rti_phase', 2); P.S.solve(); P.S.options_set('rti_phase', 0)
            else: P.S.solve()
            got[['one call', 'phases'][split]] = [P.block(k) for k in range(N + 1)]
        ctx.state(m, i); ctx.trans(3); tol = 1e-9 * f * 10
        ref = got['one call']; cmp_ph = m != 'CONVEXIFY' or np.linalg.eigvalsh(reduced(Hs, As, Bs, nx, nu, N, False))[0] > 0.05 * f
        for w, Bl in got.items():
            for k in range(N + 1) if cmp_ph else (): ctx.close(Bl[k], ref[k], 'reg-phases', f'{m}: block {k} {w} and in one call differ, matrix {i}', 1e-9, tol)
        for k in range(N + 1):
            H, G = Hs[k], ref[k]
            if not ctx.require(np.all(np.isfinite(G)), 'reg-finite', f'{m}: block {k} of matrix {i} not finite: {H.tolist()}'): continue
            lo = np.linalg.eigvalsh(H)[0] if H.size else 0
            if m in ('NO_REGULARIZE', 'MIRROR', 'PROJECT'):
                E = expected(m, H, eps, adapt); ctx.close(G, E, 'reg-' + m, f'stage {k} of {N}: regularization of {H.tolist()} eps {eps} adaptive {adapt}', 1e-8, tol)
            if m == 'GERSHGORIN_LEVENBERG_MARQUARDT' and H.size:
                rad = np.min(np.diag(H) - (np.abs(H).sum(1) - np.abs(np.diag(H)))); a = (G - H)[0, 0]; ctx.close(G, H + a * np.eye(len(H)), 'reg-GLM', f'stage {k}: {H.tolist()} changed by something else than a multiple of the identity', 1e-9, tol)
                if rad >= eps + 1e-9: ctx.close(a, 0.0, 'reg-GLM', f'stage {k}: {H.tolist()} satisfies the bound but was changed', 0, tol)
                ctx.require(np.linalg.eigvalsh(G)[0] >= eps - 1e-9 * f and -tol <= a <= max(0.0, -rad) + eps + tol, 'reg-GLM', f'stage {k}: {H.tolist()} plus {a} times the identity, eps {eps}')
            if m == 'CONVEXIFY' and k < N: ctx.require(np.linalg.eigvalsh(G)[0] > -1e-8 * f * (1 + np.max(np.abs(G))), 'reg-CONVEXIFY', f'stage {k}: convexified block {G.tolist()} not positive semidefinite; original blocks {[h.tolist() for h in Hs]}') if np.linalg.eigvalsh(reduced(Hs, As, Bs, nx, nu, N, False))[0] > 0.05 * f else None
        if m == 'PROJECT_REDUC_HESS':
            M0 = reduced(Hs, As, Bs, nx, nu, N, True); lo = np.linalg.eigvalsh(M0)[0]; M1 = reduced(ref, As, Bs, nx, nu, N, False); ctx.require(np.linalg.eigvalsh(M1)[0] > -1e-8 * max(np.linalg.eigvalsh(M1)[-1], *[abs(h).max() for h in ref]), 'reg-REDUC', f'reduced Hessian indefinite after projection: blocks {[h.tolist() for h in Hs]}, eigenvalues {np.linalg.eigvalsh(M1)}')
            if lo > 1e-3 * f:
                for k in range(N + 1): ctx.close(ref[k], Hs[k], 'reg-REDUC', f'positive definite reduced Hessian, but block {k} changed', 1e-9, tol)
            else: n += np.linalg.eigvalsh(M1)[0] <= 0
    ctx.outcome('blocks'); ctx.sample(f'{m}: {n} of {len(L)} reduced Hessians not positive definite afterwards')


def k_lm(case, ctx):
    nx, nu, N, lm = (case[k] for k in ('nx', 'nu', 'N', 'lm')); sc = {None: None, 'ones': np.ones(N + 1), 'custom': 0.5 + 0.7 * np.arange(N + 1)}[case['sc']]; P = QP(nx, nu, N, levenberg_marquardt=lm, cost_scaling=sc); As, Bs, bs = dyn(nx, nu, N); gs = grad(nx + nu, N); L = list(mats(nx + nu, True)); LN = list(mats(nx, True))
    for lm1 in (lm, 1.1, 0.0):
        P.S.options_set('levenberg_marquardt', lm1)
        for i in range(0, len(L), max(1, len(L) // 12)):
            Hs = [L[(i + 5 * k) % len(L)] for k in range(N)] + [LN[i % len(LN)]]; P.put(Hs, gs, As, Bs, bs); P.zero(); P.S.solve(); ctx.state(i, lm1); ctx.trans()
            for k in range(N + 1): ctx.close(P.block(k), P.sc[k] * (Hs[k] + lm1 * np.eye(len(Hs[k]))), 'reg-LM', f'Levenberg-Marquardt {lm1} (initially {lm}) scaling {case["sc"]} at stage {k} of {N}', 1e-9, 1e-10)


def k_step(case, ctx):
    """one full step from a given point solves the documented QP"""
    nx, nu, N, t, m, q = (case[k] for k in ('nx', 'nu', 'N', 't', 'm', 'q')); nv = nx + nu; o = dict(nlp_solver_type=t, regularize_method=m if m != 'LM' else 'NO_REGULARIZE')
    if t != 'SQP_RTI': o['nlp_solver_max_iter'] = 1; o['globalization'] = 'FIXED_STEP' if t == 'SQP' else 'FUNNEL_L1PEN_LINESEARCH'
    if t == 'SQP_WITH_FEASIBLE_QP': o['globalization'] = 'FUNNEL_L1PEN_LINESEARCH'
    if m == 'LM': o['levenberg_marquardt'] = 0.7
    P = QP(nx, nu, N, **o); As, Bs, bs = dyn(nx, nu, N); gs = grad(nv, N); L = list(mats(nv, q)); LN = list(mats(nx, q)); f = 1.0; stride = max(1, len(L) // (150 if q else 1500))
    for i in range(0, len(L), stride):
        Hs = [L[(i + k * 38) % len(L)] for k in range(N)] + [LN[(i * 5 + i // 3) % len(LN)]]; lo = np.linalg.eigvalsh(reduced(Hs, As, Bs, nx, nu, N, False))[0]; G = None
        if m == 'NO_REGULARIZE' and lo > 0.1 or m == 'CONVEXIFY' and lo > 0.1: G = Hs
        elif m == 'PROJECT_REDUC_HESS' and np.linalg.eigvalsh(reduced(Hs, As, Bs, nx, nu, N, True))[0] > 0.1: G = Hs
        elif m in ('MIRROR', 'PROJECT'):
            G = [expected(m, H, 1e-4, None) for H in Hs]
        elif m == 'LM': G = [H + 0.7 * np.eye(len(H)) for H in Hs]
        elif m == 'GERSHGORIN_LEVENBERG_MARQUARDT':
            G = []
            for H in Hs: rad = np.min(np.diag(H) - (np.abs(H).sum(1) - np.abs(np.diag(H)))); G.append(H if rad >= 1e-4 else H + (max(0, -rad) + 1e-4) * np.eye(len(H)))
        if G is None or np.linalg.eigvalsh(reduced(G, As, Bs, nx, nu, N, False))[0] < 0.1: continue
        P.S.reset(); P.put(Hs, gs, As, Bs, bs); P.zero(); pts = {}
        st = P.S.solve(); v0 = [np.concatenate([np.zeros(nu), P.x0 if k == 0 else np.zeros(nx)]) for k in range(N + 1)]; full = lambda M, k: M if k < N else np.block([[np.zeros((nu, nu)), np.zeros((nu, nx))], [np.zeros((nx, nu)), M]]); gq = [gs[k] + full(Hs[k] - G[k], k) @ v0[k] for k in range(N + 1)]; xs, us, pis = kkt(G, gq, As, Bs, bs, P.x0, nx, nu, N); ctx.state(i); ctx.trans()
        if st not in (0, 2, 5): ctx.viol('reg-status', f'{t} {m}: status {st} for a convex QP, blocks {[h.tolist() for h in Hs]}'); continue
        if t != 'SQP_RTI' and m != 'NO_REGULARIZE' and P.S.get_stats('nlp_iter') != 1 and not all(np.allclose(a, b) for a, b in zip(G, Hs)): continue
        if t == 'SQP_WITH_FEASIBLE_QP' and (P.S.get_stats('statistics')[11][-1] != 1.0 or not all(np.allclose(a, b) for a, b in zip(G, Hs))): ctx.outcome('step not comparable'); continue
        for k in range(N + 1): ctx.close(P.S.get(k, 'x'), xs[k], 'reg-step', f'{t} {m}: x_{k}, blocks {[h.tolist() for h in Hs]}', 1e-6, 1e-6)
        for k in range(N): ctx.close(P.S.get(k, 'u'), us[k], 'reg-step', f'{t} {m}: u_{k}, blocks {[h.tolist() for h in Hs]}', 1e-6, 1e-6)
        for k in range(N): ctx.close(P.S.get(k, 'pi'), pis[k], 'reg-multipliers', f'{t} {m}: pi_{k}, blocks {[h.tolist() for h in Hs]}', 1e-6, 1e-5)
        ctx.outcome('steps')


def k_adaptive(case, ctx):
    """adaptive Levenberg-Marquardt of DDP: weight = obj_scalar * cost * mu with mu following its recursion over the iterations"""
    lam, mu0, scal, mn, al = case['v']; nx, nu, N = case['d']; P = QP(nx, nu, N, nlp_solver_type='DDP', with_adaptive_levenberg_marquardt=True, adaptive_levenberg_marquardt_lam=lam, adaptive_levenberg_marquardt_mu0=mu0, adaptive_levenberg_marquardt_obj_scalar=scal, adaptive_levenberg_marquardt_mu_min=mn, globalization='FIXED_STEP',
           globalization_fixed_step_length=al, eval_residual_at_max_iter=True, nlp_solver_tol_stat=1e-13, nlp_solver_max_iter=6); As, Bs, bs = dyn(nx, nu, N); gs = [0.05 * g for g in grad(nx + nu, N)]; Hs = [np.eye(nx + nu) * (1 + k) + 0.3 for k in range(N)] + [np.eye(nx) * 2]; P.put(Hs, gs, As, Bs, bs)
    for rep in range(2):
        mu = bar = mu0; cs = []
        for m in range(7):
            P.S.options_set('max_iter', m); P.zero(); xk = P.x0
            for k in range(N): xk = As[k] @ xk + bs[k]; P.S.set(k + 1, 'x', xk)                             # feasible guess: no full first step
            P.S.solve(); c = P.S.get_cost(); ctx.trans(); ctx.state(rep, m, repr(case))
            if P.S.get_stats('nlp_iter') != m: break
            if m:
                if al == 1.0: mu, bar = max(mn, bar / lam), mu
                else: mu = min(lam * mu, 1.0)
            w = scal * c * mu
            for k in range(N + 1): ctx.close(P.block(k), P.sc[k] * (Hs[k] + max(w, 0) * np.eye(len(Hs[k]))) if c > 0 or k < 0 else P.block(k), 'reg-adaptive', f'{case} after {m} iterations, stage {k}, cost {c}', 1e-8, 1e-9)
            ctx.outcome(f'cost positive {c > 0}')


def k_options(case, ctx):
    from acados_template import AcadosOcpOptions
    for a, good, bad in (('regularize_method', ['MIRROR', 'PROJECT', 'CONVEXIFY', 'NO_REGULARIZE', 'PROJECT_REDUC_HESS', 'GERSHGORIN_LEVENBERG_MARQUARDT'], ['mirror', 'LM']), ('levenberg_marquardt', [0.0, 1.0], [-0.1, '1']), ('reg_epsilon', [1e-4, 0.5], [-1.0, '1']), ('reg_max_cond_block', [1e4], [0.5, -1.0]), ('reg_min_epsilon', [0.0, 1e-3], [-1.0]), ('reg_adaptive_eps', [True, False], [1, 'True'])):
        for v in good: o = AcadosOcpOptions(); ctx.accepts(lambda: setattr(o, a, v), 'reg-options', f'{a} = {v!r}'); ctx.require(getattr(o, a) == v, 'reg-options', f'{a} = {v!r} stored as {getattr(o, a)!r}')
        for v in bad: o = AcadosOcpOptions(); ctx.trans(); ctx.rejects(lambda: setattr(o, a, v), 'reg-options', f'{a} = {v!r}')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=2))
