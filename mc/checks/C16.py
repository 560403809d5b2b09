"""C16: (zoro) every zoRO configuration of a lattice (tightened index sets, feedback modes, parametric uncertainty, disturbance input, runtime inputs, dimensions, horizon) is generated and driven through a history of linearizations
and custom updates with all kinds of runtime data; after every update feedback gains, covariances, outputs and the bounds of all stages are compared with an independent model of the recursion and of the tightening;
(sets) all pairs of index subsets of every constraint group; (invalid) inconsistent descriptions are rejected, data of wrong length changes nothing."""
import sys, os, itertools, warnings, ctypes, numpy as np
import mclib, solverlib, ocpspec
import C01, C10
PID = 'C16'
ASSUME = ['nominal bounds are those of the formulation (documented: initialized once)', 'feedback law u = -K x, gain of the first stage zero with feedback optimization', 'regularization of the backoffs with barrier feedback: 1e-8', 'general linear and nonlinear constraints of the first stage are not tightened', 'dimension bounds nx<=3 nu<=2 N<=4']
MODES = ['CONSTANT_FEEDBACK', 'RICCATI_CONSTANT_COST', 'RICCATI_BARRIER_1', 'RICCATI_BARRIER_2']
GR = ['lbx', 'ubx', 'lbx_e', 'ubx_e', 'lbu', 'ubu', 'lg', 'ug', 'lg_e', 'ug_e', 'lh', 'uh', 'lh_e', 'uh_e']
BASE = dict(mode=None, unc=None, inp='P0', G=None, W=None, sets=None, N=None, con=None, out=None, gamma=None, soft=None, dim=None, integ=None, one=None)
ALT = dict(mode=MODES[1:], unc=['NOISE', 'CONSTANT', 'PASSIVE'], inp=['none', 'P0d', 'Wd', 'P0Wd', 'Wadd', 'allfull', 'alldiag', 'Sig', 'Sigd'], G=['tall', 'wide', 'default'], W=['full'], sets=['lower', 'upper', 'first', 'last', 'terminal', 'path', 'rev', 'none'], N=[1, 2, 4], con=['moreE', 'noE', 'onlyE', 'hE', 'gE', 'noh', 'nog', 'nobu', 'nobx', 'boxE'], out=['P', 'Pt', 't'], gamma=[0.0, 2.5], soft=[1], dim=['x1', 'x2u1'], integ=['DISCRETE', 'IRK'], one=[1])


def valid(c):
    if c['unc'] in ('NOISE', 'CONSTANT') and c['integ'] == 'DISCRETE': return False
    if c['inp'] in ('Sig', 'Sigd') and c['unc'] is None: return True
    return True


FULL = [dict(BASE, mode=m, unc=u, inp=i, out='Pt', W='full', G=g, gamma=2.5, sets=s) for m in MODES for u in ('NOISE', 'CONSTANT', None) for i, g, s in (('allfull', 'tall', None), ('alldiag', 'wide', 'rev'), ('Wadd', None, 'first'))]


def cases(tier):
    q = tier == 'quick'
    seen = set()
    for c in list(mclib.lattice(BASE, ALT, 2 if q else 3, valid)) + FULL:
        k = repr(sorted(c.items(), key=str))
        dev = sum(c[f] != BASE[f] for f in BASE)
        if k in seen or (q and dev == 2 and sum(map(ord, k)) % 4): continue
        seen.add(k); yield dict(kind='zoro', c=c)
    for m in MODES:
        for g in GR[::2]:
            for lo in subsets(2):
                for up in subsets(2):
                    if q and (m in MODES[1:3] or (len(lo) + len(up)) % 2 or (m and lo and lo == up)): continue
                    yield dict(kind='zoro', c=dict(BASE, mode=m, N=2 if m == MODES[0] else None), sub={g: lo, 'u' + g[1:]: up}, few=1)
    yield dict(kind='invalid')


def subsets(n): return [list(s) for r in range(n + 1) for s in itertools.permutations(range(n), r)]


def setup(tier): solverlib.setup()


def run(case, ctx): warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


def problem(c, N):
    k = dict(nx=3, nu=2, N=N, bu=2, bx=2, bxe=2, g=2, ge=1, h=2, he=1, np=2, integ=c['integ'] or 'ERK', x0='x0', opts=dict(nlp_solver_type='SQP_RTI'), data={})
    k.update({'x1': dict(nx=1, nu=1, bu=1, bx=1, bxe=1), 'x2u1': dict(nx=2, nu=1, bu=1), None: {}}[c['dim']])
    k.update({None: {}, 'moreE': dict(g=1, ge=2, h=1, he=2), 'noE': dict(bxe=0, ge=0, he=0), 'onlyE': dict(bu=0, bx=0, g=0, h=0, ge=2, he=2), 'hE': dict(bxe=0, ge=0, he=2, h=0), 'gE': dict(g=0, ge=2, he=0), 'noh': dict(h=0, he=0), 'nog': dict(g=0, ge=0), 'nobu': dict(bu=0), 'nobx': dict(bx=0, bxe=0), 'boxE': dict(bx=1, bxe=min(3, k['nx']))}[c['con']])
    if c['soft']: k['soft'] = C01.MOST
    if c['one']: k['onesided'] = 1
    if k['bxe'] == 2 and k['nx'] == 3: k['data'] = dict(idxbx_e=[0, 2])
    P = ocpspec.Problem(ocpspec.spec(**k)); P.d['idxbx_e'] = np.array(P.d['idxbx_e'], int) if 'idxbx_e' in P.d else None
    if P.d['idxbx_e'] is None: del P.d['idxbx_e']
    return P


def describe(c, P, sub=None):
    from acados_template import ZoroDescription
    s = P.s; nx, nu, npar = s['nx'], s['nu'], s['np']; z = ZoroDescription(); nw = {None: nx, 'default': nx, 'tall': max(1, nx - 1), 'wide': nx + 1}[c['G']]
    M = lambda a, b, o: np.array([[0.3 * np.cos(1.1 * i + 1.7 * j + o) for j in range(b)] for i in range(a)])
    z.unc_jac_G_mat = None if c['G'] == 'default' else M(nx, nw, 0.2) + np.eye(nx, nw); z.fdbk_K_mat = M(nu, nx, 0.9); L = M(nx, nx, 2.1); z.P0_mat = 0.02 * (L @ L.T + np.eye(nx)); L = M(nw, nw, 0.4)
    z.W_mat = 0.01 * (L @ L.T + np.eye(nw)) if c['W'] else 0.02 * np.diag(1 + 0.3 * np.arange(nw)); z.backoff_scaling_gamma = 1.0 if c['gamma'] is None else c['gamma']
    n = {'lbx': len(P.d.get('idxbx', [])), 'lbx_e': len(P.d.get('idxbx_e', [])), 'lbu': len(P.d.get('idxbu', [])), 'lg': s['g'], 'lg_e': s['ge'], 'lh': s['h'], 'lh_e': s['he']}
    for g in GR:
        m = n['l' + g[1:]]; a = list(range(m)); e = g.endswith('_e'); t = c['sets']
        a = {None: a, 'lower': a if g[0] == 'l' else [], 'upper': a if g[0] == 'u' else [], 'first': a[:1], 'last': a[-1:], 'terminal': a if e else [], 'path': [] if e else a, 'rev': a[::-1], 'none': []}[t]
        b = g[1:].split('_')[0]
        if c['one']: lim = P.d.get({'h': 'lh', 'g': 'lg', 'x': 'lbx', 'u': 'lbu'}.get(b, 'l' + b).replace('l', g[0], 1) + ('_e' if e else ''), np.zeros(m)); a = [i for i in a if abs(lim[i]) < 1e9]
        if sub is not None: a = [i for i in sub.get(g, []) if i < m]
        setattr(z, f'idx_{g}_t', a)
    z.feedback_optimization_mode = c['mode'] or MODES[0]
    if c['mode']: L = M(nx + nu, nx + nu, 1.3); H = L @ L.T + np.eye(nx + nu); z.riccati_Q_const = H[nu:, nu:]; z.riccati_R_const = H[:nu, :nu]; z.riccati_S_const = H[:nu, nu:]; z.riccati_Q_const_e = None if c['G'] == 'default' else 2.0 * np.eye(nx) + 0.3
    if c['unc'] in ('NOISE', 'CONSTANT'): z.nonlinear_uncertainty_mode = c['unc']
    if c['unc'] or c['inp'] in ('Sig', 'Sigd'): L = M(npar, npar, 2.6); z.Sigma_p_mat = 0.05 * (L @ L.T + np.eye(npar))
    i = c['inp']; z.input_P0 = i in ('P0', 'allfull'); z.input_P0_diag = i in ('P0d', 'P0Wd', 'alldiag'); z.input_W_diag = i in ('Wd', 'P0Wd', 'alldiag', 'allfull'); z.input_W_add_diag = i in ('Wadd', 'alldiag', 'allfull'); z.input_Sigma_p = i in ('Sig', 'allfull'); z.input_Sigma_p_diag = i in ('Sigd', 'alldiag')
    z.output_P_matrices = c['out'] in ('P', 'Pt'); z.output_riccati_t = c['out'] in ('t', 'Pt'); return z


def generate(c, P, nm, sub=None, **kw):
    o = P.ocp(nm); o.zoro_description = describe(c, P, sub); so = o.solver_options; so.custom_update_filename = 'custom_update_function.c'; so.custom_update_header_filename = 'custom_update_function.h'; so.custom_update_copy = False
    so.custom_templates = [('custom_update_function_zoro_template.in.c', 'custom_update_function.c'), ('custom_update_function_zoro_template.in.h', 'custom_update_function.h')]; o.code_gen_options.sens_forw_p = c['unc'] is not None or c['inp'] in ('Sig', 'Sigd', 'allfull', 'alldiag')
    if P.s['integ'] == 'DISCRETE': o.code_gen_options.sens_forw_p = False
    return o


class Model:
    """zoRO recursion and constraint tightening"""
    def __init__(self, c, P, z):
        self.z, self.P, self.c = z, P, c; s = P.s; self.N, self.nx, self.nu = s['N'], s['nx'], s['nu']; f = lambda a: np.array(a, float); self.P0, self.W = f(z.P0_mat), f(z.W_mat); self.G = np.eye(self.nx) if z.unc_jac_G_mat is None else f(z.unc_jac_G_mat); self.Sig = None if z.Sigma_p_mat is None else f(z.Sigma_p_mat); d = P.d
        R = ocpspec.Ref(P); self.nom = []
        for k in range(self.N + 1):
            b = {}
            for q in R.cons[k]: n = {'bu': 'bu', 'bx': 'bx', 'g': 'g', 'h': 'h'}[q[0].split('_')[0]]; b.setdefault('l' + n, []).append(q[2]); b.setdefault('u' + n, []).append(q[3])
            self.nom.append({f: np.array(v) for f, v in b.items()})
        self.beta = {(k, g): np.full(9, 1e-4) for k in range(self.N + 1) for g in ('x', 'u', 'g', 'h')}; self.barrier = 'BARRIER' in z.feedback_optimization_mode; self.ibu, self.ibx, self.ibxe = [np.array(d.get(n, []), int) for n in ('idxbu', 'idxbx', 'idxbx_e')]

    def size(self):
        z, nx, N, nw = self.z, self.nx, self.N, self.W.shape[0]; npar = self.P.s['np']; return nx * z.input_P0_diag + nx * nx * z.input_P0 + nw * z.input_W_diag + N * nw * z.input_W_add_diag + npar * z.input_Sigma_p_diag + npar ** 2 * z.input_Sigma_p + nx * nx * (N + 1) * z.output_P_matrices + z.output_riccati_t

    def update(self, data, qp):
        z, N, nx, nu = self.z, self.N, self.nx, self.nu; nw = self.W.shape[0]; npar = self.P.s['np']; Wadd = np.zeros((N, nw)); o = 0; stream = data is not None and len(data) > 0
        if stream:
            def take(n): nonlocal o; o += n; return np.array(data[o - n:o])
            def diag(M, v):
                M = M.copy()
                for i, x in enumerate(v):
                    if x >= 0: M[i, i] = x
                return M
            if z.input_P0_diag: self.P0 = diag(self.P0, take(nx))
            if z.input_P0: self.P0 = take(nx * nx).reshape(nx, nx, order='F')
            if z.input_W_diag: self.W = diag(self.W, take(nw))
            if z.input_W_add_diag: Wadd = take(N * nw).reshape(N, nw)
            if z.input_Sigma_p_diag: v = take(npar); self.Sig = diag(self.Sig, v) if self.Sig is not None else None
            if z.input_Sigma_p: v = take(npar ** 2).reshape(npar, npar, order='F'); self.Sig = v
        A, B = [q['A'] for q in qp[:N]], [q['B'] for q in qp[:N]]
        K = self.gains(qp, A, B) if z.feedback_optimization_mode != MODES[0] else [np.array(z.fdbk_K_mat, float)] * N
        Pk, Pw, Pi = [self.P0], self.P0, np.zeros((nx, npar)); unc = z.nonlinear_uncertainty_mode
        for k in range(N):
            F = A[k] - B[k] @ K[k]; Q = self.G @ (self.W + np.diag(Wadd[k])) @ self.G.T
            if unc == 'NOISE': S = qp[k]['S_p']; Q = Q + S @ self.Sig @ S.T
            Pw = F @ Pw @ F.T + Q; Pn = Pw
            if unc == 'CONSTANT': Pi = F @ Pi + qp[k]['S_p']; Pn = Pw + Pi @ self.Sig @ Pi.T
            Pk.append(Pn)
        eps = 1e-8 if self.barrier else 0.0; g2 = z.backoff_scaling_gamma ** 2; out = [{f: v.copy() for f, v in b.items()} for b in self.nom]
        ng, nge = self.P.s['g'], self.P.s['ge']
        for k in range(N + 1):
            e = '_e' if k == N else ''; rows = {}
            if k < N: rows['u'] = [-K[k][i] for i in self.ibu]
            if 0 < k: rows['x'] = [np.eye(nx)[i] for i in (self.ibxe if k == N else self.ibx)]
            if 0 < k < N: J = qp[k]['C'] - qp[k]['D'] @ K[k]; rows['g'], rows['h'] = list(J[:ng]), list(J[ng:])
            if k == N: rows['g'], rows['h'] = list(qp[k]['C'][:nge]), list(qp[k]['C'][nge:])
            for g, r in rows.items():
                n = {'u': 'bu', 'x': 'bx', 'g': 'g', 'h': 'h'}[g]; lo, up = [getattr(z, f'idx_{sd}{n}{e}_t', []) for sd in 'lu']
                if not lo and not up: continue
                b = np.array([g2 * v @ Pk[k] @ v + eps for v in r]); self.beta[k, g] = b; back = np.sqrt(b)
                for i in lo: out[k]['l' + n][i] += back[i]
                for i in up: out[k]['u' + n][i] -= back[i]
        return K, Pk, out

    def gains(self, qp, A, B):
        z, N, nx, nu = self.z, self.N, self.nx, self.nu; f = lambda a: np.array(a, float); Q, R, S = f(z.riccati_Q_const), f(z.riccati_R_const), f(z.riccati_S_const); Qe = Q if z.riccati_Q_const_e is None else f(z.riccati_Q_const_e); K = [None] * N; ng, nge = self.P.s['g'], self.P.s['ge']
        def barrier(k):
            H = np.zeros((nu + nx, nu + nx))
            if not self.barrier: return H
            e = '_e' if k == N else ''; off = {'u': 0, 'x': 0, 'g': 0, 'h': nge if k == N else ng}; q = qp[k]
            for g, n in (('u', 'bu'), ('x', 'bx'), ('g', 'g'), ('h', 'h')):
                if g == 'u' and k == N: continue
                for sd in 'lu':
                    for i in getattr(z, f'idx_{sd}{n}{e}_t', []):
                        row = np.zeros(nu + nx)
                        if g == 'u': row[self.ibu[i]] = 1
                        elif g == 'x': row[nu + (self.ibxe if k == N else self.ibx)[i]] = 1
                        else:
                            row[nu:] = q['C'][off[g] + i]
                            if k < N: row[:nu] = q['D'][off[g] + i]
                        b = self.beta[k, g][i]; d = q[sd + {'bu': 'bu', 'bx': 'bx', 'g': 'g', 'h': 'g'}[n]][off[g] + i]; v = (d if sd == 'l' else -d) - np.sqrt(b); H += np.outer(row, row) * (1 / v ** 2 if z.feedback_optimization_mode == MODES[2] else -1 / v / (2 * np.sqrt(b)))
            return H
        V = Qe + barrier(N)[nu:, nu:]
        for k in range(N - 1, 0, -1): H = barrier(k); Rk = R + H[:nu, :nu] + B[k].T @ V @ B[k]; Sk = S + H[:nu, nu:] + B[k].T @ V @ A[k]; K[k] = np.linalg.solve(Rk, Sk); V = Q + H[nu:, nu:] + A[k].T @ V @ A[k] - Sk.T @ K[k]
        K[0] = np.zeros((nu, nx)); return K


def datas(m, M):
    """runtime data of every kind: different values, negative diagonal entries (skipped), zero"""
    z, N, nx, nw, npar = M.z, M.N, M.nx, M.W.shape[0], M.P.s['np']; out = []
    for v in range(3):
        L = 0.1 * np.array([[np.sin(1 + i + 2 * j + v) for j in range(nx)] for i in range(nx)]); P0 = L @ L.T + 0.01 * (1 + v) * np.eye(nx); d = []
        if z.input_P0_diag: x = 0.01 * (1 + v) * (1 + np.arange(nx)); x[-1] *= -1 if v == 1 else 1; d.append(x)
        if z.input_P0: d.append(P0.ravel('F'))
        if z.input_W_diag: x = 0.02 * (1 + v) * (1 + np.arange(nw)); x[0] *= -1 if v == 1 else 1; d.append(x)
        if z.input_W_add_diag: d.append(0.005 * (v + 1) * (1 + np.arange(N * nw)) if v != 2 else np.zeros(N * nw))
        if z.input_Sigma_p_diag: x = 0.03 * (1 + v) * (1 + np.arange(npar)); x[0] *= -1 if v == 1 else 1; d.append(x)
        if z.input_Sigma_p: L = 0.2 * np.array([[np.cos(i + 3 * j + v) for j in range(npar)] for i in range(npar)]); d.append((L @ L.T).ravel('F'))
        if z.output_P_matrices: d.append(np.full(nx * nx * (N + 1), 7.0))
        if z.output_riccati_t: d.append(np.array([-1.0]))
        out.append(np.concatenate(d) if d else np.array([]))
    return out


def k_zoro(case, ctx):
    c = case['c']; N = c['N'] or 3; P = problem(c, N); s = P.s; nm = solverlib.name(); o = generate(c, P, nm, case.get('sub'))
    try: S = solverlib.solver(o, nm)
    except Exception as e: ctx.viol('zoro-generate', f'{type(e).__name__}: {str(e)[:200]}'); return
    z = describe(c, P, case.get('sub')); M = Model(c, P, z); R = ocpspec.Ref(P); ctx.state(repr(c), repr(case.get('sub'))); ctx.require(o.zoro_description.data_size == M.size(), 'zoro-size', f'data_size {o.zoro_description.data_size}, documented inputs and outputs have {M.size()} entries')
    D = datas(None, M); hist = [None] + D + [D[0]]; nx, nu = s['nx'], s['nu']
    if case.get('few'): hist = hist[:3]
    getK = getattr(S.shared_lib, f'{o.name}_acados_get_zoRO_K_matrices'); dp = ctypes.POINTER(ctypes.c_double); getK.argtypes = [ctypes.c_void_p, dp, ctypes.c_int]; getK.restype = ctypes.c_int
    for n, data in enumerate(hist):
        C10.install(S, P, R, 0.15 * n - 0.3, 0); S.options_set('rti_phase', 1); S.solve(); qp = []
        for k in range(N + 1): q = {f: np.asarray(S.get_from_qp_in(k, f)) for f in (['A', 'B'] if k < N else []) + ['C', 'D', 'lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug']}; q = {f: (v.reshape(v.shape[0], nx if f in 'AC' else nu) if v.size or f in 'AB' else np.zeros((v.shape[0], nx if f == 'C' else nu))) if f in 'ABCD' else v.ravel() for f, v in q.items()}; qp.append(q)
        if z.nonlinear_uncertainty_mode != 'NONE':
            for k in range(N): qp[k]['S_p'] = np.asarray(S.get(k, 'S_p')); sens(S, P, R, k, qp[k]['S_p'], n, ctx)
        arr = np.array([]) if data is None else data.copy(); st = S.custom_update(arr); ctx.trans(); ctx.trace(); what = f'update {n} with {"no" if data is None else "runtime"} data'; ctx.require(st == 0, 'zoro-status', f'{what}: status {st}'); K, Pk, want = M.update(None if data is None or not len(data) else data, qp)
        ok = True; buf = np.zeros(N * nu * nx); ctx.require(getK(S.capsule, buf.ctypes.data_as(dp), buf.size) == 0, 'zoro-getK', 'get_zoRO_K_matrices failed')
        for k in range(N): ok &= bool(ctx.close(buf[k * nu * nx:(k + 1) * nu * nx].reshape(nu, nx, order='F'), K[k], 'zoro-K', f'{what}: gain of stage {k}', 1e-9, 1e-10))
        for k in range(N + 1): ok &= bool(ctx.close(S.get(k, 'zoRO_Pk_mats'), Pk[k], 'zoro-P', f'{what}: covariance of stage {k}', 1e-9, 1e-11))
        for k in range(N + 1):
            for f, v in want[k].items(): ok &= bool(ctx.close(np.asarray(S.constraints_get(k, f)).ravel(), v, 'zoro-bounds', f'{what}: {f} of stage {k}', 1e-9, 1e-10))
        if data is not None and len(data):
            i = M.size() - nx * nx * (N + 1) * z.output_P_matrices - z.output_riccati_t; ok &= bool(ctx.close(arr[:i], data[:i], 'zoro-input', f'{what}: the input data', 0, 0))
            if z.output_P_matrices: ok &= bool(ctx.close(arr[i:i + nx * nx * (N + 1)], np.concatenate([p.ravel('F') for p in Pk]), 'zoro-output', f'{what}: returned covariances', 1e-9, 1e-11))
            if z.output_riccati_t: ok &= ctx.require(0 <= arr[-1] < 10 if z.feedback_optimization_mode != MODES[0] else True, 'zoro-time', f'{what}: returned time {arr[-1]}')
        if not ok: return
        S.options_set('rti_phase', 2); S.solve()      # the bounds enter the next QP
        if n == 0:
            for wrong in ([len(D[0]) + 1, len(D[0]) - 1] if len(D[0]) > 1 else []):
                before = [{f: np.asarray(S.constraints_get(k, f)).copy() for f in want[k]} for k in range(N + 1)]; st = S.custom_update(np.full(wrong, 0.5)); ctx.trans(); ctx.require(st != 0, 'zoro-length', f'{wrong} values accepted instead of {len(D[0])}')
                for k in range(N + 1):
                    for f, v in before[k].items(): ctx.close(S.constraints_get(k, f), v, 'zoro-length', f'rejected data changed {f} of stage {k}', 0, 0)
    ctx.outcome(z.feedback_optimization_mode)


def sens(S, P, R, k, Sp, n, ctx):
    x, u = S.get(k, 'x'), S.get(k, 'u'); p = P.d['p']; e = lambda q: R.eval(k, x, u, q, P.d['pg'])['xn']; h = 1e-5; J = np.column_stack([(e(p + h * v) - e(p - h * v)) / (2 * h) for v in np.eye(p.size)]); ctx.close(Sp, J, 'zoro-Sp', f'sensitivity w.r.t. parameters of stage {k}', 1e-6, 1e-7)


def k_invalid(case, ctx):
    c = dict(BASE, mode=MODES[1], unc='NOISE', inp='none'); P = problem(c, 3); lib = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
    def mk(f):
        o = generate(c, P, 'inv'); o.code_gen_options.acados_lib_path = lib; f(o.zoro_description, o); return o
    set_ = lambda n, v: (lambda z, o: setattr(z, n, v)); e = np.eye
    bad = {'both P0 inputs': lambda z, o: (setattr(z, 'input_P0', True), setattr(z, 'input_P0_diag', True)), 'both Sigma inputs': lambda z, o: (setattr(z, 'input_Sigma_p', True), setattr(z, 'input_Sigma_p_diag', True)), 'unknown mode': set_('feedback_optimization_mode', 'X'), 'unknown uncertainty mode': set_('nonlinear_uncertainty_mode', 'X'), 'no Sigma_p': set_('Sigma_p_mat', None), 'no parameter sensitivities': lambda z, o: setattr(o.code_gen_options, 'sens_forw_p', False)}
    for n in ('riccati_Q_const', 'riccati_R_const', 'riccati_S_const'): bad['no ' + n] = set_(n, None)
    for n, sh in dict(riccati_Q_const=(3, 3), riccati_R_const=(2, 2), riccati_S_const=(2, 3), riccati_Q_const_e=(3, 3), Sigma_p_mat=(2, 2), P0_mat=(3, 3), fdbk_K_mat=(2, 3), W_mat=(3, 3), unc_jac_G_mat=(3, 3)).items():
        for d in ((1, 0), (0, 1), (-1, 0), (0, -1)): bad[f'{n} of shape {sh[0] + d[0]}x{sh[1] + d[1]}'] = set_(n, np.ones((sh[0] + d[0], sh[1] + d[1])))
    for g in GR:
        m = {'lbx': 2, 'lbx_e': 2, 'lbu': 2, 'lg': 2, 'lg_e': 1, 'lh': 2, 'lh_e': 1}['l' + g[1:]]
        for v in ([m], [0, 0], [-1], [0, m], list(range(m + 1))): bad[f'idx_{g}_t = {v}'] = set_(f'idx_{g}_t', v)
    for f in ('riccati_S_const', 'P0_mat'): pass
    o = mk(lambda z, o: None); ctx.accepts(lambda: o.make_consistent(verbose=False), 'zoro-valid', 'valid description rejected')
    for n, f in bad.items():
        ctx.state(n); ctx.trans(); o = mk(f); ctx.rejects(lambda: o.make_consistent(verbose=False), 'zoro-invalid', f'accepted: {n}')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=2))
