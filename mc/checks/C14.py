"""C14: (walk) histories of runtime updates of one real solver covering all ordered pairs of update operations (every numerical field of every stage, time steps, condensing horizon, resets, solves), all blocks of the QP compared
after every pair with those of the formulation with the new values; (regen) every field, and all fields together in two orders, updated at runtime against a solver generated with the new values: iterates, multipliers, cost, iteration
counts; (option) every runtime option of every solver type against a solver generated with the option; (invalid) every update of wrong name, size, type or stage is rejected and changes nothing; (numreset) updates followed by a reset of the numerical values."""
import sys, os, copy, itertools, warnings, numpy as np, casadi as ca
import mclib, solverlib, ocpspec
import C01, C10
PID = 'C14'
ASSUME = ['dimension bounds nx<=3 nu<=2 nz<=2 N<=4', 'runtime change of the time steps sets the cost scaling of the path to the time steps', 'values of the initial state are changed as equality (lbx and ubx together)', 'fields documented for cost_set and constraints_set']
X = dict(hessian_approx='EXACT')
FULL = dict(bu=2, bx=1, bxe=1, lin='gge', nl='hall', slack='most', par='both')
CONF = {'nls': dict(FULL), 'lls': dict(FULL, cost='LLS', cost0='LLS', coste='LLS'), 'lls2': dict(FULL, cost='LLS', coste='LLS', integ='IRK'), 'nls0': dict(FULL, cost0='NLS', integ='DISCRETE', slack='all'), 'conl': dict(FULL, cost='CONL', cost0='CONL', coste='CONL', nl='phiall'), 'ext': dict(FULL, cost='EXT', coste='EXT'),
        'mix': dict(FULL, cost='LLS', cost0='EXT', coste='NLS', nl='h', slack='most'), 'exact': dict(FULL, opt='exact'), 'rev': dict(FULL, slack='rev'), 'box': dict(FULL, x0='box', cost='CONL', coste='LLS'), 'N1': dict(FULL, N=1, cost='LLS', coste='LLS'), 'x3': dict(bu=1, bx=2, bxe=2, dim='x3', cost='LLS', coste='LLS', lin='gge', slack='all'),
        'ones': dict(FULL, scaling='custom', grid='steps'), 'plain': dict(bu=1)}
REGEN = dict(CONF, z=dict(FULL, integ='IRKZ2', cost='LLS', coste='LLS'), gnsf=dict(bu=1, bx=1, integ='GNSF', cost='LLS', coste='LLS'), lifted=dict(bu=1, bx=1, integ='LIFTED_IRK'), irkq=dict(bu=1, integ='IRKQ'), full=dict(FULL, opt='full'), c1=dict(FULL, opt='cond1'), osqp=dict(bu=1, bx=1, bxe=1, opt='osqp', cost='LLS', coste='LLS'), scale=dict(FULL, opt='scale'), onesided=dict(FULL, onesided=1), merit=dict(FULL, opt='merit'), funnel=dict(FULL, opt='funnel'), feasqp=dict(bu=1, bx=1, opt='feasqp'), ddp=dict(bu=0, opt='ddp'), hfix=dict(bu=1, bx=1, lin='g', cost='LLS', coste='LLS', opt='hfix', slack='most'))
VEC = ('yref', 'zl', 'zu', 'Zl', 'Zu', 'lbu', 'ubu', 'lbx', 'ubx', 'lg', 'ug', 'lh', 'uh', 'lphi', 'uphi')
_sqp = dict(bu=1, bx=1, nl='h', slack='most'); _ex = dict(hessian_approx='EXACT', regularize_method='PROJECT')
O = lambda f, a, *v, c=None, **o: [dict(f=f, a=a or f, v=x, c=c or _sqp, o=o) for x in v]
M = dict(globalization='MERIT_BACKTRACKING'); FU = dict(globalization='FUNNEL_L1PEN_LINESEARCH'); FQ = dict(FU, nlp_solver_type='SQP_WITH_FEASIBLE_QP'); DD = dict(nlp_solver_type='DDP', globalization='MERIT_BACKTRACKING'); RT = dict(nlp_solver_type='SQP_RTI'); nb = dict(bu=0)
OPTS = sum([O('globalization_fixed_step_length', None, 0.3, 0.9, 0.0), O('globalization_fixed_step_length', None, 0.3, **RT), O('levenberg_marquardt', None, 0.5, 3.0), O('levenberg_marquardt', None, 0.5, **RT), O('levenberg_marquardt', None, 0.5, **_ex),
            O('levenberg_marquardt', None, 0.5, **FQ), O('levenberg_marquardt', None, 0.5, c=nb, **DD), O('max_iter', 'nlp_solver_max_iter', 0, 1, 2), O('nlp_solver_max_iter', None, 0, 1, 3), O('max_iter', 'nlp_solver_max_iter', 2, **FQ), O('max_iter', 'nlp_solver_max_iter', 2, c=nb, **DD)] +
           [O('tol_' + t, 'nlp_solver_tol_' + t, 1e-2, 1e-1, **o) for t in ('stat', 'eq', 'ineq', 'comp') for o in ({}, M, FQ, dict(hessian_approx='EXACT'))] + [O('tol_' + t, 'nlp_solver_tol_' + t, 1e-2, c=nb, **DD) for t in ('stat', 'eq')] +
           [O('qp_tol_' + t, 'qp_solver_tol_' + t, 1e-1, 1e-3) for t in ('stat', 'eq', 'ineq', 'comp')] + [O('qp_tol_' + t, 'qp_solver_tol_' + t, 1e-2, qp_solver='FULL_CONDENSING_HPIPM') for t in ('stat', 'comp')] +
           [O('tau_min', None, 1e-3, 0.1), O('tau_min', None, 1e-2, **RT), O('qp_mu0', 'qp_solver_mu0', 1.0, 30.0), O('qp_mu0', 'qp_solver_mu0', 1.0, qp_solver='FULL_CONDENSING_HPIPM'), O('qp_warm_start', 'qp_solver_warm_start', 0, 1, 2), O('qp_warm_start', 'qp_solver_warm_start', 1, qp_solver='FULL_CONDENSING_HPIPM'), O('qp_t0_init', 'qp_solver_t0_init', 0, 1, 2),
            O('warm_start_first_qp', 'nlp_solver_warm_start_first_qp', True, False), O('warm_start_first_qp_from_nlp', 'nlp_solver_warm_start_first_qp_from_nlp', True, False, nlp_solver_warm_start_first_qp=True), O('warm_start_first_qp', 'nlp_solver_warm_start_first_qp', True, **RT)] +
           [O('globalization_alpha_min', None, 0.6, 0.2, **o) for o in (M, FU)] + [O('globalization_alpha_reduction', None, 0.3, 0.9, **o) for o in (M, FU)] + [O('globalization_eps_sufficient_descent', None, 0.4, 1e-2, globalization_line_search_use_sufficient_descent=1, **o) for o in (M,)] +
           [O('globalization_line_search_use_sufficient_descent', None, 1, 0, **M), O('globalization_full_step_dual', None, 1, 0, **M), O('globalization_full_step_dual', None, 1, globalization_fixed_step_length=0.5), O('globalization_full_step_dual', None, 1, **FU), O('globalization_use_SOC', None, 1, 0, **M)] +
           [O('globalization_funnel_' + f, None, *v, **o) for o in (FU, FQ) for f, v in dict(init_increase_factor=(5.0, 1.5), init_upper_bound=(0.01, 10.0), sufficient_decrease_factor=(0.5, 0.99), kappa=(0.3, 0.95), fraction_switching_condition=(0.5, 1e-6), initial_penalty_parameter=(0.1, 0.7)).items()] +
           [O('with_adaptive_levenberg_marquardt', None, True, False, **o) for o in ({}, M)] + [O('with_adaptive_levenberg_marquardt', None, True, c=nb, **DD)] + [O('adaptive_levenberg_marquardt_' + f, None, v, c=nb, with_adaptive_levenberg_marquardt=True, **DD) for f, v in dict(lam=20.0, mu_min=1e-2, mu0=1.0).items()] +
           [O('adaptive_levenberg_marquardt_' + f, None, v, with_adaptive_levenberg_marquardt=True) for f, v in dict(lam=20.0, mu_min=1e-2, mu0=1.0).items()] + [O('anderson_activation_threshold', None, 1e3, 1e-3, with_anderson_acceleration=True), O('as_rti_level', None, 0, 3, nlp_solver_type='SQP_RTI', as_rti_iter=2), O('as_rti_level', None, 0, 1, 2, 3, c=dict(bu=1, bx=1, cost='EXT', coste='EXT'), nlp_solver_type='SQP_RTI', as_rti_iter=2, as_rti_level=4), O('qp_tau_min', 'tau_min', 1e-3), O('print_level', None, 0), O('qp_print_level', None, 0)], [])


def cases(tier):
    q = tier == 'quick'
    for n in CONF: yield dict(kind='walk', conf=n, dense=not q)
    for n in REGEN:
        for f in [f for f in ['ALL', 'condN', 'W', 'yref', 'V', 'slackw', 'scaling', 'bx', 'bu', 'g', 'CD', 'h', 'x0', 'inf', 'fin', 'num_hess', 'dt'] if n != 'hfix' or f not in ('ALL', 'W', 'V', 'slackw', 'scaling', 'CD')]: yield dict(kind='regen', conf=n, field=f)
    for i in range(len(OPTS)): yield dict(kind='option', n=i, field=OPTS[i]['f'])
    for n in ('nls', 'lls', 'conl', 'mix', 'plain', 'x3', 'N1'): yield dict(kind='invalid', conf=n)
    for n in ('nls', 'lls', 'conl', 'mix', 'rev', 'box', 'ones', 'N1'): yield dict(kind='numreset', conf=n)


def setup(tier): solverlib.setup()


def run(case, ctx): warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


# ---------------------------------------------------------------- numerical data of every stage and what they mean
def stage_data(P, R):
    """fields of every stage under the names of cost_set and constraints_set"""
    s, d = P.s, P.d; N = s['N']; D = []
    for k in range(N + 1):
        suf = '_0' if k == 0 else '_e' if k == N else ''; key = '' if suf == '_0' and s['cost0'] is None else suf; v = {}
        for f in ('W', 'yref', 'Vx', 'Vu', 'Vz'):
            if f + key in d and not (f in ('Vu', 'Vz') and k == N): v[f] = d[f + key].copy()
        zl, zu, Zl, Zu, _, _ = R.slk[k]
        if len(zl): v.update(zl=zl.copy(), zu=zu.copy(), Zl=Zl.copy(), Zu=Zu.copy())
        v['scaling'] = np.array([R.sc[k]]); c = {}
        for g, _, lo, up, _ in R.cons[k]: c.setdefault(g.split('_')[0], []).append((lo, up))
        for g, b in c.items(): n = {'bu': 'bu', 'bx': 'bx', 'g': 'g', 'h': 'h', 'phi': 'phi'}[g]; v['l' + n] = np.array([x[0] for x in b]); v['u' + n] = np.array([x[1] for x in b])
        if 'g' in c: v['C'] = d['C_e' if k == N else 'C'].copy()
        if 'g' in c and k < N and s['nu']: v['D'] = d['D'].copy()
        D.append({f: x for f, x in v.items() if x.size})
    return D


class Blocks(C10.Blocks):
    """QP blocks of the formulation with the data of every stage given separately"""
    def __init__(self, P, R, D): super().__init__(P, R); self.D = D; self.L = {}

    def _cost(self, k):
        R, P = self.R, self.P; s, d = P.s, P.d; kind = R.kinds[k]; key = '' if kind == '_0' and s['cost0'] is None else kind; typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[key]; last = kind == '_e'; S = P.S; w = ca.vertcat(P.u, P.x) if not last else P.x; a = {f: S.sym(f, *np.atleast_2d(self.D[k][f]).shape if self.D[k][f].ndim == 2 else (self.D[k][f].size, 1)) for f in ('W', 'yref', 'Vx', 'Vu') if f in self.D[k]}; sc = S.sym('sc')
        if typ == 'LLS': y = ca.mtimes(a['Vx'], P.x) + (ca.mtimes(a['Vu'], P.u) if 'Vu' in a else 0)
        elif typ != 'EXT': y = P.y[key]
        if typ == 'EXT': l = P.ext[key]; H = ca.hessian(l, w)[0]
        else:
            r = y - a['yref']; J = ca.jacobian(y, w)
            if typ == 'CONL': l = ca.substitute(P.psi[key], P.r_in_psi[key], r); H = ca.mtimes([J.T, ca.substitute(ca.hessian(P.psi[key], P.r_in_psi[key])[0], P.r_in_psi[key], r), J])
            else: l = 0.5 * ca.dot(r, ca.mtimes(a['W'], r)); H = ca.mtimes([J.T, a['W'], J])
        return list(a), ca.Function('c', P.args() + [sc] + list(a.values()), [sc * ca.gradient(l, w), sc * H, sc * ca.hessian(l, w)[0]])

    def ref(self, k, x, u, xn, p, pg, pi, lam):
        R, P, D = self.R, self.P, self.D[k]; s = P.s; N = R.N; nu = s['nu'] if k < N else 0; e = R.eval(k, x, u, p, pg); B = {}
        if k < N: B['A'], B['B'], B['b'] = e['A'][:, nu:], e['A'][:, :nu], e['xn'] - xn
        kind = R.kinds[k]
        if kind not in self.L: self.L[kind] = self._cost(k)
        names, F = self.L[kind]; sc = float(D['scaling'][0]); uu = u if k < N else np.zeros(s['nu']); g, H, Hx = [np.array(v) for v in F(x, uu, np.zeros(s['nz']), p, pg, R.t0[k], sc, *[D[f] for f in names])]; B['r'], B['q'] = g.ravel()[:nu], g.ravel()[nu:]; ns = len(R.slk[k][0])
        for f in ('zl', 'zu', 'Zl', 'Zu'): B[f] = sc * D[f] if ns else np.zeros(0)
        gc, c = e['gc'].copy(), e['c'].copy(); I = {}
        for i, q in enumerate(R.cons[k]): I.setdefault(q[0].split('_')[0], []).append(i)
        if 'g' in I: gc[I['g']] = np.hstack([D['D'] if nu else np.zeros((len(I['g']), 0)), D['C']]); c[I['g']] = D['C'] @ x + (D['D'] @ u if nu else 0)
        G = [i for n in ('g', 'h', 'phi') for i in I.get(n, [])]; B['C'], B['D'] = gc[G][:, nu:], gc[G][:, :nu]; cat = lambda f, n: np.concatenate([D[f + m] for m in n if f + m in D] or [np.zeros(0)])
        for n, m in (('g', ('g', 'h', 'phi')), ('bx', ('bx',)), ('bu', ('bu',))): J = [i for q in m for i in I.get(q, [])]; B['l' + n] = cat('l', m) - c[J]; B['u' + n] = cat('u', m) - c[J]
        if (s['opts'] or {}).get('hessian_approx') == 'EXACT': H = Hx + np.array(R.F[k]['hess'](x, u if k < N else np.zeros(0), p, pg, R.t0[k], pi if k < N else np.zeros(0), lam, 0.0))
        B['R'], B['S'], B['Q'] = H[:nu, :nu], H[:nu, nu:], H[nu:, nu:]; return B


def value(base, f, v, k):
    if v == 0: return base.copy()
    if f == 'scaling': return base * (1 + 0.4 * v) + 0.05 * k
    if f == 'W': return base * (1 + 0.3 * v) + 0.02 * v * (k + 1) * (np.ones(base.shape) if base.shape[0] > 1 else 1)
    if f in ('zl', 'zu', 'Zl', 'Zu', ): return base * (1 + 0.3 * v) + 0.1 * k + 0.05 * np.arange(base.size)
    if f[0] == 'l' and f in VEC: return np.where(np.abs(base) < 1e9, base - 0.07 * v * (k + 1) - 0.02 * np.arange(base.size), base)
    if f[0] == 'u' and f in VEC: return np.where(np.abs(base) < 1e9, base + 0.06 * v * (k + 1) + 0.03 * np.arange(base.size), base)
    return base + v * 0.1 * np.cos(np.arange(base.size) + k).reshape(base.shape)


def put(S, k, f, a):
    if f in ('x0',): S.set(k, 'lbx', a); S.set(k, 'ubx', a)
    elif f in ('W', 'yref', 'Vx', 'Vu', 'Vz', 'zl', 'zu', 'Zl', 'Zu', 'scaling'): S.cost_set(k, f, a, **(dict(api='new') if a.ndim == 2 else {}))
    else: S.constraints_set(k, f, a, **(dict(api='new') if a.ndim == 2 else {}))


def walk_ops(P, D):
    ops = []
    for k, d in enumerate(D):
        for f in d:
            if f in ('lbx', 'ubx') and k == 0 and P.s['x0'] == 'x0': f = 'x0'
            if (k, f) not in ops and f != 'lphi': ops.append((k, f))
    if P.s['N'] > 1: ops += [('condN', None)]
    return ops + [('steps', None), ('reset', None), ('solve', None)]


def k_walk(case, ctx):
    P = ocpspec.Problem(C01.expand(CONF[case['conf']])); s = P.s; N = s['N']; S = C10.build(P); R0 = ocpspec.Ref(P); base = stage_data(P, R0); D = [{f: v.copy() for f, v in d.items()} for d in base]; Bl = {}; dts = [P.d['dt'], P.d['dt'] * np.linspace(1.3, 0.8, N)]; g = 0; n = 0; cn = N
    for i, dt in enumerate(dts): Q = copy.copy(P); Q.d = dict(P.d, dt=dt); Bl[i] = Blocks(P, ocpspec.Ref(Q), D)
    exact = (s['opts'] or {}).get('hessian_approx') == 'EXACT'; p = [P.d['p'] * (1 + 0.1 * k) for k in range(N + 1)]
    for k in range(N + 1): s['np'] and S.set(k, 'p', p[k])
    def check(what):
        pt = C10.install(S, P, R0, 0.4, int(exact)); C10.step(S, P); ctx.trace(); ctx.trans(); ctx.state(case['conf'], what); ok = C10.compare(S, Bl[g], pt, p, P.d['pg'], ctx, 'walk')
        return ok
    if not check('initial'): return
    ops = walk_ops(P, base); pairs = [(a, b) for a in ops for b in ops if case['dense'] or a[0] == b[0] or a[1] == b[1] or not isinstance(a[0], int) or not isinstance(b[0], int) or abs(hash_(a) - hash_(b)) % 7 == 0]
    for a, b in pairs:
        for o in (a, b):
            n += 1; k, f = o
            if f == 'x0': v = value(base[0]['lbx'], 'x0', n % 3, 0); D[0]['lbx'] = D[0]['ubx'] = v; put(S, 0, 'x0', v)
            elif f: D[k][f] = value(base[k][f], f, n % 3, k); put(S, k, f, D[k][f].copy())
            elif k == 'condN': cn = cn % N + 1; S.update_qp_solver_cond_N(cn)
            elif k == 'reset': S.reset()
            elif k == 'solve': S.solve()
            elif k == 'steps':
                g = 1 - g; S.set_new_time_steps(dts[g].copy())
                for j in range(N): D[j]['scaling'] = np.array([dts[g][j]])
        if not check((a, b)): ctx.viol('walk-pair', f'after {a} and {b}'); return
        if n % 50 == 0:
            for k in range(N + 1):
                for f in D[k]:
                    if f in ('lphi',): continue
                    r = np.asarray(S.cost_get(k, f) if f in ('W', 'yref', 'Vx', 'Vu', 'zl', 'zu', 'Zl', 'Zu', 'scaling') else S.constraints_get(k, f)); ctx.require(r.size == D[k][f].size and np.allclose(r.reshape(D[k][f].shape), D[k][f], 1e-14, 1e-14), 'walk-get', f'{f} of stage {k} reads {r.tolist()}, set to {D[k][f].tolist()}')


def hash_(o): return sum(ord(c) for c in str(o[1])) * 3 + (o[0] if isinstance(o[0], int) else 11)


# ---------------------------------------------------------------- against a solver generated with the new values
GROUP = dict(W=('W',), yref=('yref',), V=('Vx', 'Vu', 'Vz'), slackw=('zl', 'zu', 'Zl', 'Zu'), bx=('lbx', 'ubx'), bu=('lbu', 'ubu'), g=('lg', 'ug'), CD=('C', 'D'), h=('lh', 'uh', 'uphi'))


def sol_of(S, N, x0):
    for k in range(N + 1): S.set(k, 'x', x0 * (1 - 0.2 * k))
    st = S.solve(); t = solverlib.traj(S, N); return st, t, S.get_cost(), S.get_stats('sqp_iter') if S.acados_ocp.solver_options.nlp_solver_type != 'SQP_RTI' else 0, np.array(S.get_stats('statistics') if False else 0)


def same(a, b, ctx, key, what, tol=1e-7):
    ok = ctx.require(a[0] == b[0], key, f'{what}: status {a[0]}, generated solver {b[0]}') and ctx.require(a[3] == b[3], key, f'{what}: {a[3]} iterations, generated solver {b[3]}')
    for f in a[1]:
        for k, (u, v) in enumerate(zip(a[1][f], b[1][f])): ok = ok and bool(ctx.close(u, v, key, f'{what}: {f} of stage {k}', tol, tol))
    return ok and bool(ctx.close(a[2], b[2], key, f'{what}: cost', tol, tol))


def k_regen(case, ctx):
    P = ocpspec.Problem(C01.expand(REGEN[case['conf']])); f = case['field']; s = P.s; N = s['N']; d2 = {n: (v.copy() if isinstance(v, np.ndarray) else v) for n, v in P.d.items()}; kw = {}; todo = []
    R = ocpspec.Ref(P); base = stage_data(P, R); fields = sum(GROUP.values(), ()) if f == 'ALL' else GROUP.get(f, ())
    for n in list(d2):
        nm, suf = (n[:-2], n[-2:]) if n[-2:] in ('_0', '_e') else (n, '')
        if nm in fields and d2[n].size and not (n in ('lbx_0', 'ubx_0') and s['x0'] != 'box'): d2[n] = value(P.d[n], nm, 1, 0)
    if f in ('x0', 'ALL') and s['x0'] == 'x0': d2['x0'] = P.d['x0'] + np.array([0.1, -0.05, 0.02][:s['nx']])
    if f in ('scaling', 'ALL') and s['cdisc'] == 'EULER': d2['cost_scaling'] = R.sc * np.linspace(1.2, 0.7, N + 1)
    if f == 'dt' and 'cost_scaling' not in P.d:
        d2['dt'] = P.d['dt'] * np.linspace(1.3, 0.8, N); s = dict(s, grid='steps')
    if f == 'condN':
        if 'cond_N' in str(s['opts']) or 'FULL' in str(s['opts']) or N < 2: return
        kw = dict(qp_solver_cond_N=N - 1)
    if f in ('inf', 'fin'):
        for n in ('lbu', 'ubx', 'lg', 'uh', 'lh_e', 'ubx_e', 'lg_e', 'uphi'):
            if n in d2: d2[n] = d2[n].copy(); d2[n][0] = {'l': -1e10, 'u': 1e10}[n[0]]
        if (s['opts'] or {}).get('qp_solver', '').endswith('OSQP'): return
    if f == 'num_hess': return
    if all(np.array_equal(d2.get(n), P.d.get(n)) for n in d2) and not kw: ctx.outcome('field not present'); return
    Q = copy.copy(P); Q.d = d2; Q.s = dict(s)
    if f == 'fin': P, Q = Q, P; P.s = Q.s          # infinite bounds made finite
    first, second = (P, Q); A_ = first.ocp(na := solverlib.name()); B_ = second.ocp(nb_ := solverlib.name(), **kw); ctx.state(case['conf'], f)
    try: B = solverlib.solver(B_, nb_)
    except Exception as e: ctx.outcome(f'rejected {type(e).__name__}'); return
    A = solverlib.solver(A_, na); ref = stage_data(second, ocpspec.Ref(second)); old = stage_data(first, ocpspec.Ref(first)); upd = [(k, n) for k in range(N + 1) for n in ref[k] if n in old[k] and not np.array_equal(ref[k][n], old[k][n]) and n != 'lphi']; x0 = np.array(second.d['x0'])
    if f == 'dt': A.set_new_time_steps(d2['dt'].copy()); upd = []
    if f == 'condN': A.update_qp_solver_cond_N(N - 1)
    orders = [upd, upd[::-1]]; want = None
    for i, order in enumerate(orders if f == 'ALL' else orders[:1]):
        for k, n in order: put(A, k, n, ref[k][n].copy()); ctx.trans()
        if i: A.reset(); B.reset()
        a = sol_of(A, N, x0); b = sol_of(B, N, x0); ctx.trace(); ctx.outcome(f'status {b[0]}')
        if not same(a, b, ctx, 'regen-' + f, f'{case["conf"]}, order {i}', 1e-6 if s['integ'] in ('IRK', 'GNSF', 'LIFTED_IRK') or 'OSQP' in str(s['opts']) else 1e-8): return
        if i == 0 and f == 'ALL':
            for k, n in upd: put(A, k, n, old[k][n].copy())
            A.solve()


def k_option(case, ctx):
    o = OPTS[case['n']]; P = ocpspec.Problem(C01.expand(o['c'])); s = P.s; N = s['N']; rti = o['o'].get('nlp_solver_type') == 'SQP_RTI'; as_ = 'as_rti' in o['f']; mi = {} if o['f'].endswith('max_iter') else dict(nlp_solver_max_iter=4)
    if o['f'].startswith('tol_') or o['f'].startswith('qp_tol'): mi = {}
    if rti: mi = {}
    A_ = P.ocp(na := solverlib.name(), **{**o['o'], **mi}); gen = {**o['o'], **mi, o['a']: o['v']}
    if o['f'].startswith('tol_'): gen['qp_solver_tol_' + o['f'][4:]] = o['v']
    if o['f'] == 'qp_tau_min': gen = {**o['o'], **mi}
    B_ = P.ocp(nb_ := solverlib.name(), **gen); ctx.state(o['f'], str(o['v']), str(o['o']))
    for q in (A_, B_):
        if o['f'] == 'nlp_solver_max_iter' or o['f'] == 'max_iter': q.solver_options.eval_residual_at_max_iter = True
    B = solverlib.solver(B_, nb_); A = solverlib.solver(A_, na); A.options_set(o['f'], o['v']); ctx.trans(); x0 = P.d['x0']; ctx.trans()
    if o['f'] == 'as_rti_level': ctx.require(A.options_get('as_rti_level') == o['v'] == B.options_get('as_rti_level'), 'option-get', 'as_rti_level reads another value')
    if o['f'] == 'qp_tau_min': A.options_set('tau_min', o['v']); A.options_set('tau_min', A_.solver_options.tau_min); return
    for rep in range(3 if rti else 2):
        f = x0 * (0.5 + rep)
        if as_:
            for S in (A, B):
                for ph in (1, 2): S.options_set('rti_phase', ph); S.solve()
            a, b = [(S.get_status(), solverlib.traj(S, N), S.get_cost(), 0) for S in (A, B)]
        else: a = sol_of(A, N, f); b = sol_of(B, N, f)
        ctx.trace(); ctx.outcome(f'status {b[0]}')
        if not same(a, b, ctx, 'option-' + o['f'], f'{o["f"]} = {o["v"]} with {o["o"]}, solve {rep}', 1e-9): return


# ---------------------------------------------------------------- invalid updates
def k_invalid(case, ctx):
    P = ocpspec.Problem(C01.expand(CONF[case['conf']])); N = P.s['N']; S = C10.build(P); R = ocpspec.Ref(P); D = stage_data(P, R); Bl = Blocks(P, R, D); bad = []; p = [P.d['p'].copy() for _ in range(N + 1)]; C = ('W', 'yref', 'Vx', 'Vu', 'Vz', 'zl', 'zu', 'Zl', 'Zu', 'scaling')
    for k in range(N + 1):
        for f, a in D[k].items():
            fun = (lambda k_, f_, v_: S.cost_set(k_, f_, v_, api='new')) if f in C else (lambda k_, f_, v_: S.constraints_set(k_, f_, v_, api='new'))
            for v in [np.ones(a.size + 1), np.ones(0), np.ones((a.size + 1, 1))] + ([np.ones(a.size - 1)] if a.size > 1 else []) + ([np.ones(a.size), np.ones(a.shape[::-1])] if a.ndim == 2 and a.shape[0] != a.shape[1] else []) + ([np.ones(a.size), np.ones((a.shape[0] + 1, a.shape[1])), np.ones((a.shape[0], a.shape[1] + 1))] if a.ndim == 2 else [np.ones((a.size, 1)), np.ones((1, a.size))]): bad.append((f'{f} of stage {k} with shape {v.shape} instead of {a.shape}', lambda fun=fun, k=k, f=f, v=v: fun(k, f, v)))
            for v in ('x', None): bad.append((f'{f} of stage {k} = {v!r}', lambda fun=fun, k=k, f=f, v=v: fun(k, f, v)))
            for kk in (-1, N + 1, 0.0, '0', None): bad.append((f'{f} of stage {kk!r}', lambda fun=fun, kk=kk, f=f, a=a: fun(kk, f, a)))
        for f in ('nonsense', '', 'idxbx', 'lbx_e', 'Vx_e', 'idxs', 'x', 'p'): bad += [(f'cost {f!r} of stage {k}', lambda k=k, f=f: S.cost_set(k, f, np.ones(1))), (f'constraint {f!r} of stage {k}', lambda k=k, f=f: S.constraints_set(k, f, np.ones(1)))]
        for f in C[:5]:
            if f not in D[k] and not (k == N and f in ('Vu', 'Vz')): bad.append((f'missing cost field {f} of stage {k}', lambda k=k, f=f: S.cost_set(k, f, np.ones(2))))
        for f in ('lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug', 'lh', 'uh', 'uphi', 'C', 'D'):
            if f not in D[k] and f[1:] not in ('phi',): bad.append((f'missing constraint {f} of stage {k}', lambda k=k, f=f: S.constraints_set(k, f, np.ones(2))))
    for f, v in [('nonsense', 1), ('tol_eq', 1), ('tol_eq', '1'), ('max_iter', 1.0), ('max_iter', True and 100000), ('nlp_solver_max_iter', 100000), ('rti_phase', 3), ('rti_phase', -1), ('warm_start_first_qp_from_nlp', 1), ('levenberg_marquardt', 1), ('levenberg_marquardt', None), ('globalization_fixed_step_length', 1), ('qp_warm_start', 1.0), ('as_rti_level', 'A'), ('regularize_method', 'MIRROR'), ('', 1)]: bad.append((f'option {f!r} = {v!r}', lambda f=f, v=v: S.options_set(f, v)))
    bad += [('condensing horizon', lambda: S.update_qp_solver_cond_N(N + 1))]
    check = lambda: C10.compare(S, Bl, (C10.install(S, P, R, 0.4, 0), C10.step(S, P))[0], p, P.d['pg'], ctx, 'invalid-changed')
    for i, (n, f) in enumerate(bad):
        ctx.trans(); ctx.state(case['conf'], n); ctx.rejects(f, 'invalid', f'invalid update accepted: {n}')
        if i % 20 == 0: ctx.trace(); check() or ctx.viol('invalid-seq', f'after rejected {n}')
    check()


def k_numreset(case, ctx):
    """updates followed by reset(reset_numerical_values=True): the solver is the generated one again"""
    P = ocpspec.Problem(C01.expand(CONF[case['conf']])); s = P.s; N = s['N']; S = C10.build(P); R = ocpspec.Ref(P); base = stage_data(P, R); Bl = Blocks(P, R, base); ops = walk_ops(P, base); p0 = [P.d['p'].copy() for _ in range(N + 1)]; dt2 = P.d['dt'] * np.linspace(1.3, 0.8, N)
    for i, (k, f) in enumerate(ops):
        for rep in range(2):
            for o in ([(k, f)] if rep == 0 else [(k, f), ops[(i * 7 + 3) % len(ops)], ('steps', None)]):
                kk, ff = o
                if ff == 'x0': put(S, 0, 'x0', value(base[0]['lbx'], 'x0', 1, 0))
                elif ff: put(S, kk, ff, value(base[kk][ff], ff, 2, kk))
                elif kk == 'condN': S.update_qp_solver_cond_N(max(1, N - 1))
                elif kk == 'reset': S.reset()
                elif kk == 'solve': S.solve()
                elif kk == 'steps': S.set_new_time_steps(dt2.copy())
                ctx.trans()
            for j in range(N + 1): s['np'] and S.set(j, 'p', p0[j] + 1)
            S.reset(reset_numerical_values=True); ctx.state(case['conf'], o); ctx.trace(); pt = C10.install(S, P, R, 0.4, 0); C10.step(S, P)
            if not C10.compare(S, Bl, pt, p0, P.d['pg'], ctx, 'numreset'): ctx.viol('numreset-seq', f'after {(k, f)}, variant {rep}'); return
    for dt in ([0.2], [0.1, 0.2, 0.3, 0.1, 0.05]):     # another horizon: the data of the stages are reset, the grid stays
        if len(dt) == N: continue
        S.set_new_time_steps(np.array(dt)); S.reset(reset_numerical_values=True); n = len(dt); Q = copy.copy(P); Q.d = {k: v for k, v in P.d.items() if k != 'cost_scaling'}; Q.d['dt'] = np.array(dt); Q.s = dict(s, N=n); Rq = ocpspec.Ref(Q)
        if 'cost_scaling' in P.d: continue
        pt = C10.install(S, Q, Rq, 0.4, 0); C10.step(S, Q); ctx.trace(); C10.compare(S, Blocks(Q, Rq, stage_data(Q, Rq)), pt, [P.d['p']] * (n + 1), P.d['pg'], ctx, 'numreset-N')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=400, chunk=2))
