"""C08: every formulation/option within a bounded number of deviations from a base OCP is solved tightly by the real solver; forward sensitivities of every field and stage wrt the initial state and every global parameter,
adjoint sensitivities for every unit seed (stage, entry) and for combined seeds, value gradients and the value Hessian are compared with (Richardson) difference quotients of the re-solved problem;
(order) all sequences of sensitivity calls up to a depth give the same results and leave the solution untouched; (flags) every subset of returned fields and of stages; (reject) every missing precondition is rejected."""
import sys, os, itertools, warnings, numpy as np, casadi as ca
import mclib, solverlib, ocpspec
import C01
PID = 'C08'
ASSUME = ['differentiability: instances at which no constraint is weakly active (checked on the computed solution)', 'HPIPM as QP solver, exact Hessian without regularization (documented requirements)', 'solution refined to 1e-9 before differentiation']
DEPS = ['dyn', 'cost', 'cost0', 'coste', 'h', 'h0', 'he']
BASE = dict(dep='all', bu=None, bx=None, lin=None, nl=None, slack=None, dim=None, N=None, par=None, sym=None, cost=None, scaling=None, opt=None, x0=None, integ=None, solver=None, flags=None, one=None)
ALT = dict(dep=DEPS + ['pair'], bu=[0, 2], bx=['bx', 'bxe', 'both'], lin=['g', 'ge', 'gge'], nl=['h', 'hh', 'h0', 'he', 'hall'], slack=['most', 'all', 'e', 'rev'], dim=['x1', 'x3', 'u1'], N=[1, 4], par=['p', 'g1'], sym=['MX'], cost=['LLS', 'LLSe', 'cost0', 'LLS0', 'NLS'],
           scaling=['custom', 'ones'], opt=['robust', 'balance', 'warm', 'merit', 'noelim'], x0=['none', 'box', 'partial'], integ=['ERK', 'IRK', 'ERK4'], solver=['RTI', 'feasqp'], flags=['adj', 'fwd', 'val'], one=[1])
PAR = lambda c: c['integ'] is None and c['cost'] != 'NLS'          # parametric sensitivities available


def valid(c):
    if c['cost'] == 'NLS' and c['flags']: return False
    if c['integ'] and (c['flags'] or c['dep'] != 'all'): return False
    if c['dep'] in ('h', 'h0', 'he') and c['nl'] is None: return False
    if c['dep'] == 'h' and c['nl'] not in ('h', 'hh', 'hall') or c['dep'] == 'h0' and c['nl'] not in ('h0', 'hall') or c['dep'] == 'he' and c['nl'] not in ('he', 'hall'): return False
    if c['dep'] == 'cost0' and c['cost'] != 'cost0': return False
    if c['dep'] in ('cost', 'coste') and c['cost'] in ('LLS', 'LLSe', 'NLS'): return False
    if c['slack'] and not (c['bx'] or c['lin'] or c['nl']) and c['slack'] != 'all': return False
    if c['slack'] == 'e' and not (c['bx'] in ('bxe', 'both') or c['lin'] in ('ge', 'gge') or c['nl'] in ('he', 'hall')): return False
    if c['slack'] == 'rev' and c['solver'] == 'feasqp': return False
    if c['dim'] in ('x1', 'u1') and c['bu'] == 2: return False
    if c['x0'] and c['solver'] == 'RTI' : return True
    return True


def cases(tier):
    q = tier == 'quick'
    for c in mclib.lattice(BASE, ALT, 2 if q else 3, valid):
        dev = [f for f in BASE if c[f] != BASE[f]]
        if q and len(dev) == 2 and sum(map(ord, repr(sorted(c.items(), key=str)))) % 3: continue
        if not q and len(dev) == 3 and sum(map(ord, repr(sorted(c.items(), key=str)))) % 8: continue
        yield dict(kind='sens', c=c)
    for f in ALT['flags']:
        for nl in ('hh', 'hall'): yield dict(kind='sens', c=dict(BASE, nl=nl, flags=f))
    for d in ('h', 'he', 'h0'): yield dict(kind='sens', c=dict(BASE, nl='hall', dep=d, slack='most', bx='both', lin='gge', N=4))
    for c in (dict(BASE, nl='h', bx='both', slack='most'), dict(BASE, nl='hall', N=1)):
        for i in range(6): yield dict(kind='order', c=c, first=i, depth=2 if q else 3)
        yield dict(kind='flags', c=c)
    yield dict(kind='control')
    yield dict(kind='reject')


def setup(tier): solverlib.setup()


def run(case, ctx): warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


def spec(c):
    k = dict(bu=1 if c['bu'] is None else c['bu'], integ='DISCRETE', cost='EXT', coste='EXT', npg=2, x0=c['x0'] or 'x0', scaling=c['scaling'], N=c['N'] or 3, sym=c['sym'] or 'SX', data={})
    k.update({'bx': dict(bx=2), 'bxe': dict(bxe=2), 'both': dict(bx=1, bxe=1), None: {}}[c['bx']]); k.update({'g': dict(g=1), 'gge': dict(g=2, ge=1), 'ge': dict(ge=2), None: {}}[c['lin']])
    k.update({'h': dict(h=1), 'hh': dict(h=2), 'h0': dict(h0=1), 'he': dict(he=1), 'hall': dict(h=2, h0=1, he=2), None: {}}[c['nl']])
    k.update({None: {}, 'most': dict(soft=C01.MOST), 'all': dict(soft=C01.ALLSOFT), 'e': dict(soft=('bx_e', 'g_e', 'h_e', 'phi_e')), 'rev': dict(soft=C01.MOST, rev=1)}[c['slack']])
    k.update({'x1': dict(nx=1, nu=1), 'x3': dict(nx=3), 'u1': dict(nu=1), None: {}}[c['dim']]); k.update({'p': dict(np=2), 'g1': dict(npg=1), None: {}}[c['par']])
    k.update({None: {}, 'LLS': dict(cost='LLS'), 'LLSe': dict(coste='LLS'), 'cost0': dict(cost0='EXT'), 'LLS0': dict(cost0='LLS'), 'NLS': dict(cost='NLS', coste='NLS')}[c['cost']])
    k.update({None: {}, 'ERK': dict(integ='ERK'), 'IRK': dict(integ='IRK'), 'ERK4': dict(integ='ERK', stages=4, steps=2)}[c['integ']])
    if c['one']: k['onesided'] = 1
    opts = dict(hessian_approx='EXACT', nlp_solver_tol_stat=1e-9, nlp_solver_tol_eq=1e-10, nlp_solver_tol_ineq=1e-10, nlp_solver_tol_comp=1e-9, qp_solver_ric_alg=0, qp_solver_cond_ric_alg=0, qp_solver_tol_stat=1e-11, qp_solver_tol_eq=1e-12, qp_solver_tol_ineq=1e-12, qp_solver_tol_comp=1e-11, qp_solver_iter_max=200)
    opts.update({None: {}, 'ricsqrt': dict(qp_solver_ric_alg=1), 'robust': dict(hpipm_mode='ROBUST'), 'balance': dict(hpipm_mode='BALANCE'), 'warm': dict(qp_solver_warm_start=1), 'merit': dict(globalization='MERIT_BACKTRACKING'), 'noelim': {}, 'cond2': dict(qp_solver_cond_N=2), 'full': dict(qp_solver='FULL_CONDENSING_HPIPM')}[c['opt']])
    if c['opt'] == 'cond2': opts['qp_solver_cond_N'] = max(1, k['N'] - 1)
    if c['solver'] == 'RTI':
        opts['nlp_solver_type'] = 'SQP_RTI'
        for f in ('stat', 'eq', 'ineq', 'comp'): opts.pop(f'nlp_solver_tol_{f}')
    if c['solver'] == 'feasqp': opts.update(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH')
    k['opts'] = opts; return ocpspec.spec(**k)


def problem(c):
    P = ocpspec.Problem(spec(c)); x, u, pg, s = P.x, P.u, P.pg, P.s; dep = {'all': DEPS, 'pair': ['dyn', 'cost', 'coste', 'h', 'he', 'h0']}.get(c['dep'], [c['dep']]); g = lambda i: pg[i % s['npg']]; zero = ca.SX.zeros if s['sym'] == 'SX' else ca.MX.zeros
    Q = ocpspec.Problem(P.s, pg=(ca.SX if s['sym'] == 'SX' else ca.MX)(P.d['pg'])); rep = lambda e: e                     # expressions without global parameters come from fixed values
    fix = lambda e: ca.substitute(e, pg, ca.DM(P.d['pg']))
    if s['integ'] == 'DISCRETE': P.disc = fix(P.disc) if 'dyn' not in dep else P.disc + 0.1 * g(1) * ca.vertcat(*[u[0] * x[0] if i == 0 else x[i] ** 2 for i in range(s['nx'])]) - (0 if c['dep'] != 'pair' else 0.2 * g(0) * x)
    for suf, n in (('', 'cost'), ('_0', 'cost0'), ('_e', 'coste')):
        if suf in P.ext: P.ext[suf] = fix(P.ext[suf]) if n not in dep else P.ext[suf] + 0.3 * g(1) ** 2 * x[0] ** 2 + 0.2 * ca.sin(g(0)) * x[-1] + (0.1 * g(1) * u[0] * (1 + x[0]) if suf != '_e' else 0) + 0.15 * g(0) ** 2
    for key, n in (('h', 'h'), ('h_0', 'h0'), ('h_e', 'he')):
        if key in P.c: P.c[key] = P.c[key] + (ca.vertcat(*[0.1 * g(i) * (1 + x[0]) + 0.2 * g(i + 1) ** 2 * (u[0] if key != 'h_e' else x[-1]) - 0.05 for i in range(P.c[key].shape[0])]) if n in dep else 0)
    return P


def ocp(c, P, nm):
    o = P.ocp(nm); f = c['flags']
    if PAR(c): o.code_gen_options.with_solution_sens_wrt_params_forw = f in (None, 'fwd'); o.code_gen_options.with_solution_sens_wrt_params_adj = f in (None, 'adj'); o.code_gen_options.with_value_sens_wrt_params = f in (None, 'val')
    if c['opt'] == 'noelim': o.constraints.remove_x0_elimination()
    return o


def refine(S, c):
    n = 40 if c['solver'] == 'RTI' else 1
    for i in range(n):
        st = S.solve()
        if c['solver'] == 'RTI' and i > 3 and max(S.get_residuals(recompute=True)) < 1e-10: break
    return st == 0


FIELDS = ['x', 'u', 'pi', 'lam', 'sl', 'su']


def fetch(S, N): return {(f, k): np.array(S.get(k, f)) for f in FIELDS for k in range(N + (f not in ('u', 'pi')))}


class Inst:
    """a converged instance with difference quotients of its solution"""
    def __init__(self, c, ctx):
        self.c = c; self.P = P = problem(c); self.N = N = P.s['N']; self.nm = solverlib.name(); self.ctx = ctx; self.ok = False; self.par = PAR(c)
        try: self.S = S = solverlib.solver(ocp(c, P, self.nm), self.nm)
        except (NotImplementedError, ValueError) as e: ctx.viol('sens-create', f'valid problem rejected: {e}'[:300]); return
        self.has_x0 = c['x0'] is None
        if not refine(S, c): ctx.outcome('not converged'); return
        self.base = S.store_iterate_to_flat_obj(); self.sol = fetch(S, N); self.cost = S.get_cost()
        for k in range(N + 1):                                    # strict complementarity
            lam = self.sol['lam', k]; n = lam.size // 2; t = self.slacks(k)
            if t is not None and np.any((np.abs(lam[:t.size]) < 2e-3) & (np.abs(t) < 2e-3)): ctx.outcome('weakly active'); return
        self.ok = True

    def slacks(self, k):
        import C01
        R = self.R if hasattr(self, 'R') else setattr(self, 'R', ocpspec.Ref(self.P)) or self.R
        x, u = self.sol['x', k], self.sol['u', k] if k < self.N else np.zeros(0); sl, su = self.sol['sl', k], self.sol['su', k]; e = R.eval(k, x, u); out = []
        lo, up = [], []
        for i, q in enumerate(R.cons[k]):
            v = float(np.ravel(e['c'])[i]) if 'c' in e else None
            if v is None: return None
            j = q[4] if len(q) > 4 else -1
            eq = abs(q[3] - q[2]) < 1e-9; lo.append(1.0 if eq else v - q[2] + (sl[j] if j >= 0 else 0) if q[2] > -1e9 else 1.0); up.append(1.0 if eq else q[3] - v + (su[j] if j >= 0 else 0) if q[3] < 1e9 else 1.0)
        return np.array(lo + up + list(sl) + list(su))

    def move(self, wrt, v):
        if wrt == 'initial_state': self.S.constraints_set(0, 'lbx', v); self.S.constraints_set(0, 'ubx', v)
        elif wrt == 'p_global': self.S.set_p_global_and_precompute_dependencies(v)

    def quotient(self, wrt, h=2e-3):
        """d solution / d wrt[j] for every j, and d cost"""
        v0 = self.P.d['x0' if wrt == 'initial_state' else 'pg']; cols = []
        for j in range(v0.size):
            val = []
            for a in (1, -1, 2, -2):
                v = v0.copy(); v[j] += a * h; self.move(wrt, v); self.S.load_iterate_from_flat_obj(self.base)
                if not refine(self.S, self.c): self.move(wrt, v0); return None
                val.append(dict(fetch(self.S, self.N), cost=np.array([self.S.get_cost()])))
            one, two = {f: (val[0][f] - val[1][f]) / (2 * h) for f in val[0]}, {f: (val[2][f] - val[3][f]) / (4 * h) for f in val[0]}
            if any(np.max(np.abs(one[f] - two[f]), initial=0) > 2e-3 * (1 + np.max(np.abs(one[f]), initial=0)) for f in one if f[0] != 'lam' or f[1]): self.restore(wrt); self.ctx.outcome('active set changes'); return None
            cols.append({f: (4 * one[f] - two[f]) / 3 for f in one})
        self.restore(wrt); return {f: np.column_stack([c[f] for c in cols]) for f in cols[0]}

    def restore(self, wrt=None):
        for w in ([wrt] if wrt else ['initial_state'] * self.has_x0 + ['p_global'] * (self.P.s['npg'] > 0)): self.move(w, self.P.d['x0' if w == 'initial_state' else 'pg'])
        self.S.load_iterate_from_flat_obj(self.base); refine(self.S, self.c); self.S.setup_qp_matrices_and_factorize()

    def forward(self, wrt, stages=None, check=False):
        st = list(range(self.N + 1)) if stages is None else stages; r = self.S.eval_solution_sensitivity(st, wrt, return_sens_x=True, return_sens_u=True, return_sens_pi=True, return_sens_lam=True, return_sens_sl=True, return_sens_su=True, sanity_checks=check); out = {}
        for f in FIELDS:
            ks = [k for k in st if k < self.N or f not in ('u', 'pi')]
            for k, v in zip(ks, r['sens_' + f]): out[f, k] = v
        return out

    def unseeds(self): return [(f, k, i) for f in ('x', 'u') for k in range(self.N + (f == 'x')) for i in range(self.sol[f, k].size)]

    def adjoint(self, entries, check=False):
        sx, su = {}, {}
        for n, (f, k, i) in enumerate(entries): (sx if f == 'x' else su).setdefault(k, np.zeros((self.sol[f, k].size, len(entries))))[i, n] = 1.0
        return self.S.eval_adjoint_solution_sensitivity(list(sx.items()) or None, list(su.items()) or None, sanity_checks=check)

    def same_solution(self, what):
        s = fetch(self.S, self.N)
        for f in s: self.ctx.close(s[f], self.sol[f], 'sens-solution', f'{what} changed {f[0]} of stage {f[1]}', 1e-6, 1e-7)


def k_sens(case, ctx):
    c = case['c']; I = Inst(c, ctx); ctx.state(repr(c))
    if not I.ok: return
    S, P, N = I.S, I.P, I.N; check = c['opt'] in (None, 'robust', 'balance', 'warm', 'noelim', 'merit'); tol = dict(rtol=2e-4, atol=2e-4); ctx.trace()
    wrts = (['initial_state'] if I.has_x0 else []) + (['p_global'] if I.par else [])
    D = {w: I.quotient(w) for w in wrts}
    I.restore(wrts[-1] if wrts else None)
    for w in wrts:
        if D[w] is None: ctx.outcome('neighbour not solved'); continue
        fwd = w == 'initial_state' or c['flags'] in (None, 'fwd')
        if fwd:
            before = S.store_iterate_to_flat_obj(); F = I.forward(w, check=check); ctx.trans(len(F)); after = S.store_iterate_to_flat_obj()
            for f in ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam'): ctx.close(getattr(after, f), getattr(before, f), 'sens-solution', f'forward sensitivity wrt {w} changed {f}', 0, 0)
            if I.has_x0:                                          # multipliers of the two sides of an equality: only their difference is determined
                nb = len(P.d.get('idxbu', [])); n0 = I.sol['lam', 0].size // 2 - I.sol['sl', 0].size; rows = list(range(nb, nb + P.s['nx']))
                def net(M): M = M.copy(); M[rows] -= M[[r + n0 for r in rows]]; M[[r + n0 for r in rows]] = 0; return M
            else: net = lambda M: M
            for (f, k), v in F.items():
                if (f, k) == ('lam', 0): ctx.close(net(v), net(D[w][f, k]), 'sens-' + w, f'd lam_0 / d {w}', tol['rtol'], tol['atol'] * 10); continue
                ctx.close(v, D[w][f, k], 'sens-' + w, f'd {f}_{k} / d {w}', tol['rtol'], tol['atol'] * (10 if f in ('lam', 'pi') else 1))
        if w == 'p_global' and c['flags'] in (None, 'adj'):
            E = I.unseeds(); A = I.adjoint(E, check); ctx.trans(len(E)); want = np.array([D[w][f, k][i] for f, k, i in E]); ctx.close(A, want, 'sens-adjoint', 'adjoint sensitivities of all unit seeds', tol['rtol'], tol['atol'])
            comb = np.cos(np.arange(len(E))); sx = [(k, np.array([[comb[n]] for n, e in enumerate(E) if e[:2] == ('x', k)])) for k in range(N + 1)]; su = [(k, np.array([[comb[n]] for n, e in enumerate(E) if e[:2] == ('u', k)])) for k in range(N) if I.sol['u', k].size]
            ctx.close(S.eval_adjoint_solution_sensitivity(sx, su, sanity_checks=check), (comb @ want)[None], 'sens-adjoint', 'adjoint sensitivity of a seed on all stages', tol['rtol'], tol['atol'] * 5)
        if c['opt'] == 'noelim' and w == 'initial_state': continue
        if w == 'initial_state' or c['flags'] in (None, 'val'):
            ctx.trans(); ctx.close(S.eval_and_get_optimal_value_gradient(w), D[w]['cost'].ravel(), 'sens-value', f'gradient of the optimal value wrt {w}', tol['rtol'], tol['atol'])
        if w == 'initial_state' and not c['slack'] == 'rev':
            nb = len(P.d.get('idxbu', [])); nx = P.s['nx']; L = D[w]['lam', 0]; m = L.shape[0] // 2 - I.sol['sl', 0].size; H = L[nb:nb + nx] - L[m + nb:m + nb + nx]; g = 1
            if check: ctx.trans(); ctx.close(S.eval_and_get_optimal_value_hessian(w), H, 'sens-value', 'Hessian of the optimal value', tol['rtol'], tol['atol'] * 10)
    I.same_solution('evaluating sensitivities'); ctx.outcome('compared')


CALLS = [('fx', lambda I: I.forward('initial_state')), ('fp', lambda I: I.forward('p_global')), ('adj', lambda I: I.adjoint(I.unseeds())), ('adj1', lambda I: I.adjoint([('x', I.N, 0)])), ('vx', lambda I: I.S.eval_and_get_optimal_value_gradient('initial_state')),
         ('vp', lambda I: I.S.eval_and_get_optimal_value_gradient('p_global'))]


def flat(r): return np.concatenate([np.ravel(v) for _, v in sorted(r.items(), key=lambda kv: str(kv[0]))]) if isinstance(r, dict) else np.ravel(r)


def k_order(case, ctx):
    I = Inst(case['c'], ctx)
    if not I.ok: ctx.viol('sens-order', 'base instance not usable'); return
    I.restore(); ref = {}
    for n, f in CALLS: I.S.setup_qp_matrices_and_factorize(); ref[n] = flat(f(I))
    for seq in itertools.product(range(len(CALLS)), repeat=case['depth'] - 1):
        I.S.setup_qp_matrices_and_factorize(); ctx.trace(); hist = (case['first'],) + seq
        for m, i in enumerate(hist):
            n, f = CALLS[i]; ctx.state(hist[:m + 1]); ctx.trans(); ctx.close(flat(f(I)), ref[n], 'sens-order', f'{n} after {[CALLS[j][0] for j in hist[:m]]}', 1e-7, 1e-8)
    I.same_solution('the sequence of calls')


def k_flags(case, ctx):
    I = Inst(case['c'], ctx)
    if not I.ok: ctx.viol('sens-flags', 'base instance not usable'); return
    I.restore()
    for w in ('initial_state', 'p_global'):
        I.S.setup_qp_matrices_and_factorize(); ref = I.forward(w)
        for fl in itertools.product([False, True], repeat=6):
            kw = {f'return_sens_{f}': b for f, b in zip(FIELDS, fl)}
            for st in ([0], [I.N], list(range(I.N + 1)), list(range(I.N, -1, -1)), 0, I.N - 1):
                L = st if isinstance(st, list) else [st]; r = I.S.eval_solution_sensitivity(st, w, **kw); ctx.trans(); ctx.state(w, fl, st)
                ctx.require(set(r) == {'sens_' + f for f, b in zip(FIELDS, fl) if b}, 'sens-flags', f'{kw}: returned {sorted(r)}')
                for f in FIELDS:
                    if 'sens_' + f not in r: continue
                    ks = [k for k in L if k < I.N or f not in ('u', 'pi')]; got = r['sens_' + f] if isinstance(st, list) else [r['sens_' + f]]
                    if not ctx.require(len(got) == len(ks), 'sens-flags', f'{f} of stages {st}: {len(got)} entries'): continue
                    for k, v in zip(ks, got): ctx.close(v, ref[f, k], 'sens-flags', f'{f} of stage {k} requested with stages {st}', 1e-8, 1e-9)


def k_control(case, ctx):
    """Q-function: gradient wrt the initial control"""
    for nu, extra in itertools.product((1, 2), (dict(), dict(nl='hall'), dict(bx='both', slack='most'), dict(nl='h0', slack='most', lin='gge'))):
        c = dict(BASE, dim='u1' if nu == 1 else None, bu=None if nu == 1 else 2, **extra); P = problem(c); nm = solverlib.name(); o = ocp(c, P, nm); S = solverlib.solver(o, nm); b = np.array([0.2, -0.3])[:nu]; idx = P.d['idxbu']
        def at(v):
            S.constraints_set(0, 'lbu', v); S.constraints_set(0, 'ubu', v); st = S.solve(); return S.get_cost() if st == 0 else np.nan
        h = 2e-3; D = [(8 * (at(b + h * e) - at(b - h * e)) - at(b + 2 * h * e) + at(b - 2 * h * e)) / (12 * h) for e in np.eye(nu)]; at(b); ctx.state(nu, repr(extra)); ctx.trans()
        if np.all(np.isfinite(D)): ctx.close(S.eval_and_get_optimal_value_gradient('initial_control'), D, 'sens-control', f'gradient of the Q-function, nu={nu}, {extra}', 2e-4, 2e-4); ctx.outcome('compared')


def k_reject(case, ctx):
    c0 = dict(BASE)
    def mk(f=None, **kw):
        c = dict(c0, **kw); P = problem(c); nm = solverlib.name(); o = ocp(c, P, nm)
        if f: f(o)
        return o, nm
    so = lambda n, v: (lambda o: setattr(o.solver_options, n, v)); cg = lambda n, v: (lambda o: setattr(o.code_gen_options, n, v))
    o, nm = mk(); S = solverlib.solver(o, nm); S.solve(); z = lambda *s: np.zeros(s); adj = S.eval_adjoint_solution_sensitivity
    for n, f in {'stage N+1': lambda: S.eval_solution_sensitivity(4, 'p_global'), 'stage -1': lambda: S.eval_solution_sensitivity([0, -1], 'initial_state'), 'float stage': lambda: S.eval_solution_sensitivity(1.0, 'initial_state'), 'unknown field': lambda: S.eval_solution_sensitivity(0, 'p'),
                 'no seeds': lambda: adj(None, None), 'empty seeds': lambda: adj([], []), 'seed of wrong dimension': lambda: adj([(0, z(3, 1))], None), 'seed of wrong dimension u': lambda: adj(None, [(0, z(1, 1))]), 'different numbers of seeds': lambda: adj([(0, z(2, 1)), (1, z(2, 2))], None),
                 'different numbers of seeds x/u': lambda: adj([(0, z(2, 1))], [(0, z(2, 2))]), 'seed at stage N+1': lambda: adj([(4, z(2, 1))], None), 'vector seed': lambda: adj([(0, z(2))], None), 'list seed': lambda: adj([(0, [[1], [2]])], None), 'no tuple': lambda: adj([[0, z(2, 1)]], None),
                 'unknown wrt': lambda: adj([(0, z(2, 1))], None, with_respect_to='p'), 'seed u at stage N': lambda: adj(None, [(3, z(2, 1))]), 'value wrt unknown': lambda: S.eval_and_get_optimal_value_gradient('p'), 'value wrt control': lambda: S.eval_and_get_optimal_value_gradient('initial_control'),
                 'Hessian wrt p_global': lambda: S.eval_and_get_optimal_value_hessian('p_global')}.items(): ctx.state(n); ctx.trans(); ctx.rejects(f, 'sens-reject', n)
    none = lambda o: [setattr(o.code_gen_options, n, False) for n in ('with_solution_sens_wrt_params_forw', 'with_solution_sens_wrt_params_adj', 'with_value_sens_wrt_params')]
    late = {'Gauss-Newton': dict(hessian_approx='GAUSS_NEWTON'), 'MIRROR': dict(regularize_method='MIRROR'), 'levenberg_marquardt': dict(levenberg_marquardt=1e-3), 'square-root Riccati': dict(qp_solver_ric_alg=1), 'partial condensing': dict(qp_solver_cond_N=1), 'full condensing': dict(qp_solver='FULL_CONDENSING_HPIPM'),
            'no exact Hessian of constraints': dict(exact_hess_constr=0), 'no exact Hessian of cost': dict(exact_hess_cost=0), 'no exact Hessian of dynamics': dict(exact_hess_dyn=0), 'objective scaling': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN'), 'constraint scaling': dict(qpscaling_scale_constraints='INF_NORM')}
    for n, kw in late.items():
        o, nm = mk(lambda o: [setattr(o.solver_options, a, b) for a, b in kw.items()], **(dict(cost='cost0') if n != 'Gauss-Newton' else {}))
        S = solverlib.solver(o, nm); S.solve(); ctx.state(n)
        for what, f in {'forward x0': lambda: S.eval_solution_sensitivity(0, 'initial_state'), 'forward p': lambda: S.eval_solution_sensitivity(0, 'p_global'), 'adjoint': lambda: S.eval_adjoint_solution_sensitivity([(0, z(2, 1))], None)}.items(): ctx.trans(); ctx.rejects(f, 'sens-reject', f'{what} with {n}')
    o, nm = mk(none); S = solverlib.solver(o, nm); S.solve()
    for what, f in {'forward p': lambda: S.eval_solution_sensitivity(0, 'p_global'), 'adjoint': lambda: S.eval_adjoint_solution_sensitivity([(0, z(2, 1))], None)}.items(): ctx.trans(); ctx.rejects(f, 'sens-reject', f'{what} without the code generation option')
    o, nm = mk(none, x0='none'); S = solverlib.solver(o, nm); S.solve(); ctx.rejects(lambda: S.eval_and_get_optimal_value_gradient('initial_state'), 'sens-reject', 'value gradient without x0'); ctx.rejects(lambda: S.eval_and_get_optimal_value_hessian('initial_state'), 'sens-reject', 'value Hessian without x0')
    lib = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
    for n, kw in {'NLS cost': dict(cost='NLS'), 'ERK': dict(integ='ERK'), 'IRK': dict(integ='IRK')}.items():
        for a in ('with_solution_sens_wrt_params_forw', 'with_solution_sens_wrt_params_adj', 'with_value_sens_wrt_params'):
            o, nm = mk(none, **kw); setattr(o.code_gen_options, a, True); o.code_gen_options.acados_lib_path = lib; o.solver_options.hessian_approx = 'GAUSS_NEWTON' if n == 'x' else o.solver_options.hessian_approx; ctx.trans(); ctx.rejects(lambda: o.make_consistent(verbose=False), 'sens-reject', f'{a} with {n}')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=2))
