"""Status and statistics tell the truth under every fault: on real generated solvers, (A) the statistics of every iteration of a fault-free run equal
those recomputed by an independent KKT model from the stored iterates and the reported status is the one the documented termination rules give on that
table; then exhaustively (B) every script of QP solver results up to a length, (C) a NaN at every iterate x stage x function (dynamics, costs,
constraints), (D) every iteration limit, (E) every tolerance that separates two rows of the residual table, for each residual, (F) step norm limits and
time limits, (G) contradictory bounds at every stage and group are injected; predicted status, iteration number, statistics and returned iterate are
compared, a success is never reported at a point that is not a KKT point, and after every fault a reset solver behaves as before."""
import sys, itertools, ctypes, numpy as np, casadi as ca
import mclib, solverlib, ocpspec

PID = 'C02'
ASSUME = ['QP solver results are injected at the HPIPM interface of the shim (result codes maxiter/minstep/NaN and NaN solutions)', 'NaNs that enter HPIPM condensing stay in its workspace (third-party code), so recovery from NaN is not explored for SQP_RTI with condensing', 'dimension bounds nx=2 nu=2 nz<=1 N=3', 'where a globalization may avoid the fault (line search, funnel, feasibility QP), only consistency of the reported status with the returned point is required']
X = dict(hessian_approx='EXACT')
SOFT = ('bu', 'bx*', 'h*', 'h_0', 'bx_e*', 'h_e*')
PROB = dict(base=dict(), con=dict(bx=2, bxe=2, h=2, h0=1, he=2, g=1), soft=dict(bx=2, bxe=2, h=2, h0=1, he=2, soft=SOFT), irk=dict(integ='IRK', h=1), irkz=dict(integ='IRK', nz=1, h=2), disc=dict(integ='DISCRETE', he=1), ext=dict(cost='EXT', coste='EXT', bx=1),
            conl=dict(cost='CONL', coste='CONL'), lls=dict(cost='LLS', coste='LLS'), phi=dict(phi=1, phie=1), cost0=dict(cost0='NLS', h0=1), unc=dict(bu=0), uncext=dict(bu=0, cost='LLS', coste='NLS'), uncdisc=dict(bu=0, integ='DISCRETE'))
S = dict(nlp_solver_type='SQP')
OPT = dict(fixed=dict(S), full=dict(S, qp_solver='FULL_CONDENSING_HPIPM'), cond=dict(S, qp_solver_cond_N=2), evalres=dict(S, eval_residual_at_max_iter=False), half=dict(S, globalization_fixed_step_length=0.99), step=dict(S, nlp_solver_tol_min_step_norm=1e-3), exact=dict(S, hessian_approx='EXACT', regularize_method='PROJECT'),
           scale=dict(S, qpscaling_scale_constraints='INF_NORM', qpscaling_scale_objective='OBJECTIVE_GERSHGORIN'), merit=dict(S, globalization='MERIT_BACKTRACKING'), soc=dict(S, globalization='MERIT_BACKTRACKING', globalization_use_SOC=1), funnel=dict(S, globalization='FUNNEL_L1PEN_LINESEARCH'),
           ddp=dict(nlp_solver_type='DDP', globalization='MERIT_BACKTRACKING'), ddpfix=dict(nlp_solver_type='DDP'), feas=dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH'), byrd=dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH', search_direction_mode='BYRD_OMOJOKUN'),
           rti=dict(nlp_solver_type='SQP_RTI'), rtilog=dict(nlp_solver_type='SQP_RTI', rti_log_residuals=1, rti_log_only_available_residuals=1), rtifull=dict(nlp_solver_type='SQP_RTI', qp_solver='FULL_CONDENSING_HPIPM'), rticond=dict(nlp_solver_type='SQP_RTI', qp_solver_cond_N=1))
PREDICT = ('fixed', 'full', 'cond', 'evalres', 'half', 'step', 'exact', 'scale')
ST = {1: 2, 2: 3, 3: 1, 100: 0}           # HPIPM result code -> acados status


def cases(tier):
    q = tier == 'quick'
    for p in PROB:
        for o in OPT:
            if o.startswith('ddp') != p.startswith('unc') and (o.startswith('ddp') or not (p == 'unc' and o == 'fixed')): continue
            if p == 'irkz' and (o in ('merit', 'soc', 'funnel', 'feas', 'byrd', 'exact')): continue
            if o == 'exact' and p in ('phi', 'conl'): continue
            if p == 'soft' and o in ('merit', 'soc', 'funnel', 'feas', 'byrd'): continue
            if q and o not in ('fixed', 'rti') and p not in ('base', 'con', 'unc', 'uncdisc') and not (o == 'evalres' and p == 'irk'): continue
            yield dict(p=p, o=o, L=3 if q else 4)
    for h in ('LAST', 'MAX_CALL', 'MAX_OVERALL', 'AVERAGE', 'ZERO'): yield dict(p='con', o='timeout', h=h)


def setup(tier): solverlib.setup()


class Drv:
    def __init__(self, case):
        s = ocpspec.spec(**dict(dict(bu=1), **PROB[case['p']])); self.s = s; P = self.P = ocpspec.Problem(s)
        opts = dict(OPT.get(case['o'], S))
        if s['cost'] == 'EXT' and 'nlp_solver_type' in opts: opts = dict(opts, **X)
        if case['o'] == 'timeout': opts = dict(S, timeout_max_time=1e-9, timeout_heuristic=case['h'])
        self.rti, self.ddp = case['o'].startswith('rti'), case['o'].startswith('ddp')
        self.o = o = P.ocp(solverlib.name(), nlp_solver_max_iter=12, **opts)
        so = o.solver_options
        if not self.rti: so.store_iterates = True
        if so.nlp_solver_type == 'SQP': so.log_primal_step_norm = True
        # traps: eps*log((x0-a)^2) with eps = 0 and one parameter a per function (dynamics, costs, constraints): exactly zero unless x0 == a, NaN then
        m = o.model; tp = P.S.sym('trap', 5); m.p = ca.vertcat(P.p, tp) if s['np'] else tp; self.np0 = s['np']
        trap = lambda i: tp[0] * ca.log(((P.u[0] if i == 0 and 'IRK' in s['integ'] else P.x[0]) - tp[1 + i]) ** 2)   # IRK evaluates at stage points: use the control there
        self.loc = {}
        def add(nm, i, name, lastonly=False, pathonly=False):
            e = getattr(m, nm, None)
            if e is None or (not isinstance(e, (ca.SX, ca.MX))): return
            w = ca.MX.zeros(e.shape) if s['sym'] == 'MX' else ca.SX.zeros(e.shape); w[0] = trap(i); setattr(m, nm, e + w); self.loc[name] = (i, lastonly)
        if s['integ'] == 'DISCRETE': add('disc_dyn_expr', 0, 'dyn')
        else:
            e0 = m.f_impl_expr; add('f_expl_expr', 0, 'dyn') if s['integ'] == 'ERK' else add('f_impl_expr', 0, 'dyn')
        add('cost_y_expr', 1, 'cost'); add('cost_expr_ext_cost', 1, 'cost'); add('cost_y_expr_e', 2, 'coste', True); add('cost_expr_ext_cost_e', 2, 'coste', True)
        add('cost_y_expr_0', 1, 'cost'); add('con_h_expr', 3, 'h'); add('con_h_expr_0', 3, 'h'); add('con_h_expr_e', 3, 'h'); add('con_r_expr', 3, 'h'); add('con_r_expr_e', 3, 'h')
        self.off = np.array([0, 1e9, 1e9, 1e9, 1e9]); o.parameter_values = np.concatenate((P.d['p'], self.off))
        self.N = s['N']; self.sol = solverlib.solver(o); self.R = ocpspec.Ref(P); self.lib = ctypes.CDLL(solverlib.os.path.join(solverlib.os.environ['ACADOS_SOURCE_DIR'], 'lib', 'libacados.so'))

    def guess(self):
        self.sol.reset()
        for k in range(self.N + 1):
            self.sol.set(k, 'x', np.array([0.35, -0.25]) - 0.07 * k)
            if k < self.N: self.sol.set(k, 'u', np.array([0.05 * k - 0.1, 0.02]))

    def script(self, a): a = list(a); self.lib.compat_fault_reset(); self.lib.compat_fault_set(len(a), (ctypes.c_int * max(1, len(a)))(*a))

    def arm(self, k=None, slot=None, a=None):
        if k is None:
            for i in range(self.N + 1): self.sol.set(i, 'p', np.concatenate((self.P.d['p'], self.off)))
        else: v = np.concatenate((self.P.d['p'], self.off)); v[self.np0 + 1 + slot] = a; self.sol.set(k, 'p', v)

    def run(self):
        st = self.sol.solve(); n = self.sol.get_stats('nlp_iter'); return st, n

    def tab(self): return self.sol.get_stats('statistics')

    def traj(self): return solverlib.traj(self.sol, self.N)

    def it(self, i):
        t = self.sol.get_iterate(i); return dict(x=t.x_traj if hasattr(t, 'x_traj') else t.x, u=t.u_traj if hasattr(t, 'u_traj') else t.u, sl=t.sl_traj if hasattr(t, 'sl_traj') else t.sl, su=t.su_traj if hasattr(t, 'su_traj') else t.su,
                                                 pi=t.pi_traj if hasattr(t, 'pi_traj') else t.pi, lam=t.lam_traj if hasattr(t, 'lam_traj') else t.lam)

    def kkt(self, T): return self.R.kkt(T['x'], T['u'], T['sl'], T['su'], T['pi'], T['lam'])


def flat(T, f=('x', 'u', 'sl', 'su', 'pi', 'lam')): return np.concatenate([np.ravel(v) for k in f for v in T[k]])
def eq(a, b): return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def near(a, b): return a.shape == b.shape and np.allclose(a, b, 1e-11, 1e-11)


def honest(ctx, D, st, key, msg, tol=1e-6):
    """whatever happened: success is only reported at a finite KKT point"""
    if st != 0 or D.rti: return
    T = D.traj(); f = flat(T)
    if not ctx.require(np.all(np.isfinite(f)), key + '-finite', f'{msg}: status 0 with a point that is not finite'): return
    if D.ddp: return
    r = D.kkt(T); lim = (1e-4 if 'IRK' in D.s['integ'] else 5e-6)
    for q in ('stat', 'eq', 'ineq', 'comp'): ctx.require(r[q] <= lim, key + '-kkt', f'{msg}: status 0 but the {q} residual of the returned point is {r[q]:.2e}')


def run(case, ctx):
    if case['o'] == 'timeout': return timeout(case, ctx)
    D = Drv(case); sol, N = D.sol, D.N; pre = case['o'] in PREDICT; evalres = case['o'] != 'evalres' and D.sol.ocp.solver_options.eval_residual_at_max_iter is not False
    irk = 'IRK' in D.s['integ']
    def clean():
        D.script(()); D.arm(); D.guess()
    if D.rti: return rti(case, ctx, D, clean)
    # ---- A: fault-free
    clean(); ref = D.run(); tab = D.tab().copy(); its = [D.it(i) for i in range(ref[1] + 1)]; F = [flat(t) for t in its]; n = ref[1]
    ctx.state('ref'); ctx.trace(); ctx.outcome(f'fault-free status {ref[0]} iterations {n}')
    if case['o'] != 'step' and not ctx.require(ref[0] == 0, 'ref-status', f'fault-free status {ref[0]} after {n}'): return
    ctx.require(tab.shape[1] == n + 1, 'stat-rows', f'{tab.shape} rows for {n} iterations'); ctx.require(eq(flat(D.traj()), F[-1]), 'last-iterate', 'last stored iterate is not the returned one')
    SQP = D.o.solver_options.nlp_solver_type == 'SQP'; so = D.o.solver_options
    feas = so.nlp_solver_type == 'SQP_WITH_FEASIBLE_QP'
    tols = [1e-6] * 4
    if not D.ddp:
        for i in range(n + 1):
            r = D.kkt(its[i])
            for j, q in enumerate(('stat', 'eq', 'ineq', 'comp')):
                if q == 'comp' and so.tau_min: continue
                v = tab[1 + j, i]; ctx.require(abs(v - r[q]) <= (1e-5 if irk else 1e-9) * (1 + abs(v)), 'stat-' + q, f'iterate {i}: statistics say {q} residual {v:.6e}, true {r[q]:.6e} at {r["where"].get(q)}')
            ok = all(tab[1 + j, i] < 1e-6 for j in range(4))
            if case['o'] != 'step': ctx.require(ok == (i == n), 'stat-status', f'iterate {i} of {n}: residuals {tab[1:5, i]} and final status {ref[0]}')
        if SQP:
            for nm, j in (('res_stat_all', 0), ('res_eq_all', 1), ('res_ineq_all', 2), ('res_comp_all', 3)): ctx.require(eq(sol.get_stats(nm), tab[1 + j]), nm, 'getter disagrees with the statistics table')
            ctx.require(eq(sol.get_stats('res_all').T, tab[1:5]), 'res_all', 'getter disagrees with the statistics table'); ctx.require(eq(sol.get_initial_residuals(), tab[1:5, 0]), 'init-res', 'initial residuals')
        ctx.require(eq(sol.get_residuals(), tab[1:5, -1]), 'get_residuals', f'{sol.get_residuals()} against {tab[1:5, -1]}')
        ctx.require(np.allclose(sol.get_residuals(recompute=True), tab[1:5, -1], rtol=1e-9, atol=1e-9 if not irk else 1e-6), 'recompute', f'{sol.get_residuals(recompute=True)} against {tab[1:5, -1]}')
    if SQP:
        ps = sol.get_stats('primal_step_norm'); al = sol.get_stats('alpha')
        if pre:
            a = so.globalization_fixed_step_length
            for i in range(n):
                d = max(np.abs(np.ravel(w) - np.ravel(v)).max(initial=0) for f in ('x', 'u', 'sl', 'su') for v, w in zip(its[i][f], its[i + 1][f]))
                ctx.close(ps[i] * a, d, 'step-norm', f'primal step norm of iteration {i}', 1e-6, 1e-9); ctx.require(al[i + 1] == a, 'alpha', f'alpha[{i + 1}]={al[i + 1]}')
        elif case['o'] in ('merit', 'funnel'):
            for i in range(n):
                d = max(np.abs(np.ravel(w) - np.ravel(v)).max(initial=0) for f in ('x', 'u') for v, w in zip(its[i][f], its[i + 1][f])); ctx.close(ps[i] * al[i + 1], d, 'step-norm', f'step length times primal step norm of iteration {i}', 1e-6, 1e-9)
        ctx.require(np.all(sol.get_stats('qp_stat')[1:] == 0) and (np.all(sol.get_stats('qp_iter')[1:] > 0) or case['p'].startswith('unc')), 'qp-stat', f'{sol.get_stats("qp_stat")} {sol.get_stats("qp_iter")}')
        if case['o'] == 'step':
            exp = next((i for i in range(1, n + 1) if ps[i - 1] < 1e-3), None); ctx.require((exp is None and ref[0] == 0) or (exp == n and ref[0] in (0, 3)), 'min-step', f'steps {ps} status {ref}')
    def again(tag):
        """after a reset and the same guess the solver behaves as in the fault-free run"""
        clean(); r = D.run()
        ctx.require(r == ref and eq(flat(D.traj()), F[-1]), 'recover', f'{tag}: after reset {r}, originally {ref}, point {"same" if eq(flat(D.traj()), F[-1]) else "different"}'); ctx.trace()
    # ---- B: QP solver faults
    for L in range(1, case['L'] + 1):
        for scr in itertools.product((-1, 1, 2, 3, 100), repeat=L):
            if scr[-1] == -1 or (not pre and len([c for c in scr if c != -1]) > 2): continue
            clean(); D.script(scr); st, it = D.run(); ctx.state('qp', scr); msg = f'QP results {scr}'
            if pre and 100 not in scr:
                j = next((i for i, c in enumerate(scr) if c in (2, 3)), None)
                if j is not None and j < n:
                    ctx.require((st, it) == (4, j + 1), 'qp-status', f'{msg}: status {st} iterations {it}, expected 4 and {j + 1}')
                    ctx.require(eq(flat(D.traj()), F[j]), 'qp-iterate', f'{msg}: the iterate was changed by the failed QP')
                else: ctx.require((st, it) == ref and eq(flat(D.traj()), F[-1]), 'qp-maxiter', f'{msg}: status {st} iterations {it}, expected {ref} as QP iteration limits are tolerated')
                if SQP:
                    qs = sol.get_stats('qp_stat'); w = [ST[c] if c > 0 else 0 for c in scr][:min(len(scr), it)]; ctx.require(list(qs[1:1 + len(w)]) == w, 'qp-stat-log', f'{msg}: qp_stat {qs}, expected {w}')
                    ctx.require(eq(D.tab()[1:5, :min(j, n) + 1 if j is not None else n + 1], tab[1:5, :min(j, n) + 1 if j is not None else n + 1]), 'qp-log', f'{msg}: residual table changed')
            else:
                honest(ctx, D, st, 'qp', msg); ctx.require(st in (0, 1, 2, 3, 4, 9), 'qp-code', f'{msg}: status {st}')
                if 100 in scr and all(c == -1 for c in scr[:scr.index(100)]) and scr.index(100) < n and not feas and pre: ctx.require(st != 0, 'qp-nan', f'{msg}: NaN step, status {st}')
            ctx.outcome(f'qp fault status {st}')
            if L < 3 or scr[-1] == 3: again(msg)
    # ---- C: NaN at every iterate, stage and function
    for loc, (slot, last) in D.loc.items():
        for k in range(N + 1):
            if last != (k == N) and loc in ('cost', 'coste', 'dyn'): continue
            if loc == 'dyn' and k == N: continue
            if loc == 'h' and not {0: D.s['h0'], N: D.s['he'] or D.s['phie']}.get(k, D.s['h'] or D.s['phi']): continue
            if loc == 'cost' and k == 0 and D.s['cost0'] == 'LLS': continue
            for i in range(n + 1):
                v = 'u' if loc == 'dyn' and irk else 'x'; val = float(its[i][v][k][0]); first = next(j for j in range(n + 1) if float(its[j][v][k][0]) == val)
                if first != i: continue
                clean(); D.arm(k, slot, val); st, it = D.run(); ctx.state('nan', loc, k, i); msg = f'NaN in {loc} at iterate {i} stage {k}'
                ctx.outcome(f'nan status {st}')
                if pre: 
                    ctx.require((st, it) == (1, i), 'nan-status', f'{msg}: status {st} after {it} iterations, expected 1 after {i}'); ctx.require(eq(flat(D.traj()), F[i]), 'nan-iterate', f'{msg}: returned iterate is not the one at which NaN occurred')
                    if i: ctx.require(eq(D.tab()[1:5, :i], tab[1:5, :i]), 'nan-log', f'{msg}: rows before the fault changed')
                else:
                    honest(ctx, D, st, 'nan', msg)
                    if i == 0: ctx.require(st != 0, 'nan-first', f'{msg}: status 0')
                if i in (0, n) or k == 1: again(msg)
    # ---- D: iteration limits
    clean()
    for mi in range(0, n + 2):
        clean(); sol.options_set('nlp_solver_max_iter', mi); st, it = D.run(); ctx.state('max_iter', mi); msg = f'max_iter {mi}'
        exp = (2, mi) if (mi < n or (mi == n and not evalres)) else ref
        ctx.require((st, it) == exp, 'maxiter', f'{msg}: {st, it}, expected {exp}'); ctx.require(eq(flat(D.traj()), F[min(mi, n)]), 'maxiter-iterate', f'{msg}: returned iterate is not that of iteration {min(mi, n)}')
        for i in range(min(mi, n) + 1): ctx.require(eq(flat(D.it(i)), F[i]), 'maxiter-stored', f'{msg}: stored iterate {i} differs'); 
        if D.tab().shape[1] == it + 1 and not D.ddp: ctx.require(eq(D.tab()[1:5, :it], tab[1:5, :it]), 'maxiter-log', f'{msg}: residual table')
        honest(ctx, D, st, 'maxiter', msg)
    sol.options_set('nlp_solver_max_iter', 12); again('iteration limits')
    # ---- E: tolerances
    if SQP and case['o'] != 'step':
        names = ('stat', 'eq', 'ineq', 'comp')
        def settol(t):
            for nm, v in zip(names, t): sol.options_set('tol_' + nm, float(v)); sol.options_set('qp_tol_' + nm, 1e-6)
        for j in range(4):
            for i in range(n + 1):
                for v in (tab[1 + j, i], np.nextafter(tab[1 + j, i], np.inf)):
                    for others in (1e9, 1e-6):
                        if v <= 0: continue
                        t = [others] * 4; t[j] = v; clean(); settol(t); st, it = D.run(); ctx.state('tol', j, i, v, others)
                        e = next((m for m in range(n + 1) if all(tab[1 + q, m] < t[q] for q in range(4))), None)
                        if e is None: ctx.require(st != 0 or it > n, 'tol-none', f'tol_{names[j]}={v!r}: status {st} after {it}'); continue
                        ctx.require((st, it) == (0, e), 'tol', f'tol_{names[j]}={v!r}, others {others}: status {st} after {it}, expected success after {e}'); ctx.require(eq(flat(D.traj()), F[e]), 'tol-iterate', f'tol_{names[j]}={v!r}: iterate')
        settol([1e-6] * 4); again('tolerances')
    # ---- G: contradictory bounds
    if not D.ddp and not D.s['soft']:
        c = ocpspec.Problem(D.s).d
        for k in range(N + 1):
            for lo, up, key in (('lbu', 'ubu', 'ubu'), ('lbx', 'ubx', 'ubx' if k < N else 'ubx_e'), ('lg', 'ug', 'ug'), ('lh', 'uh', {0: 'uh_0', N: 'uh_e'}.get(k, 'uh'))):
                if key not in c or (k == N and key in ('ubu', 'ug')) or (k == 0 and key == 'ubx'): continue
                old = c[key]; lk = c['l' + key[1:]]; clean()
                sol.constraints_set(k, up, lk - 0.5); st, it = D.run(); ctx.state('infeasible', k, up); ctx.outcome(f'infeasible status {st}')
                ctx.require(st not in (0, 5), 'infeasible', f'upper bound {up} below the lower one at stage {k}: status {st}'); sol.constraints_set(k, up, old); again(f'contradictory {up} at {k}')
    ctx.sample(f'{case}: {ref}')


def rti(case, ctx, D, clean):
    sol, N = D.sol, D.N; log = case['o'] == 'rtilog'
    M = 6; clean(); F = [flat(D.traj())]; its = [D.traj()]; rows = []
    for i in range(M):
        st, it = D.run(); ctx.require(st == 0, 'rti-status', f'call {i}: status {st}'); its.append(D.traj()); F.append(flat(its[-1])); rows.append(D.tab().copy())
        if log:
            r = D.kkt(its[i]); t = rows[-1]
            for j, q in enumerate(('stat', 'eq', 'ineq', 'comp')): ctx.require(abs(t[3 + j, 0] - r[q]) <= (1e-5 if 'IRK' in D.s['integ'] else 1e-9) * (1 + r[q]), 'rti-log-' + q, f'call {i}: logged {q} residual {t[3 + j]}, true {r[q]}')
    r = D.kkt(its[-1])
    for q in ('stat', 'eq', 'ineq'): ctx.require(r[q] < 1e-4, 'rti-conv', f'{M} calls: {q} residual {r[q]:.1e}')
    res = sol.get_residuals(recompute=True)
    for j, q in enumerate(('stat', 'eq', 'ineq')): ctx.require(abs(res[j] - r[q]) < 1e-5 * (1 + r[q]), 'rti-res', f'{q}: {res[j]} true {r[q]}')
    def play(upto):
        clean()
        for i in range(upto): D.run()
    cond = case['o'] in ('rtifull', 'rticond')     # NaNs that enter the condensing of HPIPM stay in its workspace (third-party code): not injected there
    for phases in (None, (1, 2)):
        def call():
            if phases is None: return D.run()[0]
            sol.options_set('rti_phase', 1); a = sol.solve(); sol.options_set('rti_phase', 2); b = sol.solve(); sol.options_set('rti_phase', 0); return b
        for j in range(4):
            for c in (1, 2, 3) if cond else (1, 2, 3, 100):
                play(j); D.script((c,)); st = call(); ctx.state('rti-qp', j, c, phases); msg = f'QP result {c} in call {j}, phases {phases}'
                if c == 1: ctx.require(st == 0 and near(flat(D.traj()), F[j + 1]), 'rti-qp-maxiter', f'{msg}: status {st}')
                elif c == 100: pass
                else: ctx.require(st == 4 and near(flat(D.traj()), F[j]), 'rti-qp-fail', f'{msg}: status {st}, iterate {"kept" if near(flat(D.traj()), F[j]) else "changed"}')
                if c != 100:
                    qs = sol.get_stats('qp_stat'); ctx.require(qs[-1] == ST[c], 'rti-qp-stat', f'{msg}: qp_stat {qs}')
                if c in (2, 3):
                    D.script(()); st = call(); ctx.require(st == 0, 'rti-retry', f'{msg}: next call gives {st}')
                play(1); ctx.require(near(flat(D.traj()), F[1]), 'rti-recover', msg); ctx.trace()
        for loc, (slot, last) in D.loc.items() if not cond else ():
            for k in range(N + 1):
                if loc in ('cost', 'coste', 'dyn') and last != (k == N): continue
                if loc == 'h' and not {0: D.s['h0'], N: D.s['he'] or D.s['phie']}.get(k, D.s['h'] or D.s['phi']): continue
                if loc == 'cost' and k == 0 and D.s['cost'] == 'EXT': continue     # only reaches the entries of the fixed initial state, which are eliminated
                for j in range(4):
                    v = 'u' if loc == 'dyn' and 'IRK' in D.s['integ'] else 'x'; val = float(its[j][v][k][0])
                    if next(i for i in range(M) if float(its[i][v][k][0]) == val) != j: continue
                    play(j); D.arm(k, slot, val); st = call(); ctx.state('rti-nan', loc, k, j, phases); ctx.outcome(f'rti nan status {st}')
                    ctx.require(st != 0, 'rti-nan', f'NaN in {loc} at stage {k} in call {j}, phases {phases}: status 0'); ctx.require(near(flat(D.traj()), F[j]), 'rti-nan-iterate', f'NaN in {loc} at stage {k} call {j}: iterate changed'); ctx.trace()
        play(1); ctx.require(near(flat(D.traj()), F[1]), 'rti-recover', 'after NaN')


def timeout(case, ctx):
    D = Drv(case); D.script(()); D.arm(); D.guess(); sol = D.sol
    st, it = D.run(); ctx.state('tiny'); ctx.require((st, it) == (7, 0), 'timeout', f'time limit 1 ns with heuristic {case["h"]}: status {st} after {it} iterations'); 
    g = flat(D.traj()); D.guess(); ctx.require(eq(flat(D.traj()), g), 'timeout-iterate', 'iterate changed although no iteration was made')
    D2 = Drv(dict(p=case['p'], o='fixed')); D2.script(()); D2.guess(); ref = D2.run()
    o = ocpspec.Problem(D.s).ocp(solverlib.name(), nlp_solver_max_iter=12, nlp_solver_type='SQP', timeout_max_time=1e4, timeout_heuristic=case['h']); s3 = solverlib.solver(o)
    for k in range(D.N + 1):
        s3.set(k, 'x', np.array([0.35, -0.25]) - 0.07 * k)
        if k < D.N: s3.set(k, 'u', np.array([0.05 * k - 0.1, 0.02]))
    st = s3.solve(); ctx.require((st, s3.get_stats('sqp_iter')) == ref, 'timeout-large', f'a large limit changes the result: {st, s3.get_stats("sqp_iter")} against {ref}'); ctx.state('large'); ctx.trace()


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=1, jobs=8))
