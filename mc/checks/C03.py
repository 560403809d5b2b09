"""C03: histories of one real solver object.  For every formulation / solver configuration of a bounded lattice, all ordered pairs (thorough: triples) of
operations (solve with several data sets, with infeasible and NaN data, bad and zero initial guesses, every reset variant, option changes, RTI phases,
read-only evaluations, work with another instance, horizon and condensing changes) are run on one long-lived solver; every solve is compared with a freshly
created solver that gets the same data, options and guess, every reset with the documented state, and other live instances must not change."""
import sys, os, io, contextlib, itertools, warnings, numpy as np
import mclib, solverlib, ocpspec
import C01, C04

PID = 'C03'
ASSUME = ['dimension bounds nx<=3 nu<=2 nz<=1 N<=4', 'implicit integrators: equality up to the Newton tolerance', 'LIFTED_IRK and QP warm start (qp_solver_warm_start > 0) keep documented memory between solves: compared with a fresh solver only after a reset',
          'NaN data are not used with condensing (NaN entries stay in the condensing workspace of HPIPM, third party)', 'OSQP keeps its ADMM state and step size between calls: its solutions are compared when both solves succeed', 'AS-RTI levels A-C keep linearizations between calls by design (C05)']

RICH = dict(bu=1, bx=1, lin='gge', nl='hall', slack='most', par='both')
CONF = {
    'sqp': (dict(bu=1, bx=1, par='p'), {}), 'rich': (RICH, {}), 'irk': (dict(bu=1, integ='IRKZ', par='p'), {}), 'gnsf': (dict(bu=1, integ='GNSF', par='p'), {}), 'lifted': (dict(bu=1, integ='LIFTED_IRK', par='p'), {}),
    'disc': (dict(bu=1, integ='DISCRETE', par='both', cost='EXT', coste='EXT'), {}), 'conl': (dict(bu=1, cost='CONL', coste='CONL', par='p'), {}), 'phi': (dict(bu=1, nl='phiall', slack='most', par='p'), {}),
    'full': (RICH, dict(qp_solver='FULL_CONDENSING_HPIPM')), 'cond1': (RICH, dict(qp_solver_cond_N=1)), 'osqp': (dict(bu=1, bx=1), dict(qp_solver='PARTIAL_CONDENSING_OSQP')),
    'merit': (RICH, dict(globalization='MERIT_BACKTRACKING')), 'soc': (dict(bu=1, bx=1, nl='h'), dict(globalization='MERIT_BACKTRACKING', globalization_use_SOC=1)), 'funnel': (RICH, dict(globalization='FUNNEL_L1PEN_LINESEARCH')),
    'feasqp': (dict(bu=1, bx=1, nl='h', par='p'), dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH')), 'byrd': (dict(bu=1, bx=1, nl='h'), dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH', search_direction_mode='BYRD_OMOJOKUN')),
    'ddp': (dict(bu=0, par='p'), dict(nlp_solver_type='DDP', globalization='MERIT_BACKTRACKING')), 'rti': (dict(bu=1, bx=1, par='p'), dict(nlp_solver_type='SQP_RTI')), 'rtirich': (RICH, dict(nlp_solver_type='SQP_RTI', rti_log_residuals=1, rti_log_only_available_residuals=1)),
    'exact': (dict(bu=1, bx=1, nl='h', par='p'), dict(hessian_approx='EXACT', regularize_method='PROJECT')), 'mirror': (dict(bu=1, nl='h'), dict(hessian_approx='EXACT', regularize_method='MIRROR')), 'convex': (dict(bu=1), dict(hessian_approx='EXACT', regularize_method='CONVEXIFY')),
    'redhess': (dict(bu=1), dict(hessian_approx='EXACT', regularize_method='PROJECT_REDUC_HESS')), 'gersh': (dict(bu=1, bx=1), dict(hessian_approx='EXACT', regularize_method='GERSHGORIN_LEVENBERG_MARQUARDT')),
    'lm': (dict(bu=1, par='p'), dict(levenberg_marquardt=1e-2)), 'alm': (dict(bu=1, par='p'), dict(with_adaptive_levenberg_marquardt=True)), 'fixh': (dict(bu=1, cost='LLS', coste='LLS', par='p'), dict(fixed_hess=1)), 'scaled': (RICH, dict(qpscaling_scale_constraints='INF_NORM', qpscaling_scale_objective='OBJECTIVE_GERSHGORIN')),
    'warm1': (dict(bu=1, bx=1), dict(qp_solver_warm_start=1)), 'warm2': (dict(bu=1, bx=1), dict(qp_solver_warm_start=2)), 'first': (dict(bu=1, bx=1), dict(nlp_solver_warm_start_first_qp=True, nlp_solver_warm_start_first_qp_from_nlp=True)),
    'anderson': (dict(bu=1, bx=1, par='p'), dict(with_anderson_acceleration=True)), 'qptol': (dict(bu=1, bx=1), dict(nlp_qp_tol_strategy='ADAPTIVE_CURRENT_RES_JOINT')), 'store': (dict(bu=1, bx=1), dict(store_iterates=True)), 'free': (dict(bu=1, x0='none'), {}), 'box': (dict(bu=1, x0='box', par='p'), {}),
    'noeval': (dict(bu=1, par='p'), dict(eval_residual_at_max_iter=False)), 'mx': (dict(RICH, sym='MX'), {}), 'x1': (dict(bu=1, dim='x1', par='p'), {}), 'N1': (dict(bu=1, N=1, par='p'), {}), 'steplen': (dict(bu=1, par='p'), dict(globalization_fixed_step_length=0.7)), 'reuse': (dict(bu=1, integ='IRK', par='p'), dict(sim_method_jac_reuse=True)), 'irkq': (dict(bu=1, integ='IRKQ', par='p'), {}),
}


def cases(tier):
    for n in CONF: yield dict(kind='hist', conf=n, depth=2 if tier == 'quick' else 3)
    for n in ('sqp', 'rich', 'irk', 'rti', 'ddp', 'feasqp', 'full', 'merit', 'free', 'disc'): yield dict(kind='reset', conf=n)
    for a, b in itertools.product(('sqp', 'rich', 'irk', 'full', 'rti', 'ddp'), repeat=2): yield dict(kind='two', conf=[a, b])


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


class Hist(C04.Store):
    def __init__(self, conf, ctx):
        c, opts = CONF[conf]; self.ctx = ctx
        P = ocpspec.Problem(C01.expand(c)); nm = solverlib.name(); o = P.ocp(nm, **opts)
        if o.solver_options.nlp_solver_type != 'SQP_RTI': o.solver_options.nlp_solver_max_iter = 25
        self.P, self.o, self.ph = P, o, None
        self.sol = solverlib.solver(o, nm, save_p_global=True); self.N = o.solver_options.N_horizon
        self.where = [(o, k == 0, k == self.N) for k in range(self.N + 1)]
        self.sizes(); self.read['flat:p_global', None] = lambda: self.sol.get_flat('p_global')
        self.A = {k: v for k, v in self.snap().items() if isdata(k)}
        self.x00 = self.sol.get(0, 'x')
        self.rti = o.solver_options.nlp_solver_type == 'SQP_RTI'
        self.sticky = c.get('integ') == 'LIFTED_IRK' or opts.get('qp_solver_warm_start', 0) > 0
        self.implicit = c.get('integ') in ('IRKZ', 'GNSF', 'LIFTED_IRK', 'IRK', 'IRKQ')
        self.tol = 1e-6 if self.implicit or 'OSQP' in o.solver_options.qp_solver else 1e-8
        self.loose = 'OSQP' in o.solver_options.qp_solver
        self.nan = not ('cond_N' in str(opts) or 'FULL' in o.solver_options.qp_solver or 'OSQP' in o.solver_options.qp_solver)

    def fresh(self):
        from acados_template import AcadosOcpSolver
        return AcadosOcpSolver(self.o, generate=False, build=False, verbose=False, save_p_global=True)

    def dataset(self, which):
        d = {k: v.copy() for k, v in self.A.items()}
        if which == 'A': return d
        for (f, k), v in d.items():
            if not v.size: continue
            if f == 'p': v += 0.2
            elif f == 'flat:p_global': v += 0.15
            elif f in ('con:lbx', 'con:ubx'):
                if k == 0: v += 0.1
            elif f in ('con:ubu', 'con:uh', 'con:ug', 'con:uphi'): v[v < 1e8] += 0.05
            elif f == 'cost:yref': v += 0.1
            elif f == 'cost:W': v *= 1.3
            elif f in ('cost:zl', 'cost:zu', 'cost:Zl', 'cost:Zu'): v *= 1.2
            elif f == 'cost:scaling': v *= 1.1
        if which == 'C':
            for f in ('con:lbx', 'con:ubx'): d[f, 0] = d[f, 0] + (4.0 if f == 'con:lbx' else 3.0)     # crossed bounds (or an x0 far away)
            if np.array_equal(self.A['con:lbx', 0], self.A['con:ubx', 0]): d['con:ubx', 0] = d['con:lbx', 0].copy()
        if which == 'N':
            if d['con:lbx', 0].size: d['con:lbx', 0][0] = d['con:ubx', 0][0] = np.nan
            elif d['p', 0].size: d['p', 0][0] = np.nan
        return d

    def apply(self, sol, d):
        for (f, k), v in d.items():
            if not v.size or f.startswith('flat:') and f != 'flat:p_global': continue
            if f == 'flat:p_global': sol.set_p_global_and_precompute_dependencies(v.copy())
            elif f == 'p': sol.set(k, 'p', v)
            elif f.startswith('con:'): sol.constraints_set(k, f[4:], v, api='new')
            elif f.startswith('cost:'): sol.cost_set(k, f[5:], v, api='new')

    def guess(self, which):
        """a complete primal-dual guess"""
        out = {}
        for f in ITER:
            v = np.zeros(self.sol.get_flat(f).size)
            if which == 1: v = 0.3 * np.sin(1.0 + np.arange(v.size)) if f in ('x', 'u', 'pi') else v + 0.05
            if which == 2: v = v + 10.0
            out[f] = v
        if which == 0 and self.sol.get(0, 'x').size == self.P.d.get('x0', np.zeros(0)).size and self.P.s['x0'] == 'x0': out['x'] = np.concatenate([self.P.d['x0']] * (self.N + 1)) if out['x'].size == self.P.d['x0'].size * (self.N + 1) else out['x']
        return out


ITER = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')


def isdata(k): return k[0].startswith(('con:', 'cost:')) or k[0] in ('p', 'flat:p_global')


def put(sol, it):
    for f in ITER: sol.set_flat(f, it[f])


def take(sol): return {f: sol.get_flat(f) for f in ITER}


def outcome(h, sol, phases=None):
    if phases:
        for p in phases: sol.options_set('rti_phase', p); st = sol.solve()
        sol.options_set('rti_phase', 0)
    else: st = sol.solve()
    r = take(sol)
    return dict(status=st, it=r, nlp_iter=sol.get_stats('nlp_iter'), cost=sol.get_cost() if st in (0, 2, 5) else 0.0, res=np.array(sol.get_residuals()) if st in (0, 2) and not h.rti else np.zeros(4))


def same(ctx, h, a, b, key, msg):
    """a: solver with a history, b: fresh solver"""
    if h.loose and (a['status'] or b['status']): return
    if not ctx.require(a['status'] == b['status'], f'{key}-status', lambda: f'{msg}: status {a["status"]} ({a["nlp_iter"]} iterations), fresh solver {b["status"]} ({b["nlp_iter"]} iterations)'): return
    if a['status'] in (1, 4, 3): return           # failed solves: the status is compared, the iterate is whatever the failing step left
    ctx.require(a['nlp_iter'] == b['nlp_iter'], f'{key}-iterations', lambda: f'{msg}: {a["nlp_iter"]} iterations, fresh solver {b["nlp_iter"]}') if not h.implicit and not h.loose else None
    for f in ITER: ctx.close(a['it'][f], b['it'][f], f'{key}-{f}', lambda: f'{msg}: {f}', h.tol, h.tol * (100 if f in ('lam', 'pi', 'sl', 'su') and h.implicit else 1))
    ctx.close(a['cost'], b['cost'], f'{key}-cost', msg, h.tol, h.tol)


def alphabet(h, tier):
    ops = ['sA', 'sB', 'sC', 'g1', 'g2', 'R', 'Ra', 'O1', 'V', 'I']
    if h.nan: ops.append('sN')
    if h.rti: ops += ['PF', 'P']
    return ops


def k_hist(case, ctx):
    h = Hist(case['conf'], ctx); s = h.sol
    keep = h.fresh(); outcome(h, keep); ksnap = take(keep), {k: v for k, v in h.snap().items()}
    cur = dict(data='A', maxit=None, clean=True)
    D = {w: h.dataset(w) for w in 'ABCN'}
    opts0 = dict(max_iter=25, tol_stat=float(h.o.solver_options.nlp_solver_tol_stat))

    def setopts(sol, on):
        if not h.rti: sol.options_set('max_iter', 2 if on else 25)
        sol.options_set('qp_tol_stat', 1e-3 if on else float(h.o.solver_options.qp_solver_tol_stat or h.o.solver_options.nlp_solver_tol_stat)) if h.rti else None

    def step(tag, hist, phases=None):
        """solve with the history solver and with a fresh one from the same point"""
        it = take(s); fin = all(np.isfinite(v).all() for v in it.values())
        clean = cur['clean']; a = outcome(h, s, phases); cur['clean'] = False
        ctx.trans()
        if not fin or h.sticky and not clean: return
        b_ = h.fresh(); h.apply(b_, D[cur['data']]); setopts(b_, cur['O'])
        put(b_, it); b = outcome(h, b_, phases); del b_
        ctx.outcome(f'status {a["status"]}')
        same(ctx, h, a, b, f'lockstep-{tag}', f'history {hist}: {tag}'); ctx.state(case['conf'], str(hist[-2:]), tag); ctx.trace()

    cur['O'] = False
    def do(op, hist):
        if op[0] == 's':
            cur['data'] = op[1]; h.apply(s, D[op[1]]); step(op, hist)
        elif op[0] == 'g': put(s, h.guess(int(op[1]))); step(op, hist)
        elif op == 'R': s.reset(); cur['clean'] = True; resetcheck(ctx, h, s, D[cur['data']], 'reset', False)
        elif op == 'Ra':
            s.reset(reset_numerical_values=True, reset_solver_options=True); cur.update(data='A', O=False, clean=True); setopts(s, False)
            resetcheck(ctx, h, s, D['A'], 'reset numerical values', False)
        elif op == 'O1': cur['O'] = not cur['O']; setopts(s, cur['O'])
        elif op == 'V':
            before = take(s)
            s.get_cost(); s.get_stats('time_tot'); s.get_residuals(recompute=not h.rti and 'DDP' not in h.o.solver_options.nlp_solver_type); s.get_iterate(); s.get_from_qp_in(0, 'Q'); s.get_hessian_block(h.N)
            s.print_statistics()
            after = take(s)
            for f in ITER: ctx.require(np.array_equal(before[f], after[f], equal_nan=True), f'read-only-{f}', f'history {hist}: evaluations changed {f}')
        elif op == 'I':
            o = h.fresh(); h.apply(o, D['B']); put(o, h.guess(1)); before = take(s); outcome(h, o); o.reset(); del o
            after = take(s)
            for f in ITER: ctx.require(np.array_equal(before[f], after[f], equal_nan=True), f'instance-{f}', f'history {hist}: solving with another instance changed {f}')
        elif op == 'PF': step('preparation, feedback', hist, (1, 2))
        elif op == 'P': s.options_set('rti_phase', 1); s.solve(); s.options_set('rti_phase', 0)

    O = alphabet(h, None); hist = []
    def recover():
        """back to data A with a canonical finite guess"""
        cur['data'] = 'A'; h.apply(s, D['A']); cur['O'] = False; setopts(s, False); put(s, h.guess(0))

    f0 = h.fresh(); put(f0, h.guess(0)); ref = outcome(h, f0); del f0
    ctx.outcome(f'reference status {ref["status"]}')
    if not h.sticky: ctx.require(ref['status'] in (0, 2, 5), 'reference', f'canonical problem: status {ref["status"]}')
    for seq in itertools.product(O, repeat=case['depth']):
        if case['depth'] == 3 and seq[0] == seq[1] == seq[2]: continue
        for op in seq: do(op, seq); hist.append(op)
        recover()
        if h.sticky: s.reset(); put(s, h.guess(0)); cur['clean'] = True
        a = outcome(h, s); cur['clean'] = False
        same(ctx, h, a, ref, 'probe', f'history ...{hist[-4:]}, then canonical data and guess'); ctx.trace(); ctx.state(case['conf'], seq)
        if len(ctx.viols) > 12: break
    after = take(keep)
    for f in ITER: ctx.require(np.array_equal(ksnap[0][f], after[f]), f'other-instance-{f}', f'an idle instance changed: {f}')


def resetcheck(ctx, h, s, data, key, x0):
    got = h.snap(); N = h.N
    for (f, k), v in got.items():
        if f == 'x' and x0: e = h.A['con:lbx', 0]
        elif f in ITER: e = np.zeros(v.size)
        elif isdata((f, k)): e = data[f, k]
        else: continue
        ctx.require(np.array_equal(v.reshape(-1, order='F'), e.reshape(-1, order='F'), equal_nan=True), f'{key}:{f}', lambda: f'{f} at stage {k} reads {v.tolist()} after {key}, expected {e.tolist()}')


def k_reset(case, ctx):
    """all combinations of reset flags after a dirty history: documented state, and the next solve equals the one of a fresh solver"""
    h = Hist(case['conf'], ctx); s = h.sol; D = {w: h.dataset(w) for w in 'AB'}
    for q, n, o, x in itertools.product((False, True), repeat=4):
        if x and h.P.s['x0'] != 'x0':
            ctx.rejects(lambda: s.reset(reset_x_to_x0_bar=True), 'reset-x0-without-x0', 'reset_x_to_x0_bar without initial state constraint'); continue
        h.apply(s, D['B']); put(s, h.guess(1))
        if not h.rti: s.options_set('max_iter', 3)
        s.options_set('levenberg_marquardt', 0.3)
        s.solve()
        x0b = D['B']
        s.reset(reset_qp_solver_mem=q, reset_numerical_values=n, reset_solver_options=o, reset_x_to_x0_bar=x)
        data = D['A'] if n else D['B']
        got = h.snap()
        for (f, k), v in got.items():
            if f == 'x' and x: e = data['con:lbx', 0]
            elif f in ITER: e = np.zeros(v.size)
            elif isdata((f, k)): e = data[f, k]
            else: continue
            ctx.require(np.array_equal(v.reshape(-1, order='F'), e.reshape(-1, order='F')), f'reset-state:{f}', lambda: f'reset(qp_mem={q}, numerical={n}, options={o}, x0={x}): {f} at stage {k} reads {v.tolist()}, expected {e.tolist()}')
        b = h.fresh(); h.apply(b, data); it = take(s); put(b, it)
        if not o:
            if not h.rti: b.options_set('max_iter', 3)
            b.options_set('levenberg_marquardt', 0.3)
        same(ctx, h, outcome(h, s), outcome(h, b), f'after-reset', f'solve after reset(qp_mem={q}, numerical={n}, options={o}, x0={x})'); ctx.trace(); ctx.state(case['conf'], q, n, o, x)
        s.reset(reset_numerical_values=True, reset_solver_options=True)


def k_two(case, ctx):
    """two problems in one process: every interleaving of (create, solve, set data, solve, delete) of the two solvers gives what each gives alone"""
    def life(conf):
        def g():
            h = Hist(conf, ctx); yield None
            put(h.sol, h.guess(0)); yield outcome(h, h.sol)
            h.apply(h.sol, h.dataset('B')); yield outcome(h, h.sol)
            h.sol.reset(reset_numerical_values=True); put(h.sol, h.guess(1)); yield outcome(h, h.sol)
            del h.sol; yield None
        return g()
    h0 = {}
    for c in set(case['conf']):
        h0[c] = [r for r in life(c)]
        h = Hist(c, ctx); h0[c + '!'] = h; del h.sol
    a, b = case['conf']
    seqs = [[0] * 5 + [1] * 5, [0, 1] * 5, [0, 0, 1, 1, 1, 0, 1, 1, 0, 0], [1, 0, 1, 1, 1, 1, 0, 0, 0, 0], [0, 1, 1, 0, 0, 1, 0, 0, 1, 1]]
    for sq in seqs:
        G = [life(a), life(b)]; n = [0, 0]
        for w in sq:
            r = next(G[w]); c = case['conf'][w]
            if r is not None: same(ctx, h0[c + '!'], r, h0[c][n[w]], 'two-solvers', f'{case["conf"]} interleaved {sq}: step {n[w]} of {c}')
            n[w] += 1; ctx.trans()
        ctx.trace(); ctx.state(str(case['conf']), str(sq))


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=1))
