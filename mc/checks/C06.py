"""C06: every OCP-structured QP of a lattice of structures is solved by the real QP layer with every number of blocks, every partition of the horizon into blocks, full condensing, every available QP solver,
every mode, Riccati variant and initialization; each solution has to satisfy the KKT conditions of the original QP (slacks, equality flags and masks included). Every sequence of data changes and warm start
settings up to a depth is applied to one solver object, each solve judged against the data of that moment; reported residuals are recomputed. For real OCP solvers one SQP step is taken with every
condensing, QP solver, warm start and QP scaling option and checked against the QP linearized from the expressions alone."""
import sys, os, io, contextlib, warnings, itertools, ctypes, numpy as np
import mclib, solverlib, ocpspec, C01, C12, C10, C24

PID = 'C06'
ASSUME = ['HPIPM and OSQP of the CasADi wheel are the optimizers; HPIPM there does not support slacks shared by several constraints and does not converge with masked-out lower or single slack bounds', 'the SPEED_ABS mode of HPIPM neither computes the multipliers of the dynamics nor checks the residuals and is not covered', 'OSQP supports neither masks nor one-sided bounds and is judged with a tolerance of 1e-4', 'QPs that no variant solves (infeasible by construction) are counted as not solved']
PAR, FULL, OSQP = 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_OSQP'
BIG = [dict(N=4, g=1, ge=1, slack='g', bx='part'), dict(N=4, dim='x3u2', bu='rev', bx='rev', g=2, slack='all', lin=1), dict(N=4, dim='u2', bx='all', x0='part', slack='last', mask='upper', lin=1), dict(N=4, x0='none', bx='all', ge=2, bu='part', lin=1), dict(N=4, dim='x1', bx='all', g=1, mask='lower'), dict(N=4, x0='bnd', bx='rev', slack='ends', lls=1, lin=1)]
MODES = dict(hpipm_mode=['SPEED', 'ROBUST'], ric_alg=[0], cond_ric_alg=[0], warm_start=[1, 2, 3], t0_init=[0, 1], mu0=[1e-1, 10.])
CH = ['none', 'b', 'x0', 'q', 'bounds', 'mask', 'dyn', 'slack', 'C']


def usable(c):
    Q = C24.QP(c); return not Q.shared and (c.get('mask') == 'upper' or not any((m == 0).any() for f in ('lls_mask', 'lus_mask') for m in Q.d[f]))


def parts(N, M):
    """all block partitions: M positive blocks and a last one that may be empty"""
    for t in itertools.product(range(1, N + 1), repeat=M):
        if sum(t) <= N: yield list(t) + [N - sum(t)]


def cases(tier):
    q = tier == 'quick'; L = [c for c in mclib.lattice(C24.BASE, C24.ALTS, 2, C24.valid) if usable(c)] + [c for c in C24.EXTRA if usable(c)] + BIG
    for c in L: yield dict(kind='part', c=c)
    for c in (L if not q else [c for c in mclib.lattice(C24.BASE, C24.ALTS, 1, C24.valid) if usable(c)] + [c for c in C24.EXTRA if usable(c)] + BIG): yield dict(kind='modes', c=c, depth=1 if q else 2)
    for c in HIST:
        for v in VAR: yield dict(kind='hist', c=c, v=v, depth=2 if q else 3)
    for p in NLP:
        for o in OPT: yield dict(kind='nlp', p=p, o=o)


HIST = [dict(N=3, bx='part', bu='all', g=1, lin=1), dict(N=2, dim='x3u2', bx='rev', bu='rev', g=2, ge=1, slack='all', lin=1), dict(N=3, x0='bnd', bx='all', slack='bx', mask='upper', lin=1), dict(N=2, x0='part', ge=1, slack='last', lls=1)]
VAR = {'p': (PAR, None, None), 'c1': (PAR, 1, None), 'c2': (PAR, 2, None), 'f': (FULL, None, None), 'ps': (PAR, None, dict(hpipm_mode='SPEED'))}


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


def make(Q, name, cn=None, blocks=None, **kw):
    from acados_template import AcadosOcpQpSolver, AcadosOcpQpOptions
    o = AcadosOcpQpOptions(); o.qp_solver = name; o.tol_stat = o.tol_eq = o.tol_ineq = o.tol_comp = 1e-9; o.iter_max = 20000 if name == OSQP else 200
    if cn is not None: o.cond_N = cn
    if blocks is not None: o.cond_block_size = list(blocks)
    for k, v in kw.items(): setattr(o, k, v)
    return AcadosOcpQpSolver(Q.object(), o, acados_lib_path=os.environ['ACADOS_SOURCE_DIR'] + '/lib')


def sol(S, Q): return {f: [S.get(k, f) for k in range(Q.N if f == 'pi' else Q.N + 1)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}


def judge(Q, v, ctx, key, tag, extra=5.0):
    r = Q.kkt(v)
    for n in C24.TOL:
        if not ctx.require(r[n] <= C24.TOL[n] * extra, f'{key}-{n}', f'{tag}: {n} residual {r[n]:.3e} of the original QP'): return False
    return True


def k_part(case, ctx):
    c = case['c']; Q = C24.QP(c); N = Q.N; ctx.state('part', sorted(c.items(), key=str)); ref = None; V = [(PAR, m, None) for m in range(1, N + 1)] + [(FULL, None, None)] + [(PAR, m, b) for m in range(1, N + 1) for b in parts(N, m)] + [(OSQP, None, None), (OSQP, 1, None)]
    masks = any((m == 0).any() for f in C24.FIELDS if f.endswith('mask') for m in Q.d[f]); res = []
    if c.get('dim') == 'u0': V = [(PAR, N, None), (PAR, N, [1] * N + [0])]
    for name, m, b in V:
        if name == OSQP and (masks or any(len(e) not in (0, Q.nx[0]) for e in Q.d['idxe'][:1])): continue
        S = make(Q, name, m, b); st = S.solve(); ctx.trans(); tag = f'{name} cond_N {m} blocks {b}'; ctx.outcome(f'{name} {st}'); res.append((tag, name, st))
        if st: continue
        v = sol(S, Q); ctx.trace(); ok = judge(Q, v, ctx, 'part' if name != OSQP else 'osqp', tag, 5 if name != OSQP else 1e3)
        if not ok: return
        if ref is None: ref = v
        elif name != OSQP:
            for f in ('x', 'u', 'sl', 'su'): ctx.close(np.concatenate(v[f]), np.concatenate(ref[f]), 'part-' + f, f'{f}: {tag} differs from the first variant', 1e-5, 1e-5)
    if ref is None: ctx.outcome('not solved'); return
    for tag, name, st in res: ctx.require(st == 0 or name == OSQP, 'part-status', f'{tag}: status {st}, other variants solve the QP')


def k_modes(case, ctx):
    c = case['c']; Q = C24.QP(c); N = Q.N; ctx.state('modes', sorted(c.items(), key=str)); first = None
    for name, m in ((PAR, None), (PAR, 1), (FULL, None)):
        if c.get('dim') == 'u0' and m != N and name + str(m) != PAR + 'None': continue
        for o in mclib.lattice({}, MODES, case['depth']):
            if name == FULL and 'ric_alg' in o: continue
            S = make(Q, name, m, **o); st = S.solve(); ctx.trans(); tag = f'{name} cond_N {m} {o}'
            if first is None: first = st
            if first: ctx.outcome('not solved'); return
            ctx.outcome(f'{name} {o.get("hpipm_mode", "")} {st}')
            if not ctx.require(st == 0, 'modes-status', f'{tag}: status {st}, the default options solve the QP'): return
            v = sol(S, Q); ctx.trace()
            if not judge(Q, v, ctx, 'modes', tag, 5): return
            if not o or 'warm_start' in o:
                st = S.solve(); w = sol(S, Q); ctx.trans(); ctx.require(st == 0, 'resolve-status', f'{tag}: solved again with status {st}')
                for f in ('x', 'u', 'sl', 'su'): ctx.close(np.concatenate(w[f]), np.concatenate(v[f]), 'resolve-' + f, f'{tag}: {f} after solving again', 1e-5, 1e-6)
                if 'warm_start' not in o: ctx.require(all(np.array_equal(a, b) for f in v for a, b in zip(v[f], w[f])), 'resolve-same', f'{tag}: solving the same QP again from the same initialization gives another result')
        # residuals of unconverged points, recomputed
        lib = ctypes.CDLL(os.environ['ACADOS_SOURCE_DIR'] + '/lib/libacados.so')
        for it in (1, 2, 3, 5, 8):
            S = make(Q, name, m, iter_max=it); S.solve(); r = (ctypes.c_double * 4)(); dims = ctypes.c_void_p.from_address(S.c_in); lib.ocp_qp_inf_norm_residuals.argtypes = [ctypes.c_void_p] * 3 + [ctypes.POINTER(ctypes.c_double)]; lib.ocp_qp_inf_norm_residuals(dims, S.c_in, S.c_out, r)
            v = {f: [S.get(k, f, unique_duals=False) if f == 'lam' else S.get(k, f) for k in range(N if f == 'pi' else N + 1)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}; k = Q.kkt(v); ctx.trans()
            for i, n in enumerate(('stat', 'eq')): ctx.close(r[i], k[n], 'residual-' + n, f'{name} cond_N {m} after {it} iterations: {n} residual', 1e-6, 1e-8)


def change(Q, ch, rnd):
    """changes the data of the QP in place, names the changed fields"""
    d = Q.d; s = 1 if rnd % 2 else -1
    if ch == 'b':
        for k in range(Q.N): d['b'][k] = d['b'][k] + 0.05 * s
        return ['b']
    if ch == 'x0':
        d['lbx'][0] = d['lbx'][0] + 0.07 * s; d['ubx'][0] = d['ubx'][0] + 0.07 * s; return ['lbx', 'ubx']
    if ch == 'q':
        for k in range(Q.N + 1): d['q'][k] = -d['q'][k]; d['r'][k] = d['r'][k] * (1.5 if s > 0 else 0.6)
        return ['q', 'r']
    if ch == 'bounds':
        for k in range(Q.N + 1):
            for f in ('lbu', 'lg'): d[f][k] = d[f][k] * (0.8 if s > 0 else 1.25)
            for f in ('ubu', 'ug'): d[f][k] = d[f][k] * (1.3 if s > 0 else 0.9)
        return ['lbu', 'lg', 'ubu', 'ug']
    if ch == 'mask':
        for k in range(Q.N + 1):
            if len(d['ubu_mask'][k]): d['ubu_mask'][k] = d['ubu_mask'][k].copy(); d['ubu_mask'][k][0] = 1 - d['ubu_mask'][k][0]
        return ['ubu_mask']
    if ch == 'dyn':
        for k in range(Q.N): d['A'][k] = d['A'][k] * (0.9 if s > 0 else 1.1); d['B'][k] = d['B'][k] * (1.2 if s > 0 else 0.8)
        for k in range(Q.N + 1): d['Q'][k] = d['Q'][k] * (1.2 if s > 0 else 0.9); d['R'][k] = d['R'][k] * 1.1
        return ['A', 'B', 'Q', 'R']
    if ch == 'slack':
        for k in range(Q.N + 1):
            for f in ('zl', 'Zu'): d[f][k] = d[f][k] * (0.7 if s > 0 else 1.4)
        return ['zl', 'Zu']
    if ch == 'C':
        for k in range(Q.N + 1): d['C'][k] = d['C'][k] * (0.8 if s > 0 else 1.2); d['D'][k] = d['D'][k] + 0.1 * s
        return ['C', 'D']
    return []


def put(S, Q, fs, lib):
    for f in fs:
        for k, a in enumerate(Q.d[f]):
            v = np.ascontiguousarray(np.ravel(a, order='F'), dtype=float)
            lib.ocp_qp_in_set(ctypes.c_void_p(S.c_config), ctypes.c_void_p(S.c_in), ctypes.c_int(k), f.encode(), v.ctypes.data_as(ctypes.c_void_p))


def k_hist(case, ctx):
    name, m, o = VAR[case['v']]; lib = ctypes.CDLL(os.environ['ACADOS_SOURCE_DIR'] + '/lib/libacados.so'); A = [(c, w) for c in CH for w in (0, 1, 2)]; solved = {}
    for seq in itertools.product(A, repeat=case['depth']):
        Q = C24.QP(case['c']); S = make(Q, name, m, **(o or {})); hist = []
        if S.solve(): ctx.outcome('first QP not solved'); return
        for i, (c, w) in enumerate(seq):
            hist.append((c, w)); put(S, Q, change(Q, c, i), lib); S.opts_set('warm_start', w); st = S.solve(); ctx.trans(); key = tuple(h[0] for h in hist); ctx.state(case['c'].items().__repr__(), case['v'], tuple(hist)); tag = f'{name} cond_N {m}: after the changes (field, warm start) {hist}'
            if key not in solved: solved[key] = make(Q, name, m, **(o or {})).solve()
            if solved[key]: ctx.outcome('changed QP not solved'); break
            if not ctx.require(st == 0, 'hist-status', f'{tag} status {st}, a new solver object solves this QP'): return
            if not judge(Q, sol(S, Q), ctx, 'hist', tag, 5): return
        ctx.trace()


# ---------------------------------------------------------------- real OCP solvers
NLP = {'nls': dict(C12.PROBS['nls']), **{k: v for k, v in C12.PROBS.items() if k not in ('nls', 'irkz')}}
OPT = {'base': {}, 'c1': dict(qp_solver_cond_N=1), 'c2': dict(qp_solver_cond_N=2), 'blk': dict(qp_solver_cond_N=2, qp_solver_cond_block_size='uneven'), 'full': dict(qp_solver=FULL), 'osqp': dict(qp_solver=OSQP), 'speed': dict(hpipm_mode='SPEED'), 'robust': dict(hpipm_mode='ROBUST'), 'ws1': dict(qp_solver_warm_start=1), 'ws2': dict(qp_solver_warm_start=2), 'ws3': dict(qp_solver_warm_start=3), 'ric': dict(qp_solver_ric_alg=0), 'cric': dict(qp_solver_cond_ric_alg=0, qp_solver_cond_N=1), 't0': dict(qp_solver_t0_init=0), 't1': dict(qp_solver_t0_init=1), 'mu0': dict(qp_solver_mu0=10.0),
       'so': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN'), 'so2': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_ub_max_abs_eig=0.1), 'so3': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_lb_norm_inf_grad_obj=50.0), 'sc': dict(qpscaling_scale_constraints='INF_NORM'), 'soc': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_scale_constraints='INF_NORM', qpscaling_ub_max_abs_eig=0.5),
       'socf': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_scale_constraints='INF_NORM', qpscaling_ub_max_abs_eig=0.5, qp_solver=FULL), 'scc1': dict(qpscaling_scale_constraints='INF_NORM', qp_solver_cond_N=1), 'soosqp': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_ub_max_abs_eig=0.5, qp_solver=OSQP), 'socws': dict(qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_scale_constraints='INF_NORM', qpscaling_ub_max_abs_eig=0.5, qp_solver_warm_start=2)}


def k_nlp(case, ctx):
    op = dict(OPT[case['o']]); s = C01.expand(NLP[case['p']])
    if op.get('qp_solver') == OSQP and (s.get('onesided') or case['p'] in ('phi', 'phiall')): ctx.outcome('osqp: one-sided bounds'); return
    P = ocpspec.Problem(s); o = P.ocp(solverlib.name()); q = o.solver_options; N = s['N']
    if op.get('qp_solver_cond_block_size'): op['qp_solver_cond_block_size'] = [N - 1, 1, 0] if N > 2 else [1, 1, 0]
    if N < 2 and case['o'] in ('c2', 'blk'): return
    C12.common(q, 4); osqp = op.get('qp_solver') == OSQP
    if osqp: q.qp_solver_iter_max = 20000
    for k, v in op.items(): setattr(q, k, v)
    S = solverlib.solver(o, o.name); R = ocpspec.Ref(P); Bl = C10.Blocks(P, R)
    for i in range(4):
        S.reset(); C12.put(S, R, C12.start(i)); ctx.trace(); st = S.solve(); T = C12.iterates(S, R); ctx.outcome(f'status {st}'); qs = S.get_stats('qp_stat'); n = len(T) - 1
        if st == 4:
            ctx.outcome('QP failure'); n -= 1
        for k in range(n):
            if qs[k + 1]: ctx.outcome('QP not solved to tolerance'); break
            a, b = T[k], T[k + 1]; d = C12.step_of(a, b, 1.0); pi, lam = C12.qp_duals(a, b, 1.0, True); sc = C12.scale_of(a, d, pi, lam); tag = f'{case["p"]} {op} start {i} iteration {k}'
            if sc > 1e5: break
            r = C12.qp_residual(a, Bl, d, pi, lam, a.gap, a.v, 0.0); w = max(r, key=r.get); ctx.trans(); ctx.state(case['p'], case['o'], i, k); tol = 1e-3 if osqp else 3e-6
            if not ctx.require(r[w] <= tol * sc * sc, 'nlp-step', lambda: f'{tag}: the step is not the solution of the QP: residual {r[w]:.2e} in {w}'): return


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=400, chunk=4, jobs=8))
