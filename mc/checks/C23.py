"""C23: every formulation of the feature lattice is handed to the real CasADi back end; its objective, dynamics and constraints are evaluated on a grid of points and compared with an
independent reference of the formulation (objective and summed violation of all constraints, so that the internal layout does not matter); the NLP is solved by IPOPT and the stage-wise
primal and dual variables read from the solver are checked against the KKT conditions of the formulation in the acados convention; every field is written at every stage (stage-wise, flat,
as iterate), taken through a solver call with zero iterations and read back."""
import sys, os, io, contextlib, warnings, itertools, numpy as np, casadi as ca
import mclib, solverlib, ocpspec, C01

PID = 'C23'
ASSUME = ['IPOPT of the CasADi wheel is the optimizer; only the NLP, the mapping of variables and multipliers and the interface are acados code', 'alpaqa, fatrop and casados are not installed: single shooting is evaluated and solved with IPOPT']
ALTS = {k: v for k, v in C01.ALTS.items() if k not in ('opt', 't')}
ALTS['integ'] = ['DISCRETE', 'ERKx2', 'ERKx3', 'ERK1']
ALTS['soft'] = ['h', 'h*', 'he*', 'h0he', 'lsh']
ALTS['slack'] = ['most', 'rev']
UNSUPPORTED = ('slack', 'z', 'integ')


def valid(c):
    if c.get('soft') and not any(v in str(c.get('nl')) for v in ('h',)): return False
    if c.get('soft') and c.get('slack'): return False
    if c.get('soft') == 'he*' and c.get('nl') not in ('he', 'hall'): return False
    if c.get('soft') == 'h0he' and c.get('nl') not in ('hall',): return False
    if c.get('soft') in ('h', 'h*', 'lsh') and c.get('nl') not in ('h', 'hh', 'hall'): return False
    return C01.valid({k: v for k, v in c.items() if k not in ('soft',) and not (k == 'integ' and v.startswith('ERK'))})


def expand(c):
    i = c.get('integ') or ''; s = C01.expand({k: v for k, v in c.items() if k != 'soft' and not (k == 'integ' and i.startswith('ERK'))}); s['opts'] = {}
    s['stages'] = 1 if i == 'ERK1' else 4; s['steps'] = {'ERKx2': 2, 'ERKx3': 3}.get(i, 1)
    f = c.get('soft')
    if f: s['soft'] = {'h': ('h',), 'h*': ('h*',), 'he*': ('h_e*',), 'h0he': ('h_0', 'h_e*', 'h*'), 'lsh': ('h*',)}[f]
    if f == 'lsh': s['data'] = dict(lsh=[0.03, 0.02][:s['h']], ush=[0.01, 0.05][:s['h']])
    return s


def cases(tier):
    q = tier == 'quick'
    for c in mclib.lattice(dict(C01.BASE), ALTS, 2 if q else 3, valid):
        yield dict(kind='nlp', c=c)
    for c in mclib.lattice(dict(C01.BASE), ALTS, 1 if q else 2, valid):
        yield dict(kind='solve', c=c); yield dict(kind='single', c=c)
    for c in EXTRA: yield dict(kind='solve', c=c); yield dict(kind='nlp', c=c); yield dict(kind='io', c=c); yield dict(kind='single', c=c)
    for c in mclib.lattice(dict(C01.BASE), ALTS, 1 if q else 2, valid): yield dict(kind='io', c=c)
    for c in HESS: yield dict(kind='hess', c=c)


EXTRA = [dict(bu=2, bx=2, bxe=2, lin='gge', nl='hall', par='both', soft='h0he'), dict(bu=2, nl='hall', soft='h'), dict(bu=2, nl='hh', soft='h*', par='p', lin='g'), dict(bu=1, nl='hall', soft='h0he', cost='LLS', coste='LLS', scaling='custom', grid='steps'), dict(bu=2, bx=1, nl='phiall', lin='gge', par='both'), dict(bu=1, integ='DISCRETE', par='both', nl='hall', soft='h*'),
         dict(bu=2, nl='hall', soft='lsh'), dict(bu=1, nl='hh', soft='h', dim='x3'), dict(bu=1, bx=2, nl='hh', soft='h*', onesided=1)]
HESS = [dict(bu=b, bx=x, cost=t, coste=t, **e) for b, x in ((1, 0), (2, 1)) for t in ('NLS', 'LLS') for e in (dict(), dict(N=4, scaling='custom'), dict(nl='hall'), dict(lin='gge'), dict(nl='hall', soft='h0he'), dict(nl='phiall'), dict(cost0='NLS'), dict(cost0='LLS'), dict(par='both'), dict(grid='steps'))]


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


IP = {'ipopt.print_level': 0, 'print_time': False, 'record_time': True, 'ipopt.tol': 1e-9, 'ipopt.acceptable_tol': 1e-9, 'ipopt.max_iter': 300, 'ipopt.bound_relax_factor': 0.0, 'ipopt.honor_original_bounds': 'yes', 'ipopt.fixed_variable_treatment': 'make_constraint'}
SQ = dict(max_iter=0, qpsol='qrqp', qpsol_options=dict(print_iter=False, print_header=False, error_on_fail=False), print_header=False, print_iteration=False, print_time=False, print_status=False, error_on_fail=False)


def unsupported(s, R):
    """the documented restrictions"""
    soft = [g for P in [R.P] for g, l in P.sidx.items() if l and P.ncon.get(g)]
    return s['nz'] or (s['integ'] == 'ERK' and s['stages'] != 4) or s['integ'] not in ('ERK', 'DISCRETE') or any(not g.startswith('h') for g in soft)


def make(s, o, ctx, **kw):
    from acados_template import AcadosCasadiOcpSolver
    from acados_template import acados_ocp
    o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
    if s['integ'] == 'DISCRETE': pass
    kw.setdefault('casadi_solver_opts', dict(IP)); return AcadosCasadiOcpSolver(o, verbose=False, **kw)


def problem(c):
    s = expand(c); P = ocpspec.Problem(s); return s, P, ocpspec.Ref(P)


def supported(s, P, R, ctx, **kw):
    try: S = make(s, P.ocp(solverlib.name()), ctx, **kw)
    except (NotImplementedError, RuntimeError) as ex:
        if isinstance(ex, RuntimeError) and not isinstance(ex, NotImplementedError) and 'order' not in str(ex): raise
        ctx.outcome('not supported'); ctx.require(unsupported(s, R) or s['rev'], 'rejected', f'a supported formulation is rejected: {ex}'); return None
    return S


def points(P, R):
    s = P.s; N = R.N
    for j in range(3):
        f = lambda k, n, o: np.array([0.37 * np.cos(1.3 * k + 2.1 * i + 0.7 * j + o) * (1 if j < 2 else 1.6) for i in range(n)])
        yield dict(x=[f(k, s['nx'], 0) for k in range(N + 1)], u=[f(k, s['nu'], 1) for k in range(N)], sl=[f(k, len(R.slk[k][0]), 2) for k in range(N + 1)], su=[f(k, len(R.slk[k][0]), 3) for k in range(N + 1)])


def viols(R, v, ps, pg, dyn=True, bx=True):
    """summed violation of all constraints of the formulation"""
    t = 0.0
    for k in range(R.N + 1):
        e = R.eval(k, v['x'][k], v['u'][k] if k < R.N else None, ps[k], pg)
        if k < R.N and dyn: t += np.abs(e['xn'] - v['x'][k + 1]).sum()
        for i, (g, _, lo, up, si) in enumerate(R.cons[k]):
            if g.startswith('bx') and not bx: continue
            a, b = (v['sl'][k][si], v['su'][k][si]) if si >= 0 else (0, 0)
            if lo > -ocpspec.INF: t += max(0, lo - e['c'][i] - a)
            if up < ocpspec.INF: t += max(0, e['c'][i] - b - up)
        ls, us = R.slk[k][4:]; t += np.maximum(0, ls - v['sl'][k]).sum() + np.maximum(0, us - v['su'][k]).sum()
    return t


def load(S, v, N, single=False):
    for k in range(N + 1):
        if not single: S.set(k, 'x', v['x'][k])
        if k < N: S.set(k, 'u', v['u'][k])
        for f in ('sl', 'su'):
            if v[f][k].size: S.set(k, f, v[f][k])


def value(S):
    F = ca.Function('F', [S.casadi_nlp['x'], S.casadi_nlp['p']], [S.casadi_nlp['f'], S.casadi_nlp['g']]); f, g = F(S.w0, S.p); d = lambda m: np.array(ca.DM(m)).ravel()
    w, g = d(S.w0), d(g); B = {k: d(S.bounds[k]) for k in S.bounds}; INF = ocpspec.INF
    cl = lambda lb, v, ub: np.where(lb > -INF, np.maximum(0, lb - v), 0).sum() + np.where(ub < INF, np.maximum(0, v - ub), 0).sum()
    return float(f), cl(B['lbx'], w, B['ubx']) + cl(B['lbg'], g, B['ubg'])


def k_nlp(case, ctx):
    s, P, R = problem(case['c']); S = supported(s, P, R, ctx)
    if S is None: return
    N = R.N; ctx.state(sorted(case['c'].items()))
    pv = [(P.d['p'], P.d['pg'], None)]
    if s['np'] or s['npg']: pv.append(([P.d['p'] + 0.1 * (k + 1) for k in range(N + 1)], P.d['pg'] - 0.2, None))
    for j, (p, pg, _) in enumerate(pv):
        ps = p if isinstance(p, list) else [p] * (N + 1)
        if j:
            for k in range(N + 1): S.set(k, 'p', ps[k])
            if s['npg']: S.set_p_global_and_precompute_dependencies(pg)
        for v in points(P, R):
            load(S, v, N); f, t = value(S); ctx.trans(); ctx.trace()
            ctx.close(f, R.cost(v['x'], v['u'], v['sl'], v['su'], ps, pg), 'objective', 'objective of the NLP against the formulation', 1e-9, 1e-9); ctx.close(t, viols(R, v, ps, pg), 'feasible-set', 'summed constraint violation of the NLP against the formulation', 1e-9, 1e-9)
    if s['np'] > 1 and N > 1:      # single parameters
        q = [x.copy() for x in ps]; q[1][1] += 0.5; S.set_params_sparse(1, np.array([1]), np.array([q[1][1]])); load(S, v, N); f, t = value(S); ctx.close(f, R.cost(v['x'], v['u'], v['sl'], v['su'], q, pg), 'params-sparse', 'objective after set_params_sparse', 1e-9, 1e-9); ctx.close(t, viols(R, v, q, pg), 'params-sparse', 'violation after set_params_sparse', 1e-9, 1e-9)
        S.set(1, 'p', ps[1])
    # runtime data: reference and bounds of one stage
    v0 = v
    for k in range(N + 1):
        suf = R.kinds[k]; key = '' if suf == '_0' and s['cost0'] is None else suf
        if 'yref' + key in P.d and {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[key] in ('LLS', 'NLS', 'CONL'):
            P2 = ocpspec.Problem(dict(s, data=dict(s['data'] or {}, **{'yref' + key: P.d['yref' + key] + 0.3}))); R2 = ocpspec.Ref(P2); e2 = R2.eval(k, v0['x'][k], v0['u'][k] if k < N else None, ps[k], pg)['l']; e1 = R.eval(k, v0['x'][k], v0['u'][k] if k < N else None, ps[k], pg)['l']; load(S, v0, N); a = value(S)[0]
            (S.cost_set if k % 2 else S.set)(k, 'yref', P2.d['yref' + key]); b = value(S)[0]; ctx.trans(); ctx.close(b - a, R.sc[k] * (e2 - e1), 'yref', f'change of the objective by the reference of stage {k}', 1e-8, 1e-9)
            try: ctx.close(S.cost_get(k, 'yref'), P2.d['yref' + key], 'cost-get', 'yref'); ok = True
            except Exception as ex: ctx.viol('cost-get', f'cost_get(stage, "yref") fails: {ex!r}')
            S.set(k, 'yref', P.d['yref' + key])


def k_solve(case, ctx):
    s, P, R = problem(case['c']); S = supported(s, P, R, ctx)
    if S is None: return
    st = S.solve(); N = R.N; ctx.outcome(f'status {st}'); ctx.state(sorted(case['c'].items())); ctx.trace()
    if not ctx.require(st == 0, 'status', f'status {st} on a well-posed problem'): return
    G = lambda f: [S.get(k, f) for k in range(N + 1 if f in ('x', 'sl', 'su', 'lam') else N)]; T = {f: G(f) for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}
    r = R.kkt(T['x'], T['u'], T['sl'], T['su'], T['pi'], T['lam'])
    if not ctx.require(r['ok'], 'dims', r.get('dims', '')): return
    for q in ('stat', 'eq', 'ineq', 'comp', 'sign'): ctx.require(r[q] <= 2e-6, 'kkt-' + q, f'{q} residual of the formulation {r[q]:.3e} at {r["where"].get(q)}')
    ctx.close(S.get_cost(), r['cost'], 'cost', 'get_cost against the formulation', 1e-8, 1e-8)
    try: it = S.get_iterate(); ok = all(len(getattr(it, f)) == len(T[f]) and all(np.array_equal(a, b) for a, b in zip(getattr(it, f), T[f])) for f in T)
    except Exception as ex: ctx.viol('get-iterate', repr(ex)); return
    ctx.require(ok, 'get-iterate', 'get_iterate differs from get')
    for f in T: ctx.require(np.array_equal(S.get_flat(f), np.concatenate(T[f]) if T[f] else []), 'get-flat', f'get_flat({f}) differs from get')
    # a second solve with another initial state
    if s['x0'] == 'x0':
        x0 = P.d['x0'] * 0.9; u = S.solve_for_x0(x0); ctx.trans(); P2 = ocpspec.Problem(s); P2.d['x0'] = x0; R2 = ocpspec.Ref(P2); T = {f: G(f) for f in T}; r = R2.kkt(T['x'], T['u'], T['sl'], T['su'], T['pi'], T['lam'])
        if S.status == 0:
            for q in ('stat', 'eq', 'ineq', 'comp', 'sign'): ctx.require(r[q] <= 2e-6, 'x0-' + q, f'after solve_for_x0: {q} residual {r[q]:.3e} at {r["where"].get(q)}')
            ctx.close(u, T['u'][0], 'x0-u', 'returned control', 0, 0)


def k_io(case, ctx):
    """every field at every stage, read back after a call of an optimizer that makes no iteration"""
    s, P, R = problem(case['c']); S = supported(s, P, R, ctx, solver='sqpmethod', casadi_solver_opts=dict(SQ))
    if S is None: return
    from acados_template import AcadosOcpIterate
    N = R.N; n = dict(x=[s['nx']] * (N + 1), u=[s['nu']] * N, sl=[len(R.slk[k][0]) for k in range(N + 1)], pi=[s['nx']] * N, lam=[2 * (len(R.cons[k]) + len(R.slk[k][0])) for k in range(N + 1)]); n['su'] = n['sl']
    ctr = itertools.count(1)

    def val(f, m, off=0.0):
        if f != 'lam': return np.array([0.01 * next(ctr) + off for _ in range(m)])
        h = m // 2; a = np.array([0.01 * next(ctr) + off for _ in range(m)]); return a
    store = {f: [np.zeros(m) for m in n[f]] for f in n}

    def lamval(k, off):
        """multipliers of unsoftened constraints are representable only one-sided"""
        cons, ns = R.cons[k], len(R.slk[k][0]); nc = len(cons); a = np.zeros(2 * nc + 2 * ns)
        for i, c in enumerate(cons):
            if c[4] >= 0: a[i] = 0.01 * next(ctr) + off; a[nc + i] = 0.01 * next(ctr) + off
            else: a[i + (nc if (i + k) % 2 else 0)] = 0.01 * next(ctr) + off
        for i in range(2 * ns): a[2 * nc + i] = 0.01 * next(ctr) + off
        return a
    fresh = lambda off: {f: [lamval(k, off) if f == 'lam' else val(f, m, off) for k, m in enumerate(n[f])] for f in n}

    def check(want, tag):
        S.solve(); ctx.trans(); ctx.trace()
        for f in want:
            for k, a in enumerate(want[f]):
                b = np.asarray(S.get(k, f)).ravel(); ctx.require(b.size == a.size and np.allclose(a, b, 1e-12, 1e-12), f'{tag}-{f}', lambda: f'{f} of stage {k}: {a} was written, {b} read')
        ctx.state(tag, sorted(case['c'].items()))
    W = fresh(1.0)
    for f in W:
        for k, a in enumerate(W[f]):
            if a.size: S.set(k, f, a.copy())
    check(W, 'set')
    # one stage at a time, all others keep their values
    for f in n:
        for k in range(len(n[f])):
            if n[f][k]: a = lamval(k, 2.0) if f == 'lam' else val(f, n[f][k], 2.0); S.set(k, f, a.copy()); W[f][k] = a
        check(W, 'single')
    W = fresh(3.0); it = AcadosOcpIterate(z=[np.zeros(0)] * N, **{f: [a.copy() for a in W[f]] for f in W}); S.set_iterate(it); check(W, 'set-iterate')
    W = fresh(4.0); it = AcadosOcpIterate(z=[np.zeros(0)] * N, **{f: [a.copy() for a in W[f]] for f in W}); S.set_iterate(it.flatten()); check(W, 'set-flat-iterate')
    W = fresh(5.0)
    for f in W: S.set_flat(f, np.concatenate(W[f]))
    check(W, 'set-flat'); i2 = S.get_iterate(); S.set_iterate(fresh_it(fresh(6.0), N)); S.solve(); S.set_iterate(i2); check(W, 'iterate-roundtrip')
    fi = S.get_flat_iterate()
    for f in W: ctx.require(np.array_equal(getattr(fi, f), np.concatenate(W[f])), f'flat-iterate-{f}', 'get_flat_iterate differs')
    # parameters
    if s['np']:
        for k in range(N + 1): S.set(k, 'p', np.array([k + 10. * i for i in range(s['np'])]))
        for k in range(N + 1): ctx.close(S.get(k, 'p'), [k + 10. * i for i in range(s['np'])], 'p', f'parameter of stage {k}')
        ctx.close(S.get_flat('p'), np.concatenate([[k + 10. * i for i in range(s['np'])] for k in range(N + 1)]), 'p-flat', 'get_flat(p)')
    if s['npg']: v = np.arange(1., s['npg'] + 1); S.set_p_global_and_precompute_dependencies(v); ctx.close(S.get_flat('p_global'), v, 'p-global', 'p_global')
    # bounds, written and read stage-wise; the others keep their values
    base = {}
    names = lambda k: [(f, [c for c in R.cons[k] if c[0].split('_')[0] == g]) for f, g in (('lbx', 'bx'), ('ubx', 'bx'), ('lbu', 'bu'), ('ubu', 'bu'), ('lg', 'g'), ('ug', 'g'), ('lh', 'h'), ('uh', 'h'), ('lphi', 'phi'), ('uphi', 'phi'))]
    cur = {(k, f): np.array([c[2 if f[0] == 'l' else 3] for c in l]) for k in range(N + 1) for f, l in names(k) if l}

    def allb(tag):
        for (k, f), v in cur.items():
            try: got = np.asarray(S.constraints_get(k, f)).ravel()
            except Exception as ex: ctx.viol(f'{tag}-get-{f}', repr(ex)); continue
            ctx.require(got.size == v.size and np.array_equal(got, v), f'{tag}-{f}', lambda: f'{f} of stage {k}: {v} expected, {got} read')
    allb('bounds-initial')
    for (k, f) in list(cur):
        v = cur[k, f] + 0.001 * np.arange(1, cur[k, f].size + 1); 
        try: S.constraints_set(k, f, v.copy())
        except Exception as ex: ctx.viol(f'bounds-set-{f}', repr(ex)); continue
        cur[k, f] = v; ctx.trans()
    allb('bounds-set')
    for (k, f) in list(cur):
        if f in ('lbx', 'ubx', 'lbu', 'ubu'): v = cur[k, f] - 0.002 * np.arange(1, cur[k, f].size + 1); S.set(k, f, v.copy()); cur[k, f] = v; ctx.trans()
    allb('bounds-set2'); v = list(points(P, R))[1]; load(S, v, N); R3 = ocpspec.Ref(P)      # and they are the bounds of the NLP
    for k in range(N + 1):
        cnt = {}
        for c in R3.cons[k]:
            g = c[0].split('_')[0]; i = cnt.get(g, 0); cnt[g] = i + 1; lo, up = {'bx': ('lbx', 'ubx'), 'bu': ('lbu', 'ubu'), 'g': ('lg', 'ug'), 'h': ('lh', 'uh'), 'phi': ('lphi', 'uphi')}[g]; c[2], c[3] = cur[k, lo][i], cur[k, up][i]
    p = [S.get(k, 'p') for k in range(N + 1)] if s['np'] else [np.zeros(0)] * (N + 1); ctx.close(value(S)[1], viols(R3, v, p, S.get_flat('p_global') if s['npg'] else np.zeros(0)), 'bounds-nlp', 'summed violation after changing all bounds', 1e-9, 1e-9)


def fresh_it(W, N):
    from acados_template import AcadosOcpIterate
    return AcadosOcpIterate(z=[np.zeros(0)] * N, **W)


def k_single(case, ctx):
    s, P, R = problem(case['c'])
    try: S = make(s, P.ocp(solverlib.name()), ctx, use_single_shooting=True)
    except (NotImplementedError, RuntimeError) as ex:
        if isinstance(ex, RuntimeError) and not isinstance(ex, NotImplementedError) and 'order' not in str(ex): raise
        ctx.outcome('not supported'); ctx.require(unsupported(s, R) or s['rev'] or s['x0'] != 'x0' or s['bx'] or any(g.startswith('bx') and g != 'bx_0' for l in R.cons for g, *_ in l) or s['nu'] == 0, 'single-rejected', f'a supported formulation is rejected: {ex}'); return
    N = R.N; ctx.state('single', sorted(case['c'].items())); pv = [([P.d['p']] * (N + 1), P.d['pg'])]
    if s['np'] or s['npg']: pv.append(([P.d['p'] + 0.1 * (k + 1) for k in range(N + 1)], P.d['pg'] - 0.2))
    for j, (ps, pg) in enumerate(pv):
        if s['np']:
            for k in range(N + 1): S.set(k, 'p', ps[k])
        if s['npg']: S.set_p_global_and_precompute_dependencies(pg)
        def roll(v):
            v['x'][0] = P.d['x0']
            for k in range(N): v['x'][k + 1] = R.eval(k, v['x'][k], v['u'][k], ps[k], pg)['xn']
            return v
        for v in points(P, R):
            roll(v); load(S, v, N, True); f, t = value(S); ctx.trans(); ctx.trace(); ctx.close(f, R.cost(v['x'], v['u'], v['sl'], v['su'], ps, pg), 'single-objective', 'objective', 1e-9, 1e-9); ctx.close(t, viols(R, v, ps, pg, dyn=False), 'single-feasible-set', 'summed violation', 1e-9, 1e-9)
        st = S.solve()
        if not ctx.require(st == 0, 'single-status', f'status {st}'): return
        v = dict(x=[None] * (N + 1), u=[S.get(k, 'u') for k in range(N)], sl=[S.get(k, 'sl') for k in range(N + 1)], su=[S.get(k, 'su') for k in range(N + 1)]); roll(v)
        for k in range(N + 1): ctx.close(S.get(k, 'x'), v['x'][k], 'single-x', f'state of stage {k} against the dynamics', 1e-8, 1e-9)
        ctx.require(viols(R, v, ps, pg, dyn=False) < 1e-6, 'single-infeasible', 'solution violates constraints'); ctx.close(S.get_cost(), R.cost(v['x'], v['u'], v['sl'], v['su'], ps, pg), 'single-cost', 'cost', 1e-8, 1e-8)


def k_hess(case, ctx):
    """the Hessian approximation handed to the optimizer is that of the formulation"""
    from acados_template import AcadosCasadiOcp
    for approx in ('GAUSS_NEWTON', 'EXACT'):
        s, P, R = problem(case['c']); o = P.ocp(solverlib.name()); o.solver_options.hessian_approx = approx; o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
        try: C = AcadosCasadiOcp(o, with_hessian=True)
        except (NotImplementedError, AssertionError): ctx.outcome('not supported'); continue
        H = C.nlp_hess_l_custom; nlp = C.nlp; nw = nlp['x'].numel(); ng = nlp['g'].numel(); N = R.N; ctx.state(approx, sorted(case['c'].items())); lamg = ca.SX.sym('l', ng) if isinstance(nlp['x'], ca.SX) else ca.MX.sym('l', ng)
        L = nlp['f'] + ca.dot(lamg, nlp['g']); E = ca.Function('E', [nlp['x'], nlp['p'], lamg], [ca.hessian(L, nlp['x'])[0]])
        for v in points(P, R):
            w = np.zeros(nw)
            for f, key in (('x', 'x_in_w'), ('u', 'u_in_w'), ('sl', 'sl_h_in_w'), ('su', 'su_h_in_w')):
                for k, a in enumerate(v[f]): w[C.index_map[key][k]] = a
            lam = 0.3 * np.cos(np.arange(ng)); got = np.array(H(w, C.p_nlp_values, 1.0, lam)); got = got + np.triu(got, 1).T; ctx.trans(); ctx.trace()
            conl = np.zeros((nw, nw)); l2 = lam.copy()      # convex-over-nonlinear constraints: without the inner second derivatives
            for k in range(N + 1):
                if R.kinds[k] not in P.phi: continue
                r, rex, phi = P.phi[R.kinds[k]]; J, HH = ca.Function('J', P.args(), [ca.jacobian(rex, ca.vertcat(P.x, P.u)), ca.substitute(ca.hessian(ca.sum1(phi), r)[0], r, rex)])(v['x'][k], v['u'][k] if k < N else np.zeros(s['nu']), np.zeros(0), P.d['p'], P.d['pg'], 0)
                idx = list(C.index_map['x_in_w'][k]) + (list(C.index_map['u_in_w'][k]) if k < N else []); J = np.array(J)[:, :len(idx)]; j = C.index_map['lam_phi_in_lam_g'][k][0]; conl[np.ix_(idx, idx)] += lam[j] * J.T @ np.array(HH) @ J; l2[j] = 0
            if approx == 'EXACT':
                ctx.close(got, np.array(E(w, C.p_nlp_values, l2)) + conl, 'hess-exact', 'exact Hessian of the Lagrangian', 1e-8, 1e-9); continue
            ref = conl      # Gauss-Newton: J'WJ of every stage
            for k in range(N + 1):
                kind = R.kinds[k]; key = '' if kind == '_0' and s['cost0'] is None else kind; typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[key]
                y = P.y[key] if typ == 'NLS' else ca.mtimes(P.d['Vx' + key], P.x) + (ca.mtimes(P.d['Vu' + key], P.u) if key != '_e' else 0)
                J = np.array(ca.Function('J', P.args(), [ca.jacobian(y, ca.vertcat(P.x, P.u))])(v['x'][k], v['u'][k] if k < N else np.zeros(s['nu']), np.zeros(0), P.d['p'], P.d['pg'], 0)); idx = list(C.index_map['x_in_w'][k]) + (list(C.index_map['u_in_w'][k]) if k < N else [])
                if k == N: J = J[:, :s['nx']]
                ref[np.ix_(idx, idx)] += R.sc[k] * J.T @ P.d['W' + key] @ J
                for f, Z in (('sl_h_in_w', R.slk[k][2]), ('su_h_in_w', R.slk[k][3])):
                    for i, j in enumerate(C.index_map[f][k]): ref[j, j] += R.sc[k] * Z[i]
            ctx.close(got, ref, 'hess-gn', 'Gauss-Newton Hessian', 1e-8, 1e-9)


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=200, chunk=4))
