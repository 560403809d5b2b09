"""(1) Every formulation within a bounded number of deviations from a base problem is split into phases in every possible way (all compositions of the
horizon); the multi-phase solver must reproduce the single-phase solver: same iterates, multipliers, statistics, after solving, after parameter and
bound updates at any stage and after reset.  (2) All ordered pairs (thorough: triples and other interval numbers) of unlike phase formulations (cost,
integrator, constraints, slacks, parameters, input and state dimensions) are solved and the reported point is checked against an independent KKT model
assembled from the phases, again after every single-stage parameter update."""
import sys, itertools, numpy as np, casadi as ca
import mclib, solverlib, ocpspec

PID = 'C15'
ASSUME = ['dimension bounds nx<=3 nu<=2 nz<=1 N<=4, at most 4 phases', 'QP solver HPIPM']
X = dict(hessian_approx='EXACT')
SPLIT = dict(cost=['LLS', 'CONL', 'EXT'], coste=['LLS', 'EXT'], cost0=['LLS', 'NLS'], integ=['IRK', 'DISCRETE', 'IRKZ', 'IRKQ'], par=['p', 'both', 'sparse'], sym=['MX'], grid=['steps'], scaling=['custom'], x0=['box', 'none'], nl=['hall', 'phiall'],
             bx=[2], bxe=[2], lin=['gge'], slack=['all', 'rev'], opt=['full', 'cond1', 'exact', 'merit', 'rti', 'funnel'], dim=['u0', 'x3'])
SOFT = ('bu', 'bx*', 'g*', 'h*', 'phi', 'h_0', 'phi_0', 'bx_e*', 'g_e*', 'h_e*', 'phi_e')
V = dict(base={}, lls=dict(cost='LLS', coste='LLS'), conl=dict(cost='CONL', coste='CONL'), ext=dict(cost='EXT', coste='EXT'), irk=dict(integ='IRK', stages=2), irkz=dict(integ='IRK', nz=1), irkq=dict(integ='IRK', cdisc='INTEGRATOR'), disc=dict(integ='DISCRETE'),
         p2=dict(np=2), p1h=dict(np=1, h=2, h0=1, he=1), phi=dict(phi=1, phi0=1, phie=1), g=dict(g=2, ge=1), bxs=dict(bx=2, bxe=2, soft=('bx*', 'bx_e*')), alls=dict(bu=2, bx=2, bxe=2, g=1, ge=1, h=2, he=2, h0=1, soft=SOFT),
         rev=dict(bx=2, bxe=2, h=1, he=1, soft=('bx*', 'h', 'bx_e', 'h_e'), rev=1), u1=dict(nu=1, g=1), u0=dict(nu=0, bu=0), gnsf=dict(integ='GNSF'))


def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out, c = [], 1
        for b in bits:
            if b: out.append(c); c = 1
            else: c += 1
        yield out + [c]


def expand(c):
    k = dict(bu=1, N=3); k.update({f: c[f] for f in ('cost', 'coste', 'cost0', 'sym', 'grid', 'scaling', 'x0', 'bx', 'bxe') if f in c})
    k.update({None: {}, 'IRK': dict(integ='IRK', stages=3), 'DISCRETE': dict(integ='DISCRETE'), 'IRKZ': dict(integ='IRK', nz=1), 'IRKQ': dict(integ='IRK', cdisc='INTEGRATOR')}[c.get('integ')])
    k.update({None: {}, 'p': dict(np=2), 'both': dict(np=1, npg=2), 'sparse': dict(np=12, npg=1)}[c.get('par')])
    k.update({None: {}, 'hall': dict(h=2, h0=1, he=2), 'phiall': dict(phi=1, phi0=1, phie=1)}[c.get('nl')]); k.update({None: {}, 'gge': dict(g=2, ge=1)}[c.get('lin')])
    k.update({None: {}, 'all': dict(soft=SOFT), 'rev': dict(soft=SOFT, rev=1)}[c.get('slack')]); k.update({None: {}, 'u0': dict(nu=0, bu=0), 'x3': dict(nx=3)}[c.get('dim')])
    k['opts'] = dict({None: {}, 'full': dict(qp_solver='FULL_CONDENSING_HPIPM'), 'cond1': dict(qp_solver_cond_N=1), 'exact': X, 'merit': dict(globalization='MERIT_BACKTRACKING'), 'rti': dict(nlp_solver_type='SQP_RTI'), 'funnel': dict(globalization='FUNNEL_L1PEN_LINESEARCH')}[c.get('opt')])
    if 'EXT' in (k.get('cost'), k.get('coste'), k.get('cost0')) and c.get('opt') is None: k['opts'].update(X)
    return ocpspec.spec(**k)


def valid(c):
    allc = (c.get('cost'), c.get('coste'), c.get('cost0')); ex = 'EXT' in allc or c.get('opt') == 'exact'
    if c.get('integ') == 'IRKQ' and (set(allc) & {'LLS', 'EXT'} or ex): return False
    if ex and (c.get('nl') == 'phiall' or c.get('integ') == 'IRKZ' or 'CONL' in allc): return False
    if c.get('integ') == 'DISCRETE' and c.get('grid'): return False
    if c.get('dim') == 'u0' and (c.get('bx') or c.get('bxe') or c.get('lin') or c.get('nl') or c.get('slack') or c.get('opt') == 'full'): return False
    if c.get('slack') and c.get('opt') in ('merit', 'funnel'): return False
    return True


def cases(tier):
    q = tier == 'quick'
    for c in mclib.lattice({}, SPLIT, 1 if q else 2, valid): yield dict(kind='split', c=c)
    for c in (dict(bx=2, bxe=2, lin='gge', nl='hall', slack='all', par='p'), dict(bx=2, bxe=2, lin='gge', nl='hall', slack='rev', par='both'), dict(bx=2, nl='phiall', slack='all', par='sparse', grid='steps'), dict(cost='CONL', coste='CONL', integ='IRKQ', par='both')): yield dict(kind='split', c=c)
    names = list(V)
    for a, b in itertools.product(names, names):
        if q and not {'base', 'alls'} & {a, b} and (names.index(a) + 2 * names.index(b)) % 4: continue
        for NL in ([[1, 2]] if q else [[1, 2], [2, 1], [1, 1]]): yield dict(kind='mix', ph=[a, b], NL=NL)
    tri = ['alls', 'p2', 'irkz', 'u1', 'lls'] if q else ['base', 'alls', 'p2', 'p1h', 'irkz', 'u1', 'lls', 'rev', 'ext', 'disc']
    for t in itertools.product(tri, repeat=3):
        if len(set(t)) == 3 and (not q or t[0] < t[2]): yield dict(kind='mix', ph=list(t), NL=[1, 1, 2])
    for a, b in itertools.product([n for n in names if n not in ('u0',)], repeat=2):                # a transition to another state dimension in between
        if q and (names.index(a) + 2 * names.index(b)) % 4: continue
        yield dict(kind='mix', ph=[a, 'T', b], NL=[1, 1, 1])
    for npg in (1, 2):
        for a, b in itertools.combinations(['base', 'irk', 'p2', 'lls', 'ext'], 2): yield dict(kind='mix', ph=[a, b], NL=[2, 1], npg=npg)
    yield dict(kind='bad')


def setup(tier): solverlib.setup()


def lib(o): o.code_gen_options.acados_lib_path = solverlib.os.path.join(solverlib.os.environ['ACADOS_SOURCE_DIR'], 'lib')


def build_mocp(Ps, NL, opts_from, names=None):
    from acados_template import AcadosMultiphaseOcp
    m = AcadosMultiphaseOcp(N_list=list(NL)); m.solver_options = opts_from.solver_options; m.solver_options.N_horizon = sum(NL)
    for i, P in enumerate(Ps): m.set_phase(P.ocp((names or [f'ph{i}' for i in range(len(Ps))])[i]), i)
    m.mocp_opts.integrator_type = [P.s['integ'] for P in Ps]; m.mocp_opts.cost_discretization = [P.s['cdisc'] for P in Ps]
    m.mocp_opts.collocation_type = [{'GL': 'GAUSS_LEGENDRE', 'RADAU': 'GAUSS_RADAU_IIA'}[P.s['colloc']] for P in Ps]
    m.p_global_values = Ps[0].d['pg'].copy(); m.name = solverlib.name()
    return m


def same(ctx, a, b, N, key, msg, tol=1e-9):
    T1, T2 = a if isinstance(a, dict) else solverlib.traj(a, N), solverlib.traj(b, N)
    for f in T1:
        for k in range(len(T1[f])): ctx.close(T2[f][k], T1[f][k], f'{key}-{f}', f'{msg}: {f} at stage {k}', tol, tol)
    return T1, T2


def k_split(case, ctx):
    s = expand(case['c']); N = s['N']; P = ocpspec.Problem(s); tg = P.d['p'].copy()
    if s['np'] == 12: P.d['p'] = np.zeros(12); P.d['p'][:2] = tg[:2]
    o1 = P.ocp(solverlib.name())
    ref = solverlib.solver(o1)
    rti = case['c'].get('opt') == 'rti'
    def drive(sol):
        st = [sol.solve()] if not rti else [sol.solve() for _ in range(3)]
        return st, None if rti else sol.get_stats('sqp_iter')
    r0 = drive(ref)
    if r0[0][-1] not in (0, 2, 5): ctx.outcome('single-phase solver gave up'); return
    T0, c0 = solverlib.traj(ref, N), ref.get_cost()
    for NL in compositions(N):
        Ps = [ocpspec.Problem(s, pg=P.pg) for _ in NL]
        for q in Ps: q.d = P.d
        m = build_mocp(Ps, NL, P.ocp('x'))
        sol = ctx.accepts(lambda: solverlib.solver(m), 'split-generate', f'phases {NL}')
        if sol is None: continue
        r1 = drive(sol)
        if not ctx.require(r1 == r0, 'split-status', f'phases {NL}: status/iterations {r1}, single phase {r0}'): continue
        T, _ = same(ctx, T0, sol, N, 'split', f'phases {NL}'); ctx.close(sol.get_cost(), c0, 'split-cost', f'phases {NL}')
        for w in (ref, sol): w.reset(reset_numerical_values=1)
        for k in range(N + 1): ctx.close(sol.get(k, 'p'), ref.get(k, 'p'), 'split-p', f'phases {NL}: parameters at stage {k}')
        ctx.state('split', str(sorted(case['c'].items())), NL); ctx.trace()
        # the same sequence of updates on both, one stage after the other
        for k in range(N + 1):
            for w in (ref, sol):
                if s['np']: w.set(k, 'p', P.d['p'] + 0.05 * (k + 1))
                if k < N and s['bu'] and s['nu']: w.constraints_set(k, 'ubu', P.d['ubu'] - 0.02 * (k + 1))
                if k and k < N and s['bx']: w.constraints_set(k, 'ubx', P.d['ubx'] - 0.01 * k)
                if k < N and s['g']: w.constraints_set(k, 'ug', P.d['ug'] + 0.05 * k)
                yr = {0: 'yref_0' if 'yref_0' in P.d else 'yref', N: 'yref_e'}.get(k, 'yref')
                if yr in P.d: w.cost_set(k, 'yref', P.d[yr] + 0.03 * (k + 1))
        a, b = drive(ref), drive(sol); ctx.require(a == b, 'update-status', f'phases {NL}: {b} single phase {a}')
        same(ctx, ref, sol, N, 'update', f'phases {NL} after updates', 1e-8)
        for w in (ref, sol): w.reset(reset_numerical_values=1)
        a, b = drive(ref), drive(sol); ctx.require(a == b, 'reset-status', f'phases {NL}: {b} single phase {a}')
        same(ctx, ref, sol, N, 'reset', f'phases {NL} after reset')
        if b[0][-1] == 0 == r0[0][-1] and not rti:
            for k in range(N): ctx.close(sol.get(k, 'u'), T['u'][k], 'reset-first', f'phases {NL}: stage {k} after reset', 1e-3, 1e-3)
        ctx.state('split-updated', str(sorted(case['c'].items())), NL)
    ctx.sample(f'{case} {r0}')


def k_mix(case, ctx):
    NL, npg = case['NL'], case.get('npg', 0); N = sum(NL); pg = ca.SX.sym('pg', npg); Ps = []
    after = False
    for ph in case['ph']:
        kw = dict(bu=1, N=N, T=0.2 * N, npg=npg)
        if ph == 'T': kw.update(integ='DISCRETE', nxn=3, bu=0, nu=1); after = True
        else:
            kw.update(V[ph])
            if after: kw['nx'] = 3
        if ph == 'gnsf' and npg: return
        Ps.append(ocpspec.Problem(ocpspec.spec(**kw), pg=pg if npg else None))
    o = ocpspec.Problem(ocpspec.spec(N=N, T=0.2 * N)).ocp('opts'); so = o.solver_options
    so.sim_method_num_stages = 2; so.nlp_solver_max_iter = 150
    m = build_mocp(Ps, NL, o)
    sol = ctx.accepts(lambda: solverlib.solver(m), 'mix-generate', f'{case}')
    if sol is None: return
    R = ocpspec.Ref(Ps, NL); ps = [R.Pk[k].d['p'].copy() for k in range(N + 1)]
    tol = 3e-5 if any(P.s['integ'] in ('IRK', 'GNSF') for P in Ps) else 5e-6
    def check(tag):
        st = sol.solve(); ctx.outcome(f'status {st}')
        if not ctx.require(st == 0, f'mix-solve-{tag}', f'status {st}, residuals {sol.get_residuals()}'): return False
        T = solverlib.traj(sol, N); r = R.kkt(T['x'], T['u'], T['sl'], T['su'], T['pi'], T['lam'], ps)
        if not ctx.require(r['ok'], 'mix-dims', r.get('dims', '')): return False
        for q in ('stat', 'eq', 'ineq', 'comp', 'sign'): ctx.require(r[q] <= tol, f'mix-kkt-{q}', f'{tag}: status 0 but {q} residual of the formulated problem {r[q]:.3e} at {r["where"].get(q)}')
        ctx.close(sol.get_cost(), r['cost'], 'mix-cost', tag, 1e-6, 1e-6)
        for k in range(N + 1): ctx.close(sol.get(k, 'p'), ps[k], 'mix-p', f'{tag}: parameters at stage {k}')
        for k in range(N):
            if R.Pk[k].s['nz']: ctx.close(T['z'][k], R.eval(k, T['x'][k], T['u'][k], ps[k])['z'], 'mix-z', f'{tag}: z {k}', 1e-5, 1e-5)
        ctx.state(str(case), tag); ctx.trace(); return True
    if not check('initial'): return
    for k in range(N + 1):
        if ps[k].size: ps[k] = ps[k] + 0.1; sol.set(k, 'p', ps[k]); check(f'p at stage {k}')
    ctx.sample(f'{case}')


def k_bad(case, ctx):
    """inconsistent descriptions must be rejected"""
    from acados_template import AcadosMultiphaseOcp
    mk = lambda **kw: ocpspec.Problem(ocpspec.spec(**dict(dict(N=2, T=0.4, bu=1), **kw)))
    def two(a, b, f=lambda m: None, NL=(1, 1), opts=None):
        m = build_mocp([a, b], list(NL), opts or mk().ocp('o')); f(m); lib(m); m.make_consistent(); return m
    ctx.accepts(lambda: two(mk(), mk(np=1)), 'ok'); ctx.state('ok')
    ctx.rejects(lambda: two(mk(), mk(nx=3)), 'nx', 'different state dimension without transition')
    ctx.rejects(lambda: two(mk(integ='DISCRETE', nxn=3), mk(nx=3), NL=(2, 1), opts=mk(N=3, T=.6).ocp('o')), 'nx-long', 'transition phase longer than one interval')
    ctx.rejects(lambda: two(mk(integ='DISCRETE', nxn=3), mk()), 'nx-next', 'transition to a state dimension other than that of the next phase')
    ctx.rejects(lambda: two(mk(npg=1), mk(npg=1)), 'pg', 'different global parameters'); ctx.rejects(lambda: two(mk(), mk(npg=1)), 'pg-missing', 'global parameters in the second phase only')
    for f, bad in dict(integrator_type=['ERK'], collocation_type=['GAUSS_LEGENDRE'] * 3, cost_discretization=['EULER'] * 3).items(): ctx.rejects(lambda: two(mk(), mk(), lambda m: setattr(m.mocp_opts, f, bad)), f'len-{f}', 'wrong number of entries')
    for f in ('integrator_type', 'collocation_type', 'cost_discretization'):
        for bad in ('ERK', ['ERK', 'FOO'], 1, [None]):
            if f != 'integrator_type' or bad != ['ERK']: ctx.rejects(lambda: setattr(AcadosMultiphaseOcp([1, 1]).mocp_opts, f, bad), f'val-{f}', f'{bad}')
    for bad in (3, [], [1.5], '12', None): ctx.rejects(lambda: AcadosMultiphaseOcp(bad), 'N_list', f'{bad}')
    ctx.rejects(lambda: AcadosMultiphaseOcp([1, 1]).set_phase(mk().ocp('a'), 2), 'index', 'phase index out of range')
    ctx.rejects(lambda: setattr(AcadosMultiphaseOcp([1, 1]), 'parameter_values', [np.zeros(1)]), 'par-len', 'parameter list of the wrong length')
    ctx.rejects(lambda: setattr(AcadosMultiphaseOcp([1, 1]), 'parameter_values', np.zeros(2)), 'par-type', 'parameter values not a list')
    ctx.rejects(lambda: two(mk(np=1), mk(np=2), lambda m: m.parameter_values.__setitem__(1, np.zeros(1))), 'par-dim', 'parameter values of the wrong dimension')
    p = mk(); o = p.ocp('a'); m = AcadosMultiphaseOcp([1, 1]); m.solver_options = mk().ocp('o').solver_options; m.set_phase(o, 0); m.set_phase(o, 1); lib(m)
    ctx.rejects(m.make_consistent, 'shared', 'the same objects in two phases')
    ctx.trace()


def run(case, ctx): globals()['k_' + case['kind']](case, ctx)


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], timeout=200, chunk=6, jobs=8))
