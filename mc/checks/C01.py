"""C01: every formulation within a bounded number of deviations from a base OCP is entered through acados_template, generated, compiled,
solved by the real solver, and the point it reports is checked against an independent statement of the KKT conditions of the formulation.
The explored space is the feature lattice (cost, constraint, slack, integrator, grid, Hessian, QP solver, globalization); a state is one solved formulation."""
import sys, numpy as np
import mclib, solverlib, ocpspec

PID = 'C01'
ASSUME = ['QP solvers: HPIPM and OSQP as shipped in the CasADi wheel', 'dimension bounds nx<=3 nu<=2 nz<=2 N<=5', 'reference KKT conditions written from the documented problem formulation']

BASE = dict(bu=1)
X = dict(hessian_approx='EXACT')
ALTS = dict(
    cost=['LLS', 'CONL', 'EXT'], coste=['LLS', 'CONL', 'EXT'], cost0=['LLS', 'NLS', 'CONL', 'EXT'],
    integ=['IRK', 'DISCRETE', 'GNSF', 'LIFTED_IRK', 'IRKZ', 'IRKZ2', 'IRK3R', 'ERK4', 'IRKQ'],
    par=['p', 'pg', 'both'], t=[1], sym=['MX'], N=[1, 4], grid=['steps', 'nodes'], dim=['x1', 'x3', 'u1', 'u0'],
    scaling=['custom', 'ones'], x0=['box', 'none', 'partial', 'eqpart'],
    bu=[0, 2], bx=[1, 2], bxe=[1, 2], lin=['g', 'gge', 'ge'], nl=['h', 'hh', 'h0', 'he', 'hall', 'phi', 'phie', 'phiall'],
    slack=['most', 'all', 'rev', 'revall', 'e'], onesided=[1],
    opt=['full', 'cond1', 'cond2', 'osqp', 'exact', 'exactreg', 'merit', 'funnel', 'feasqp', 'feasqpl1', 'ddp', 'scale', 'lm', 'hfix', 'byrd', 'simple_ineq'],
)
ALLSOFT = ('bu*', 'bx*', 'g*', 'h*', 'phi*', 'h_0*', 'phi_0*', 'bx_e*', 'g_e*', 'h_e*', 'phi_e*')
MOST = ('bx', 'g', 'h', 'phi', 'bx_e', 'g_e', 'h_e', 'phi_e', 'h_0', 'phi_0')


def expand(c):
    """feature case -> problem spec"""
    k = dict(bu=1)
    k.update({f: c[f] for f in ('cost', 'coste', 'cost0', 't', 'sym', 'N', 'grid', 'scaling', 'x0', 'bu', 'bx', 'bxe', 'onesided') if f in c})
    k.update({'p': dict(np=2), 'pg': dict(npg=1), 'both': dict(np=2, npg=2), None: {}}[c.get('par')])
    k.update({'x1': dict(nx=1, nu=1), 'x3': dict(nx=3), 'u1': dict(nu=1), 'u0': dict(nu=0, bu=0), None: {}}[c.get('dim')])
    k.update({'g': dict(g=1), 'gge': dict(g=2, ge=1), 'ge': dict(ge=2), None: {}}[c.get('lin')])
    k.update({'h': dict(h=1), 'hh': dict(h=2), 'h0': dict(h0=1), 'he': dict(he=1), 'hall': dict(h=2, h0=1, he=2), 'phi': dict(phi=1), 'phie': dict(phie=1), 'phiall': dict(phi=1, phi0=1, phie=1), None: {}}[c.get('nl')])
    i = c.get('integ')
    k.update({None: {}, 'IRK': dict(integ='IRK'), 'DISCRETE': dict(integ='DISCRETE'), 'GNSF': dict(integ='GNSF'), 'LIFTED_IRK': dict(integ='LIFTED_IRK'), 'IRKZ': dict(integ='IRK', nz=1), 'IRKZ2': dict(integ='IRK', nz=2, stages=3),
              'IRK3R': dict(integ='IRK', stages=3, steps=2, colloc='RADAU'), 'ERK4': dict(stages=4, steps=2), 'IRKQ': dict(integ='IRK', cdisc='INTEGRATOR')}[i])
    sl = c.get('slack')
    k.update({None: {}, 'most': dict(soft=MOST), 'all': dict(soft=ALLSOFT), 'rev': dict(soft=MOST, rev=1), 'revall': dict(soft=ALLSOFT, rev=1), 'e': dict(soft=('bx_e', 'g_e', 'h_e', 'phi_e'))}[sl])
    k['opts'] = {None: {}, 'full': dict(qp_solver='FULL_CONDENSING_HPIPM'), 'cond1': dict(qp_solver_cond_N=1), 'cond2': dict(qp_solver_cond_N=2), 'osqp': dict(qp_solver='PARTIAL_CONDENSING_OSQP', qp_solver_iter_max=4000),
                 'exact': X, 'exactreg': dict(X, regularize_method='MIRROR'), 'merit': dict(globalization='MERIT_BACKTRACKING'), 'funnel': dict(globalization='FUNNEL_L1PEN_LINESEARCH'),
                 'feasqp': dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH'), 'feasqpl1': dict(nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH', search_direction_mode='BYRD_OMOJOKUN'),
                 'ddp': dict(nlp_solver_type='DDP', globalization='MERIT_BACKTRACKING'), 'scale': dict(qpscaling_scale_constraints='INF_NORM', qpscaling_scale_objective='OBJECTIVE_GERSHGORIN'),
                 'lm': dict(levenberg_marquardt=1e-2), 'hfix': dict(fixed_hess=1), 'byrd': dict(globalization='MERIT_BACKTRACKING', globalization_use_SOC=1), 'simple_ineq': dict(qp_solver_warm_start=1)}[c.get('opt')]
    k['opts'] = dict(k['opts'])
    if c.get('opt') == 'hfix': k['coste'] = 'LLS'
    if k['opts'].get('qp_solver_cond_N', 0) > k.get('N', 3): k['opts']['qp_solver_cond_N'] = k.get('N', 3)
    if ('EXT' in (k.get('cost'), k.get('coste'), k.get('cost0'))) and c.get('opt') is None: k['opts'].update(X)
    return ocpspec.spec(**k)


def valid(c):
    o, i, sl, nl = c.get('opt'), c.get('integ'), c.get('slack'), c.get('nl')
    if sl and not any(c.get(f) for f in ('bx', 'bxe', 'lin', 'nl')) and sl not in ('all', 'revall'): return False
    if sl == 'all' or sl == 'revall':
        if c.get('bu') == 0 and not any(c.get(f) for f in ('bx', 'bxe', 'lin', 'nl')): return False
    if sl == 'e' and not (c.get('bxe') or c.get('lin') in ('gge', 'ge') or nl in ('he', 'hall', 'phie', 'phiall')): return False
    if sl in ('rev', 'revall') and o in ('osqp', 'ddp', 'feasqp', 'feasqpl1', 'merit', 'funnel', 'byrd'): return False
    if c.get('dim') == 'u0' and (any(c.get(f) for f in ('bx', 'bxe', 'lin', 'nl')) or c.get('bu') == 2 or o == 'ddp' or o == 'full'): return False
    if c.get('dim') in ('x1', 'u1') and c.get('bu') == 2: return False
    if c.get('dim') == 'x1' and (c.get('bx') == 2 or c.get('bxe') == 2 or c.get('x0') == 'eqpart' or i == 'IRKZ2'): return False
    if i == 'IRKQ' and (c.get('cost') in ('LLS', 'EXT') or c.get('cost0') in ('LLS', 'EXT') or o in ('exact', 'exactreg', 'feasqp', 'feasqpl1', 'ddp')): return False
    if i == 'IRKQ' and c.get('cost0') and (c.get('cost0') != (c.get('cost') or 'NLS')): return False
    if i == 'IRKQ' and (o in ('merit', 'funnel', 'byrd')): return False
    if i in ('DISCRETE',) and c.get('grid'): return False
    if i in ('GNSF', 'LIFTED_IRK') and (o in ('exact', 'exactreg') or 'EXT' in (c.get('cost'), c.get('coste'), c.get('cost0'))): return False
    if i in ('IRKZ', 'IRKZ2') and o in ('exact', 'exactreg', 'merit', 'funnel', 'feasqp', 'feasqpl1', 'ddp', 'byrd'): return False      # documented as unsupported for constraints/costs with z
    if i == 'GNSF' and c.get('dim') == 'x1': return False
    allc = (c.get('cost'), c.get('coste'), c.get('cost0'))
    exact = 'EXT' in allc or o in ('exact', 'exactreg')
    if exact and (nl in ('phi', 'phie', 'phiall') or i in ('IRKZ', 'IRKZ2')): return False       # rejected at solver creation: exact Hessian of convex-over-nonlinear constraints, exact Hessian with algebraic variables
    if 'CONL' in allc and ('EXT' in allc or o in ('exact', 'exactreg')): return False           # documented: convex-over-nonlinear with exact Hessian is rejected
    if c.get('x0') in ('box', 'none', 'partial', 'eqpart') and o in ('ddp',): return False
    if o == 'ddp' and (c.get('bu', 1) or any(c.get(f) for f in ('bx', 'bxe', 'lin', 'nl', 'slack')) or c.get('cost') == 'EXT' or c.get('coste') == 'EXT' or c.get('cost0') == 'EXT'): return False
    if o == 'hfix' and not ((c.get('cost') == 'LLS')): return False
    if o in ('exact', 'exactreg') and nl in ('phi', 'phie', 'phiall'): return False
    if o == 'osqp' and c.get('onesided'): return False                                           # rejected: one-sided constraints are not supported by OSQP here
    if c.get('t') and ('EXT' in allc or i == 'LIFTED_IRK'): return False                         # rejected: no time dependence there
    if i == 'GNSF' and (c.get('par') in ('pg', 'both') or c.get('sym') == 'MX' or c.get('dim') == 'u0'): return False   # rejected by the structure detection
    if o == 'hfix' and (c.get('cost0') not in (None, 'LLS') or c.get('coste')): return False
    if o in ('feasqp', 'feasqpl1') and (c.get('t') or sl): return False
    return True


def cases(tier):
    base = dict(BASE)
    out = []
    for c in mclib.lattice(base, ALTS, 2 if tier == 'quick' else 3, valid):
        out.append(c)
        if tier != 'quick' and len(out) > 60000: break
    # problems that need more than two features to be meaningful at all
    for sl in ('all', 'revall', 'most', 'rev'):
        for cost in (None, 'LLS', 'CONL'):
            for opt in (None, 'full', 'cond1'):
                c = dict(base, bx=2, bxe=2, lin='gge', nl='hall', slack=sl, bu=2)
                if cost: c.update(cost=cost, coste=cost)
                if opt: c['opt'] = opt
                out.append(c)
        out.append(dict(base, bx=2, bxe=2, lin='gge', nl='phiall', slack=sl, bu=2))
    for i in ('IRK', 'IRKZ', 'DISCRETE', 'IRKQ'):
        for par in ('p', 'both'):
            for g in (None, 'steps'):
                if i == 'DISCRETE' and g: continue
                c = dict(base, integ=i, par=par, nl='hall', lin='gge', slack='most')
                if g: c['grid'] = g; c['scaling'] = 'custom'
                out.append(c)
    for o in (None, 'merit', 'cond2', 'full'): out.append({k: v for k, v in dict(base, bu=0, opt=o or 'ddp').items()})
    return out


def setup(tier): solverlib.setup()


def run(case, ctx):
    s = expand(case)
    if s['integ'] == 'DISCRETE' and s['nu'] == 0: s['nu'] = 0
    P = ocpspec.Problem(s); nm = solverlib.name(); o = P.ocp(nm)
    osqp = 'OSQP' in o.solver_options.qp_solver
    if osqp: o.solver_options.nlp_solver_tol_stat = o.solver_options.nlp_solver_tol_eq = o.solver_options.nlp_solver_tol_ineq = o.solver_options.nlp_solver_tol_comp = 1e-4
    tol = 1e-4 if osqp else 1e-6
    sol = solverlib.solver(o, nm); N = s['N']
    st = sol.solve()
    ctx.outcome(f'status {st}')
    if st in (2, 4) and case.get('opt') in ('merit', 'funnel', 'feasqp', 'feasqpl1', 'byrd', 'ddp'): return      # a globalized iteration may be too slow or its subproblem solver may give up; nothing is claimed then
    if not ctx.require(st == 0, 'not-solved', f'status {st} on a well-posed problem; sqp_iter {sol.get_stats("sqp_iter")}'): return
    T = solverlib.traj(sol, N); R = ocpspec.Ref(P)
    r = R.kkt(T['x'], T['u'], T['sl'], T['su'], T['pi'], T['lam'])
    if not ctx.require(r['ok'], 'dims', r.get('dims', '')): return
    irk = 'IRK' in s['integ'] or s['integ'] == 'GNSF'                                                # implicit integrators are Newton-converged to ~1e-8 per step
    lim = (10 if irk else 3) * tol + 1e-7
    for q in ('stat', 'eq', 'ineq', 'comp', 'sign'):
        ctx.require(r[q] <= lim, 'kkt-' + q, f'status 0 but {q} residual of the formulated problem is {r[q]:.3e} (tolerance {tol}), worst at {r["where"].get(q)}')
    ctx.close(sol.get_cost(), r['cost'], 'cost', 'get_cost() against the formulated objective', rtol=1e-6 if irk else 1e-8, atol=1e-6 if irk else 1e-8)
    res = sol.get_residuals(recompute=True)
    for q, v in zip(('stat', 'eq', 'ineq', 'comp'), res):
        ctx.require(v <= (2 if s['integ'] == 'LIFTED_IRK' else 1.01) * tol, 'res-' + q, f'status 0, recomputed residual {q} {v}')
        if q in ('stat', 'eq', 'ineq'): ctx.require(abs(v - r[q]) <= (1e-5 if irk else 1e-6) + 0.05 * max(v, r[q]), 'res-mismatch-' + q, f'reported residual {q}={v:.3e}, true {r[q]:.3e} at {r["where"].get(q)}')
    if s['nz']:
        for k in range(N):
            ctx.close(T['z'][k], R.eval(k, T['x'][k], T['u'][k])['z'], 'z', f'algebraic variables of stage {k}', rtol=1e-5, atol=1e-5)
    ctx.state(sorted(case.items())); ctx.trace()
    ctx.sample(f'{case} -> cost {r["cost"]:.6f} iterations {sol.get_stats("sqp_iter")}')


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], level='model_checking', timeout=120, chunk=6, jobs=8))
