"""C22: the option tables of the OCP, QP, simulation and code generation options.  Every ordered pair of assignments (valid then valid, valid then invalid) is run on the
real option objects and compared with an abstract record (value stored, invalid value rejected and old value kept, no other option changed).  Every valid value of every
option is then compiled into a real solver and the values that arrive at the option interface of the acados C library (recorded by an interposed setter) and the solver plan
are compared with it, in the configurations that use the option.  Derived options and conflicting settings are enumerated as tables."""
import sys, os, io, contextlib, itertools, warnings, ctypes, subprocess, tempfile, copy, inspect, numpy as np
import mclib, solverlib, ocpspec, optlib
import C01

PID = 'C22'
ASSUME = ['QP solvers other than HPIPM and OSQP are not installed here: their option values are stored and validated but not forwarded to a solver',
          'the documented domain of an option is the one of its docstring and error message']
LIB = {}

QP = {'qp_solver': dict(optlib.OPT['qp_solver'][0], valid=[v for v in optlib.OPT['qp_solver'][0]['valid'] if 'HPMPC' not in v]), **{f'tol_{k}': dict(valid=[0.37, 2.5e-7], invalid=[0.0, -1e-3, 'x']) for k in ('stat', 'eq', 'ineq', 'comp')}, 'iter_max': optlib.I0, 'cond_N': dict(valid=[1, 4], invalid=[-1, 1.5, 'x']), 'warm_start': optlib.I(0, 1, 2, 3),
      'cond_block_size': dict(valid=[[1, 2], [3, 0]], invalid=['x', [1.5, 2], [-1, 2], 3]), 'cond_ric_alg': optlib.B01, 'ric_alg': optlib.B01, 'mu0': dict(valid=[0.37, 10.0], invalid=[-1.0, 'x', None]), 't0_init': optlib.I(0, 1, 2), 'hpipm_mode': optlib.OPT['hpipm_mode'][0], 'print_level': dict(valid=[0, 1], invalid=[1.5, 'x', None])}
SIM = {'integrator_type': dict(valid=['ERK', 'IRK', 'GNSF'], invalid=['RK4', '', 3, 'DISCRETE', 'LIFTED_IRK']), 'num_stages': dict(valid=[1, 4, 9], invalid=[1.5, 'x', None]), 'num_steps': dict(valid=[1, 7], invalid=[1.5, 'x', None]), 'newton_iter': dict(valid=[1, 7], invalid=[1.5, 'x', None]), 'newton_tol': dict(valid=[0.37, 1e-9], invalid=['x', None]),
       **{k: optlib.B for k in ('sens_forw', 'sens_adj', 'sens_algebraic', 'sens_hess', 'output_z')}, 'sens_forw_p': dict(valid=[True, False], invalid=['x', 2, None]), 'sim_method_jac_reuse': optlib.B01, 'T': dict(valid=[0.37, 2], invalid=['x', [1.0]]), 'collocation_type': dict(valid=['GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA'], invalid=['EXPLICIT_RUNGE_KUTTA', '', 3]), 'with_batch_functionality': optlib.B, 'ext_fun_expand_dyn': optlib.B}
GEN = {**{f'ext_fun_expand_{k}': optlib.B for k in ('constr', 'cost', 'dyn', 'precompute')}, **{k: optlib.B for k in ('with_solution_sens_wrt_params_forw', 'with_solution_sens_wrt_params_adj', 'with_value_sens_wrt_params', 'generate_hess', 'sens_forw_p')},
       'ext_fun_compile_flags': optlib.S, 'model_external_shared_lib_dir': optlib.S, 'json_file': dict(valid=['a.json', 'b.json'], invalid=['', 3]), 'code_export_directory': dict(valid=['c1', 'c2'], invalid=[3, 1.5]), 'casadi_code_gen_options': dict(valid=[dict(mex=False), dict(with_header=True)], invalid=['x', 3, None]), 'acados_lib_path': dict(valid=['/a', '/b'], invalid=[3]), 'acados_include_path': dict(valid=['/a', '/b'], invalid=[3])}
OCP = {k: v[0] for k, v in optlib.OPT.items()}
OCP['qp_solver'] = dict(OCP['qp_solver'], valid=[v for v in OCP['qp_solver']['valid'] if 'HPMPC' not in v])
OCP.update({'N_horizon': dict(valid=[0, 3, 8], invalid=[-1, 1.5, 'x', None]), 'custom_templates': dict(valid=[[], [('a.in.c', 'b.c')]], invalid=['x', [1], [('a', 1)]]), 'qp_solver_cond_block_size': QP['cond_block_size'], 'custom_update_filename': optlib.S, 'custom_update_header_filename': optlib.S,
            'time_steps': dict(valid=[np.array([0.1, 0.2]), np.array([1.0])], invalid=['x', [0.1], 0.1]), 'shooting_nodes': dict(valid=[np.array([0.0, 0.2])], invalid=['x', [0.1], 0.1]), 'cost_scaling': dict(valid=[np.array([0.0, 0.2])], invalid=['x', 0.1])})
TABLES = dict(OCP=OCP, QP=QP, SIM=SIM, GEN=GEN)

# conflicting settings: (features, options) must be rejected; the same without the last option is accepted
LL = dict(cost='LLS', coste='LLS', bu=1)
CONFLICT = [
 (dict(bu=1), dict(hessian_approx='EXACT', fixed_hess=1)), (dict(bu=1, cost='NLS'), dict(fixed_hess=1)), (LL, dict(fixed_hess=1, hessian_approx='EXACT')), (dict(bu=1), dict(qp_solver_cond_N=9)), (dict(bu=1), dict(qp_solver_cond_N=1, qp_solver_cond_block_size=[1, 1])), (dict(bu=1), dict(qp_solver_cond_block_size=[1, 1, 1])),
 (dict(bu=1), dict(qp_solver_cond_N=1, qp_solver_cond_block_size=[4, 1])), (dict(bu=1), dict(nlp_solver_type='DDP')), (dict(bu=0), dict(nlp_solver_type='DDP', qp_solver='FULL_CONDENSING_HPIPM')), (dict(bu=0), dict(nlp_solver_type='DDP', qp_solver_cond_N=1)), (dict(bu=0, nl='h'), dict(nlp_solver_type='DDP')), (dict(bu=0, lin='g'), dict(nlp_solver_type='DDP')), (dict(bu=0, nl='he'), dict(nlp_solver_type='DDP')), (dict(bu=0, lin='ge'), dict(nlp_solver_type='DDP')),
 (dict(bu=1), dict(nlp_solver_type='SQP_RTI', qpscaling_scale_constraints='INF_NORM')), (dict(bu=1), dict(nlp_solver_type='SQP_RTI', qpscaling_scale_objective='OBJECTIVE_GERSHGORIN')), (dict(bu=1), dict(nlp_qp_tol_strategy='ADAPTIVE_QPSCALING')), (dict(bu=1), dict(nlp_solver_type='SQP_RTI', nlp_qp_tol_strategy='ADAPTIVE_CURRENT_RES_JOINT')),
 (dict(bu=1), dict(nlp_solver_type='SQP_RTI', as_rti_level=1)), (dict(bu=1), dict(nlp_solver_type='SQP_RTI', as_rti_level=2)), (dict(bu=1), dict(nlp_solver_type='SQP_RTI', globalization='FUNNEL_L1PEN_LINESEARCH')), (dict(bu=0), dict(nlp_solver_type='DDP', globalization='FUNNEL_L1PEN_LINESEARCH')),
 (dict(bu=1), dict(qp_solver_cond_N=1, nlp_solver_warm_start_first_qp_from_nlp=True)), (dict(bu=1), dict(qp_solver='FULL_CONDENSING_HPIPM', nlp_solver_warm_start_first_qp_from_nlp=True)), (dict(bu=0), dict(nlp_solver_type='DDP', with_anderson_acceleration=True)), (dict(bu=1), dict(globalization='MERIT_BACKTRACKING', with_anderson_acceleration=True)),
 (dict(bu=1), dict(qp_solver='PARTIAL_CONDENSING_OSQP', tau_min=0.1)), (dict(bu=1, cost='LLS', coste='LLS'), dict(integrator_type='IRK', cost_discretization='INTEGRATOR')), (dict(bu=1, cost='EXT', coste='EXT'), dict(integrator_type='IRK', cost_discretization='INTEGRATOR')), (dict(bu=1, cost='CONL', coste='CONL'), dict(hessian_approx='EXACT')),
 (dict(bu=1, nl='h', slack='most', cost='NLS'), dict(integrator_type='IRK', cost_discretization='INTEGRATOR', nlp_solver_type='SQP_WITH_FEASIBLE_QP')), (dict(bu=1), dict(sim_method_num_stages=np.array([1, 2]))), (dict(bu=1), dict(sim_method_num_steps=np.array([1, 2, 1, 2]))), (dict(bu=1), dict(sim_method_jac_reuse=np.array([1, 0]))), (dict(bu=1), dict(cost_scaling=np.array([1.0, 1.0, 1.0]))),
 (dict(bu=1), dict(with_solution_sens_wrt_params=True)), (dict(bu=1, par='pg', integ='DISCRETE', cost='NLS'), dict(with_solution_sens_wrt_params=True)), (dict(bu=1, par='pg', cost='EXT', coste='EXT'), dict(with_solution_sens_wrt_params=True)), (dict(bu=1, par='pg', cost='EXT', coste='EXT'), dict(with_value_sens_wrt_params=True)), (dict(bu=1), dict(with_value_sens_wrt_params=True)), (dict(bu=1, integ='DISCRETE', par='pg', cost='EXT', coste='EXT'), dict(qp_solver='PARTIAL_CONDENSING_OSQP', with_solution_sens_wrt_params=True)),
 (dict(bu=1), dict(integrator_type='ERK', cost_discretization='INTEGRATOR')), (dict(bu=1, integ='GNSF'), dict(cost_discretization='INTEGRATOR')),
]


def cases(tier):
    for t in TABLES: yield dict(kind='set', table=t)
    names = [n for n, (d, c, typ, conf) in optlib.OPT.items() if c]
    for n in names:
        for v in optlib.OPT[n][0]['valid']: yield dict(kind='fwd', opt=n, value=v)
    for n in ('nlp_solver_type', 'globalization', 'regularize_method', 'integrator_type', 'qp_solver', 'types', 'stages', 'composite', 'deprecated', 'simfwd'): yield dict(kind='plan', what=n)
    for i in range(len(CONFLICT)): yield dict(kind='conflict', i=i)
    if tier == 'thorough':
        for a, b in itertools.combinations(names, 2):
            for j in (0, -1): yield dict(kind='fwd', opt=a, value=optlib.OPT[a][0]['valid'][j], opt2=b, value2=optlib.OPT[b][0]['valid'][0])


def setup(tier):
    LIB['pre'] = solverlib.setup(); LIB['dir'] = tempfile.mkdtemp(prefix='c22-')
    import atexit, shutil; pid = os.getpid(); atexit.register(lambda: os.getpid() == pid and shutil.rmtree(LIB['dir'], ignore_errors=True))
    LIB['rec'] = optlib.Recorder(LIB['pre'], LIB['dir'])
    src = '#include "acados_c/ocp_nlp_interface.h"\n#include <string.h>\n'
    en = dict(nlp_solver=['SQP', 'SQP_WITH_FEASIBLE_QP', 'SQP_RTI', 'DDP'], regularization=['NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT'], globalization=['FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH'])
    st = dict(nlp_cost=['LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL'], nlp_dynamics=['CONTINUOUS_MODEL', 'DISCRETE_MODEL'], nlp_constraints=['BGH', 'BGP'])
    src += 'const char *plan_get(ocp_nlp_plan_t *p, const char *f, int k) {\n'
    for f, vs in en.items(): src += f' if (!strcmp(f, "{f}")) {{ ' + ''.join(f'if (p->{f} == {v}) return "{v}"; ' for v in vs) + '}\n'
    for f, vs in st.items(): src += f' if (!strcmp(f, "{f}")) {{ ' + ''.join(f'if (p->{f}[k] == {v}) return "{v}"; ' for v in vs) + '}\n'
    src += ' if (!strcmp(f, "integrator")) { ' + ''.join(f'if (p->sim_solver_plan[k].sim_solver == {v}) return "{v}"; ' for v in ('ERK', 'IRK', 'GNSF', 'LIFTED_IRK')) + '}\n'
    src += ' if (!strcmp(f, "qp_solver")) { ' + ''.join(f'if (p->ocp_qp_solver_plan.qp_solver == {v}) return "{v}"; ' for v in ('PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_OSQP')) + '}\n return "?"; }\n'
    src += ' int enum_get(const char *n) {' + ''.join(f' if (!strcmp(n, "{v}")) return (int) {v};' for v in ('FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING', 'MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO', 'NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP', 'GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA', 'EXPLICIT_RUNGE_KUTTA', 'NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN', 'NO_CONSTRAINT_SCALING', 'INF_NORM')) + ' return -99; }\n'
    c = os.path.join(LIB['dir'], 'plan.c'); open(c, 'w').write(src); p = LIB['pre']; inc = ['-I' + p + s for s in ('/include', '/include/blasfeo/include', '/include/hpipm/include')]
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-w', '-DACADOS_WITH_OSQP', *inc, c, '-o', c[:-2] + '.so', '-L' + p + '/lib', '-lacados', '-Wl,-rpath,' + p + '/lib'])
    l = ctypes.CDLL(c[:-2] + '.so'); l.plan_get.restype = ctypes.c_char_p; l.plan_get.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]; l.enum_get.argtypes = [ctypes.c_char_p]; LIB['plan'] = l


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b); return a.size == b.size and a.dtype.kind == b.dtype.kind and np.array_equal(np.atleast_1d(a).ravel(), np.atleast_1d(b).ravel()) if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS' else a.size == b.size and np.array_equal(a.ravel(), b.ravel())
    return type(a) is type(b) and a == b or (isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and a == b) or a is b or a == b


def make(t):
    from acados_template import AcadosOcp, AcadosSim, AcadosOcpQpOptions, AcadosOcpOptions
    if t == 'OCP': return AcadosOcpOptions()
    if t == 'QP': return AcadosOcpQpOptions()
    if t == 'SIM': return AcadosSim().solver_options
    return AcadosOcp().code_gen_options


GROUP = {'tol', 'qp_tol', 'with_solution_sens_wrt_params'}


def snapshot(o):
    r = {}
    for n, p in inspect.getmembers(type(o), lambda v: isinstance(v, property)):
        if n in GROUP: continue
        try: r[n] = copy.deepcopy(getattr(o, n))
        except TypeError: r[n] = None
    return r


def assign(ctx, o, t, n, v, valid):
    before = snapshot(o); ctx.trans()
    try: setattr(o, n, v); err = None
    except (ValueError, TypeError) as e: err = e
    except Exception as e: err = e
    after = snapshot(o)
    if valid:
        if not ctx.require(err is None, f'{t}.{n}-rejected', lambda: f'{n} = {v!r} is documented but rejected: {err!r}'): return
        ctx.require(eq(after[n], os.path.abspath(v) if n == 'code_export_directory' else v), f'{t}.{n}-readback', lambda: f'{n} = {v!r} reads back as {after[n]!r}')
    else:
        ctx.require(err is not None, f'{t}.{n}-accepted', lambda: f'{n} = {v!r} is outside the documented domain but accepted (reads {after[n]!r})')
        if err is not None: ctx.require(eq(after[n], before[n]), f'{t}.{n}-changed', lambda: f'rejected {n} = {v!r} changed the stored value {before[n]!r} to {after[n]!r}')
    for k in before:
        if k != n: ctx.require(eq(before[k], after[k]), f'{t}.{n}-side-effect', lambda: f'setting {n} = {v!r} changed {k} from {before[k]!r} to {after[k]!r}')


def k_set(case, ctx):
    t = case['table']
    late = {'sim_method_num_stages', 'sim_method_num_steps', 'sim_method_jac_reuse'}      # validated when the problem is made consistent
    for n, d in TABLES[t].items():
        for v1 in d['valid']:
            for v2, ok in [(v, True) for v in d['valid']] + [(v, False) for v in d['invalid'] if n not in late]:
                o = make(t); assign(ctx, o, t, n, v1, True); assign(ctx, o, t, n, v2, ok); ctx.state(t, n, repr(v1), repr(v2)); ctx.trace()
        for v in d['invalid']:
            if n not in late: o = make(t); assign(ctx, o, t, n, v, False); ctx.trace()
    if t == 'OCP':
        names = list(TABLES[t])
        for a, b in zip(names, names[1:]):                                                # values survive later assignments of other options
            o = make(t); assign(ctx, o, t, a, TABLES[t][a]['valid'][-1], True); assign(ctx, o, t, b, TABLES[t][b]['valid'][0], True); ctx.trace()


def build(feat, opts, ctx, **gen):
    P = ocpspec.Problem(C01.expand(dict(feat))); nm = solverlib.name(); o = P.ocp(nm, **opts)
    for k, v in gen.items(): setattr(o.code_gen_options, k, v)
    with LIB['rec'] as rec: sol = solverlib.solver(o, nm)
    plan = getattr(sol.shared_lib, f'{sol.ocp.name}_acados_get_nlp_plan'); plan.restype = ctypes.c_void_p; plan.argtypes = [ctypes.c_void_p]
    return P, o, sol, rec, (lambda f, k=0: LIB['plan'].plan_get(plan(sol.capsule), f.encode(), k).decode())


def base(n, conf):
    f = dict(bu=1, bx=1)
    if conf == 'EXT': f.update(cost='EXT', coste='EXT'); conf = {}
    if n == 'fixed_hess': f.update(cost='LLS', coste='LLS')
    if (conf or {}).get('integrator_type'): f['integ'] = conf['integrator_type']; conf = {}
    if (conf or {}).get('nlp_solver_type') == 'SQP_WITH_FEASIBLE_QP': f = dict(bu=1, bx=1, nl='h')
    return f, dict(conf or {})


def expect(n, v, o):
    if n == 'hessian_approx': return 'i', int(v == 'EXACT')
    typ = optlib.OPT[n][2]
    if typ == 'enum' or isinstance(typ, dict): return 'i', LIB['plan'].enum_get(v.encode())
    return typ, v


def k_fwd(case, ctx):
    todo = [(case['opt'], case['value'])] + ([(case['opt2'], case['value2'])] if 'opt2' in case else [])
    feat, opts = {}, {}
    for n, v in todo:
        f, c = base(n, optlib.OPT[n][3]); 
        for k, w in c.items():
            if k in opts and opts[k] != w: return ctx.outcome('incompatible configurations')
        if feat and f != feat and feat != dict(bu=1, bx=1) and f != dict(bu=1, bx=1): return ctx.outcome('incompatible configurations')
        feat = f if f != dict(bu=1, bx=1) or not feat else feat; opts.update(c)
    for n, v in todo: opts[n] = v
    if opts.get('nlp_qp_tol_strategy') == 'ADAPTIVE_QPSCALING': opts.setdefault('qpscaling_scale_constraints', 'INF_NORM')
    if opts.get('rti_log_residuals') == 1: opts.setdefault('rti_log_only_available_residuals', 1)
    if opts.get('as_rti_level') in (0, 1, 2): feat = dict(bu=1, bx=1, cost='EXT', coste='EXT')
    try: P, o, sol, rec, plan = build(feat, opts, ctx)
    except Exception as e:
        if 'opt2' in case: return ctx.outcome('combination rejected')
        raise
    for n, v in todo:
        v = opts[n]; cn = optlib.OPT[n][1]; typ, want = expect(n, v, o)
        if n == 'hessian_approx' and want == 0: got = rec.last(cn, 'i') or 0
        elif n.startswith('nlp_solver_warm_start_first') and not v: got = rec.last(cn, typ) or 0
        elif n == 'qp_solver_warm_start' and v == 0: got = rec.last(cn, typ) or 0
        elif n == 'sim_method_jac_reuse' and not v: got = rec.last(cn, typ) or 0
        else: got = rec.last(cn, typ, 0 if cn.startswith(('dynamics_', 'cost_')) else None)
        ctx.trans(); ctx.state(n, repr(v)); ctx.trace()
        ok = got is not None and (abs(got - want) <= 1e-14 * abs(want) if typ == 'd' else got == want)
        ctx.require(ok, f'forward-{n}', lambda: f'{n} = {v!r} (with {opts}): the solver received {cn} = {got!r}, expected {want!r}')
        if cn.startswith('dynamics_'):
            for k in range(o.solver_options.N_horizon):
                g = rec.last(cn, typ, k); ctx.require((g or 0) == want, f'forward-{n}-stage', lambda: f'{n} = {v!r}: stage {k} received {g!r}')
        ctx.require(eq(getattr(o.solver_options, n), v) or n in ('sim_method_num_stages', 'sim_method_num_steps', 'sim_method_jac_reuse'), f'kept-{n}', lambda: f'{n} = {v!r} reads {getattr(o.solver_options, n)!r} after solver creation')


def k_plan(case, ctx):
    w = case['what']
    if w == 'nlp_solver_type':
        for v, g, f in (('SQP', 'FIXED_STEP', {}), ('SQP_RTI', 'FIXED_STEP', {}), ('DDP', 'MERIT_BACKTRACKING', dict(bu=0)), ('SQP_WITH_FEASIBLE_QP', 'FUNNEL_L1PEN_LINESEARCH', dict(bu=1, nl='h'))):
            P, o, s, rec, plan = build(f or dict(bu=1), dict(nlp_solver_type=v, globalization=g), ctx)
            ctx.require(plan('nlp_solver') == v and plan('globalization') == g, 'plan-nlp_solver', lambda: f'{v}/{g}: plan has {plan("nlp_solver")}/{plan("globalization")}'); ctx.state(v); ctx.trace()
    elif w == 'globalization':
        for v in ('FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH'):
            P, o, s, rec, plan = build(dict(bu=1), dict(globalization=v), ctx); ctx.require(plan('globalization') == v, 'plan-globalization', lambda: f'{v}: plan has {plan("globalization")}'); ctx.state(v); ctx.trace()
            if v != 'FIXED_STEP': ctx.require(rec.last('globalization_alpha_min', 'd') == o.solver_options.globalization_alpha_min == (1e-17 if 'FUNNEL' in v else 0.05), 'alpha-min', lambda: f'{v}: default minimal step size {rec.last("globalization_alpha_min", "d")}'); ctx.require(rec.last('globalization_full_step_dual', 'i') == o.solver_options.globalization_full_step_dual, 'full-step-dual', 'default not forwarded')
    elif w == 'regularize_method':
        for v in optlib.OPT[w][0]['valid']:
            f = dict(bu=1); P, o, s, rec, plan = build(f, dict(regularize_method=v, hessian_approx='EXACT'), ctx); ctx.require(plan('regularization') == v, 'plan-regularization', lambda: f'{v}: plan has {plan("regularization")}'); ctx.state(v); ctx.trace()
    elif w == 'integrator_type':
        for v in ('ERK', 'IRK', 'GNSF', 'LIFTED_IRK', 'DISCRETE'):
            P, o, s, rec, plan = build(dict(bu=1, integ=None if v == 'ERK' else v), {}, ctx)
            for k in range(o.solver_options.N_horizon):
                got = plan('nlp_dynamics', k) if v == 'DISCRETE' else plan('integrator', k); ctx.require(got == (v if v != 'DISCRETE' else 'DISCRETE_MODEL'), 'plan-integrator', lambda: f'{v}: stage {k} uses {got}')
            ctx.state(v); ctx.trace()
    elif w == 'qp_solver':
        for v in ('PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_OSQP'):
            P, o, s, rec, plan = build(dict(bu=1, bx=1), dict(qp_solver=v), ctx); ctx.require(plan('qp_solver') == v, 'plan-qp', lambda: f'{v}: plan has {plan("qp_solver")}'); ctx.state(v); ctx.trace()
    elif w == 'types':
        T = dict(LLS='LINEAR_LS', NLS='NONLINEAR_LS', CONL='CONVEX_OVER_NONLINEAR', EXT='EXTERNAL')
        for a, b, con in itertools.product(T, T, ('hall', 'phiall')):
            if not C01.valid(dict(bu=1, cost=a, coste=b, nl=con)): continue
            P, o, s, rec, plan = build(dict(bu=1, cost=a, coste=b, nl=con), {}, ctx); N = o.solver_options.N_horizon
            for k in range(N + 1):
                c = o.cost.cost_type_e if k == N else o.cost.cost_type_0 if k == 0 else o.cost.cost_type
                ctx.require(plan('nlp_cost', k) == c == T[b if k == N else a] or k == 0 and plan('nlp_cost', k) == c, 'plan-cost', lambda: f'{a}/{b}: stage {k} uses {plan("nlp_cost", k)}, formulation says {c}')
                c = o.constraints.constr_type_e if k == N else o.constraints.constr_type_0 if k == 0 else o.constraints.constr_type
                ctx.require(plan('nlp_constraints', k) == c, 'plan-constraints', lambda: f'{con}: stage {k} uses {plan("nlp_constraints", k)}, formulation says {c}')
            ctx.state(a, b, con); ctx.trace()
    elif w == 'stages':
        for n, vals in (('sim_method_num_stages', [1, 3, 2, 4]), ('sim_method_num_steps', [2, 1, 3, 5]), ('sim_method_jac_reuse', [1, 0, 0, 1])):
            for N in (1, 2, 3):
                for perm in set(itertools.permutations(vals, N)):
                    o = ocpspec.Problem(C01.expand(dict(bu=1, integ='IRK', N=N))).ocp(solverlib.name()); setattr(o.solver_options, n, np.array(perm)); o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'; o.make_consistent()
                    ctx.require(eq(getattr(o.solver_options, n), np.array(perm)), f'{n}-array', lambda: f'{perm} became {getattr(o.solver_options, n)}'); ctx.trans()
            P, o, s, rec, plan = build(dict(bu=1, integ='IRK', N=3), {n: np.array(vals[:3])}, ctx)
            for k in range(3): ctx.require(int(rec.last('dynamics_' + n[11:], 'b' if 'reuse' in n else 'i', k)) == vals[k], f'{n}-stagewise', lambda: f'{n} = {vals[:3]}: stage {k} received {rec.last("dynamics_" + n[11:], "i", k)}')
            ctx.state(n); ctx.trace()
        for N2, bs in ((1, [1, 2]), (2, [1, 1, 1]), (1, [3, 0]), (2, [0, 2, 1]), (3, [1, 1, 1, 0])):
            P, o, s, rec, plan = build(dict(bu=1, N=3), dict(qp_solver_cond_N=N2, qp_solver_cond_block_size=bs), ctx); ctx.require(rec.last('qp_cond_N', 'i') == N2, 'cond-N', 'qp_solver_cond_N not forwarded')
            import struct; raw = rec.last('qp_cond_block_size', 'raw'); ctx.require(raw is not None and list(struct.unpack('2i', raw)) == bs[:2], 'block-size', lambda: f'{bs}: the solver received {raw}'); ctx.state(N2, str(bs)); ctx.trace()
        P, o, s, rec, plan = build(dict(bu=1, N=3), {}, ctx); ctx.require(rec.last('qp_cond_N', 'i') == 3 == o.solver_options.qp_solver_cond_N, 'cond-N-default', 'default of qp_solver_cond_N is not N')
    elif w == 'composite':
        for a, b in itertools.permutations((0.5, 2.5e-7, 1e-3), 2):
            for t, pre in (('tol', 'nlp_solver_tol_'), ('qp_tol', 'qp_solver_tol_')):
                o = make('OCP'); setattr(o, t, a)
                for k in ('stat', 'eq', 'ineq', 'comp'): ctx.require(getattr(o, pre + k) == a, t, lambda: f'{t} = {a}: {pre}{k} = {getattr(o, pre + k)}')
                other = 'qp_solver_tol_' if t == 'tol' else 'nlp_solver_tol_'
                for k in ('stat', 'eq', 'ineq', 'comp'): ctx.require(getattr(o, other + k) == getattr(make('OCP'), other + k), t + '-other', f'{t} changed {other}{k}')
                for k in ('stat', 'eq', 'ineq', 'comp'):
                    setattr(o, t, a); setattr(o, pre + k, b); ctx.require(getattr(o, t) == max(a, b), f'{t}-get', lambda: f'{pre}{k} = {b}, others {a}: {t} = {getattr(o, t)}')
                for bad in (0.0, -1.0, 'x', 1): ctx.rejects(lambda: setattr(o, t, bad), f'{t}-invalid', f'{t} = {bad!r}')
                ctx.trans(8); ctx.state(t, a, b); ctx.trace()
    elif w == 'deprecated':
        from acados_template import AcadosOcp
        F = dict(ext_fun_expand_constr=True, ext_fun_expand_cost=True, ext_fun_expand_dyn=True, ext_fun_expand_precompute=True, ext_fun_compile_flags='-O0 -DX')
        for n, v in F.items():
            for where in ('solver_options', 'code_gen_options'):
                o = ocpspec.Problem(C01.expand(dict(bu=1))).ocp(solverlib.name()); setattr(getattr(o, where), n, v); o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'; o.make_consistent()
                ctx.require(getattr(o.code_gen_options, n) == v, f'codegen-{n}', lambda: f'{n} = {v!r} set in {where} but code_gen_options has {getattr(o.code_gen_options, n)!r}'); ctx.state(n, where); ctx.trace()
        v0 = [(n, getattr(AcadosOcp().code_gen_options, n)) for n in F]
        o = ocpspec.Problem(C01.expand(dict(bu=1))).ocp(solverlib.name()); o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'; o.make_consistent()
        for n, v in v0: ctx.require(getattr(o.code_gen_options, n) == v, f'codegen-default-{n}', f'{n} changed without being set')
    elif w == 'simfwd': simfwd(ctx)


def simfwd(ctx):
    """options of the simulation problem that can be observed through its results"""
    from acados_template import AcadosSimSolver, AcadosSim, AcadosModel
    import casadi as ca
    x, xd, u = ca.SX.sym('x', 2), ca.SX.sym('xd', 2), ca.SX.sym('u', 1); rhs = ca.vertcat(x[1] + 0.2 * ca.sin(x[0]), u - 1.3 * x[0] - 0.4 * x[1] ** 2); F = ca.Function('f', [x, u], [rhs])
    x0, u0 = np.array([0.4, -0.3]), np.array([0.7])
    for integ, stages, steps, T, col in itertools.product(('ERK', 'IRK'), (1, 2, 4), (1, 3), (0.2, 0.7), ('GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA')):
        if integ == 'ERK' and col != 'GAUSS_LEGENDRE': continue
        nm = solverlib.name(); m = AcadosModel(); m.name = nm; m.x, m.xdot, m.u, m.f_expl_expr, m.f_impl_expr = x, xd, u, rhs, xd - rhs
        s = AcadosSim(); s.model = m; so = s.solver_options; so.integrator_type = integ; so.num_stages = stages; so.num_steps = steps; so.T = T; so.collocation_type = col; so.newton_iter = 20; so.newton_tol = 1e-13
        s.code_gen_options.code_export_directory = os.path.join(os.getcwd(), nm + 'c'); s.code_gen_options.json_file = nm + 's.json'
        sim = AcadosSimSolver(s, verbose=False); got = sim.simulate(x=x0, u=u0); ref = rk(lambda z: np.array(F(z, u0)).ravel(), integ, stages, steps, T, col, x0)
        ctx.close(got, ref, 'sim-options', f'{integ} stages={stages} steps={steps} T={T} {col}', 1e-9, 1e-9); ctx.state(integ, stages, steps, T, col); ctx.trace()


def rk(f, integ, stages, steps, T, col, x):
    """Runge-Kutta reference; the stage equations are solved by fsolve"""
    from scipy.optimize import fsolve
    A, b, c = ocpspec.butcher(integ, stages, 'GL' if col == 'GAUSS_LEGENDRE' else 'RADAU')[:3]; A, b = np.array(A), np.array(b); x = np.array(x); h = T / steps
    for _ in range(steps):
        if integ == 'ERK':
            K = []
            for i in range(stages): K.append(f(x + h * sum((A[i, j] * K[j] for j in range(i)), np.zeros(x.size))))
            K = np.array(K)
        else: K = fsolve(lambda k: (k.reshape(stages, -1) - np.array([f(x + h * A[i] @ k.reshape(stages, -1)) for i in range(stages)])).ravel(), np.tile(f(x), stages), xtol=1e-14).reshape(stages, -1)
        x = x + h * b @ K
    return x


def k_conflict(case, ctx):
    feat, opts = CONFLICT[case['i']]

    def mk(op):
        o = ocpspec.Problem(C01.expand(dict(feat))).ocp(solverlib.name(), **op); o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'; o.make_consistent(); return o
    ctx.rejects(lambda: mk(opts), f'conflict-{"-".join(opts)}', f'{feat} with {opts} is accepted'); ctx.state(case['i']); ctx.trace(); ctx.trans()
    red = dict(list(opts.items())[:-1])
    if red.get('nlp_solver_type') == 'DDP' and feat != dict(bu=0): return
    try: mk(red)
    except Exception as e:
        if len(opts) > 1: ctx.viol(f'near-{"-".join(opts)}', f'{feat} with {red} is rejected: {e!r}')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=4))
