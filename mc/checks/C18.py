"""C18: formulations are dumped and loaded with the real classes for every single-field change (all properties of all sections, every array entry, every expression) of a family of
formulations; the loaded object is compared leaf by leaf (numerical data, options, dimensions, names) and its symbolic functions by exact evaluation, before and after make_consistent, with the
original; the second dump has to equal the first one.  QPs and iterates are enumerated over all stage counts that change the zero padding and all combinations of absent fields.  Solvers
generated from loaded objects are compared with those of the originals in separate processes."""
import sys, os, io, contextlib, warnings, json, copy, itertools, numpy as np, casadi as ca
import mclib, solverlib, ocpspec, mutlib
import C01, C15, C19

PID = 'C18'
ASSUME = ['paths, the hash and the name of the json file are not part of the formulation', 'formulations are made consistent before they are dumped or right after they were loaded, as documented', 'loading files written by MATLAB is not covered']
IGN = ('json_loaded', 'n_global_data', 'json_file', 'code_export_directory', 'acados_lib_path', 'acados_link_libs', 'acados_version')


def cases(tier):
    q = tier == 'quick'
    for c in mutlib.features(tier): yield dict(kind='rt', c=c, full=not q or len(c) != 2)
    for pair in (('base', 'p2'), ('alls', 'lls'), ('irkz', 'disc')) if q else itertools.product(C15.V, repeat=2): yield dict(kind='mocp', ph=list(pair), full=not q)
    for c in RUN + ([] if q else [dict(c) for c in mclib.lattice(dict(C01.BASE), C01.ALTS, 1, C01.valid)]): yield dict(kind='run', c=dict(C01.BASE, **c))
    yield dict(kind='runmocp')
    for N in (1, 2, 8, 9, 10, 98, 99, 100): yield dict(kind='iterate', N=N)
    for i in range(len(QPS)): yield dict(kind='qp', i=i)
    for N in (1, 8, 9, 10): yield dict(kind='store', N=N)
    for i in range(len(ZORO)): yield dict(kind='zoro', i=i)
    for i in range(len(SIMUL)): yield dict(kind='simulink', i=i)
    yield dict(kind='ros'); yield dict(kind='model'); yield dict(kind='gnsf')


RUN = [dict(), dict(par='both'), dict(grid='nodes'), dict(grid='steps'), dict(scaling='custom'), dict(integ='IRKZ2', sym='MX'), dict(cost='CONL', coste='CONL'), dict(nl='phiall', slack='most'), dict(nl='hall', slack='all'), dict(cost='EXT', coste='EXT')]


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


def leaves(d, pre=()):
    if isinstance(d, dict):
        for k, v in d.items(): yield from leaves(v, pre + (k,))
    elif isinstance(d, list) and any(isinstance(v, (dict, list)) for v in d):
        for i, v in enumerate(d): yield from leaves(v, pre + (i,))
    else: yield pre, d


FILEIGN = {'hash', 'json_file', 'json_loaded', 'code_export_directory', 'acados_lib_path', 'serialized_expressions', 'n_global_data'}


def filediff(a, b):
    A, B = ({k: v for k, v in leaves(json.load(open(f)))if not FILEIGN & set(k)} for f in (a, b))
    return [(k, A.get(k, '-'), B.get(k, '-')) for k in sorted(set(A) | set(B), key=str) if (k not in A or k not in B or not mutlib.same(A[k], B[k]))]


def norm(d):
    return d


def roundtrip(o, cls, wd, ctx, tag, key, s0, e0):
    """o is consistent"""
    js = o.code_gen_options.json_file; o.dump_to_json(); l = cls.from_json(js); ctx.trans(2); ctx.trace()
    ign = IGN + (('integrator_type', 'collocation_type', 'cost_discretization') if tag == 'mocp' else ())      # MOCP: options of the phases in mocp_opts
    d = mutlib.diff(s0, mutlib.snap(l), ign)
    what = lambda d: [(k, s0.get(k), mutlib.snap(l).get(k)) for k in d[:3]]
    for k in d: ctx.viol(f'{tag}-load-{k[0]}-{k[1]}', f'{key}: {what([k])}')
    ctx.require(C19.esame(e0, C19.evals(l)), f'{tag}-load-expr', lambda: f'{key}: symbolic functions differ after loading: {ediff(e0, C19.evals(l))}')
    try: mutlib.consistent(l, wd)
    except Exception as ex: ctx.viol(f'{tag}-inconsistent', f'{key}: the loaded formulation is rejected: {ex!r}'); return
    if not d:
        for k in mutlib.diff(s0, mutlib.snap(l), ign): ctx.viol(f'{tag}-consistent-{k[0]}-{k[1]}', f'{key}: after make_consistent {what([k])}')
    l.code_gen_options.json_file = js + '2'; l.dump_to_json(); l.code_gen_options.json_file = js
    if not d:
        for k, a, b in filediff(js, js + '2')[:4]: ctx.viol(f'{tag}-redump-{k[0] if len(k) < 2 else str(k[0]) + "-" + str(k[-1])}', f'{key}: {k}: {a} was written, {b} after loading')


def ediff(a, b): return [(k, x.get(k), y.get(k)) for x, y in zip(a, b) for k in set(x) | set(y) if str(x.get(k)) != str(y.get(k))][:3]


def k_rt(case, ctx):
    from acados_template import AcadosOcp
    c = case['c']; nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); mk = lambda: C19.fresh(c, nm, wd); rt(mk, AcadosOcp, wd, ctx, 'ocp', case['full'])


def rt(mk, cls, wd, ctx, tag, full):
    for key, w in [((), None)] + list(mutlib.mutations(mk(), full)):
        o = mk()
        try:
            if key: mutlib.apply(o, key, w)
            raw = copy.deepcopy(o) if not full else None; mutlib.consistent(o, wd)
        except Exception: ctx.outcome('mutation rejected'); continue
        s0, e0 = mutlib.snap(o), C19.evals(o); ctx.state(tag, str(key)); roundtrip(o, cls, wd, ctx, tag, key, s0, e0)
        if key and (not full or key[2] not in (0, 'scaled', 'plus')): continue
        # dumped before it was made consistent
        r = mk(); r.code_gen_options.code_export_directory = wd; r.code_gen_options.json_file = os.path.join(wd, 'raw.json')
        if key: mutlib.apply(r, key, w)
        try: r.dump_to_json()
        except Exception as ex: ctx.viol(f'{tag}-rawdump', f'{key}: {ex!r}'); continue
        l = cls.from_json(r.code_gen_options.json_file)
        try: mutlib.consistent(l, wd)
        except Exception as ex: ctx.viol(f'{tag}-raw-inconsistent', f'{key}: the loaded formulation is rejected: {ex!r}'); continue
        ctx.trans(); sl = mutlib.snap(l)
        for k in mutlib.diff(s0, sl, IGN): ctx.viol(f'{tag}-raw-{k[0]}-{k[1]}', f'{key}: dumped before make_consistent: {k} {s0.get(k)} {sl.get(k)}')
        ctx.require(C19.esame(e0, C19.evals(l)), f'{tag}-raw-expr', lambda: f'{key}: dumped before make_consistent: symbolic functions differ: {ediff(e0, C19.evals(l))}')


def mk_mocp(ph, nm):
    pg = ca.SX.sym('pg', 1); Ps = [ocpspec.Problem(ocpspec.spec(**dict(dict(bu=1, N=3, T=0.6, npg=1), **C15.V[p])), pg=pg) for p in ph]
    m = C15.build_mocp(Ps, [1, 2], ocpspec.Problem(ocpspec.spec(N=3, T=0.6)).ocp('opts')); m.name = nm; return m


def k_mocp(case, ctx):
    from acados_template import AcadosMultiphaseOcp
    nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); os.makedirs(wd, exist_ok=True); rt(lambda: mk_mocp(case['ph'], nm), AcadosMultiphaseOcp, wd, ctx, 'mocp', case['full'])


def go(o, d):
    from acados_template import AcadosOcpSolver
    o.code_gen_options.code_export_directory = d; o.code_gen_options.json_file = os.path.join(d, 'o.json'); s = AcadosOcpSolver(o, verbose=False); N = s.N; out = [s.solve()]; out += [solverlib.traj(s, N), s.get_cost()]
    if getattr(o, 'constraints', None) is not None and not isinstance(o.constraints, list) and o.constraints.has_x0:
        s.reset(reset_x_to_x0_bar=1); out.append(s.get(1, 'x')); out.append(s.solve_for_x0(np.full(o.dims.nx, 0.1), fail_on_nonzero_status=False)); out.append(solverlib.traj(s, N))
    return out


def cmp_runs(mk, cls, ctx, wd):
    def loaded():
        o = mutlib.consistent(mk(), wd + 'l'); o.dump_to_json(); return go(cls.from_json(o.code_gen_options.json_file), wd + 'l2')
    os.makedirs(wd + 'l', exist_ok=True); a = C19.child(lambda: go(mk(), wd)); b = C19.child(loaded); ctx.trace(); ctx.trans(2)
    if not ctx.require(isinstance(a, list) and isinstance(b, list), 'run-failed', lambda: f'{a if not isinstance(a, list) else b}'): return
    A, B = list(leafs(a)), list(leafs(b)); ctx.state(len(A))
    if ctx.require(len(A) == len(B), 'run-size', 'different results'):
        for x, y in zip(A, B): ctx.close(x, y, 'run-values', 'solver of the loaded formulation against that of the original', 1e-9, 1e-10)


def leafs(v):
    if isinstance(v, dict):
        for k in sorted(v): yield from leafs(v[k])
    elif isinstance(v, (list, tuple)):
        for e in v: yield from leafs(e)
    elif v is not None: yield np.asarray(v, float)


def k_run(case, ctx):
    from acados_template import AcadosOcp
    nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); cmp_runs(lambda: C19.fresh(case['c'], nm, wd), AcadosOcp, ctx, wd)


def k_runmocp(case, ctx):
    from acados_template import AcadosMultiphaseOcp
    nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); cmp_runs(lambda: mk_mocp(('base', 'p2'), nm), AcadosMultiphaseOcp, ctx, wd)


def k_iterate(case, ctx):
    from acados_template import AcadosOcpIterate
    N = case['N']; F = dict(x=N + 1, u=N, z=N, sl=N + 1, su=N + 1, pi=N, lam=N + 1); fn = os.path.join(ctx.tmp, 'it.json')
    for sizes in itertools.product((0, 1, 2), (0, 2), (0, 1), (0, 1), (0, 2)) if N <= 10 else ((2, 1, 0, 0, 2), (1, 2, 1, 1, 0)):
        nx, nu, nz, ns, nl = sizes; n = dict(x=nx, u=nu, z=nz, sl=ns, su=ns, pi=nx, lam=nl)
        if not (nx or nu): continue
        for vary in (False, True):      # stage dependent sizes
            v = {f: [np.array([0.1 * i + 1.7 * k + j for k in range(n[f] if not (vary and i % 2) else max(n[f] - 1, 0))]) - 3e-17 for i in range(L)] for j, (f, L) in enumerate(F.items())}
            if not v['x'][N].size: continue
            it = AcadosOcpIterate(**{f: [a.copy() for a in l] for f, l in v.items()}); open(fn, 'w').write(it.to_json()); ctx.trans(2); ctx.trace(); ctx.state(sizes, vary)
            for r in (AcadosOcpIterate.from_json(fn), AcadosOcpIterate.from_json(json_data=json.load(open(fn)))):
                for f in F:
                    got = getattr(r, f); ctx.require(len(got) == F[f] and all(np.array_equal(x, y) for x, y in zip(got, v[f])), f'iterate-{f}', lambda: f'N={N} sizes {sizes} {vary}: {f}: {v[f][:3]} became {got[:3]}, lengths {F[f]} and {len(got)}')
                ctx.require(r.to_json() == it.to_json(), 'iterate-redump', 'second dump differs')


QPS = [dict(bu=1), dict(bu=2, bx=2, bxe=2), dict(bu=2, bx=2, lin='gge', nl='hall', slack='most', bxe=2), dict(bu=1, grid='steps'), dict(bu=1, nl='hall'), dict(bu=1, lin='gge', slack='all'), dict(bu=2, bx=1, lin='gge', nl='hall', slack='all', bxe=1)]


def k_qp(case, ctx):
    from acados_template import AcadosOcpQp
    c = dict(C01.BASE, **QPS[case['i']])
    for N in (1, 2, 8, 9, 10, 99):
        if N > 10 and case['i'] > 1: continue
        e = C01.expand(c); e.update(N=N, T=0.2 * N); e.pop('grid', None)
        for k in ('steps', 'nodes', 'scal'): e.pop(k, None)
        nm = solverlib.name(); o = ocpspec.Problem(ocpspec.spec(**e)).ocp(nm); s = solverlib.solver(o, nm); s.solve(); fn = os.path.join(ctx.tmp, f'{nm}.json'); s.dump_last_qp_to_json(fn, backend='Python') if 'backend' in s.dump_last_qp_to_json.__code__.co_varnames else s.dump_last_qp_to_json(fn)
        ref = {}
        for stage in range(N + 1):
            for f in ('Q', 'R', 'S', 'q', 'r', 'A', 'B', 'b', 'C', 'D', 'lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug', 'zl', 'zu', 'Zl', 'Zu'):
                if stage == N and f in ('A', 'B', 'b', 'R', 'S', 'r', 'D', 'lbu', 'ubu'): continue
                try: ref[f, stage] = s.get_from_qp_in(stage, f)
                except Exception: pass
        q = AcadosOcpQp.from_json(fn); ctx.trace(); ctx.trans(2); ctx.state(N)
        ctx.require(q.N == N, 'qp-N', lambda: f'N={N}: loaded QP has horizon {q.N}')
        for (f, i), v in ref.items():
            w = np.asarray(getattr(q, f)[i], float); v = np.asarray(v, float); ctx.require(w.size == v.size and (v.size == 0 or np.array_equal(w.reshape(v.shape), v)), f'qp-{f}', lambda: f'N={N}: {f} of stage {i}: solver {v}, loaded QP {w}')
        for k, v in s.get_last_qp().items():      # the dictionary the file is written from
            f, i = k.rsplit('_', 1)
            if not hasattr(q, f): continue
            w = np.asarray(getattr(q, f)[int(i)]); ctx.require(w.size == np.size(v) and np.array_equal(w.ravel(), np.ravel(v)), f'qp-obj-{f}', lambda: f'N={N}: {k}: {v} and {w} in the QP loaded from the file'); ctx.trans()


def k_store(case, ctx):
    N = case['N']; e = C01.expand(dict(C01.BASE, bx=1, slack='all', nl='hall', integ='IRKZ2')); e.update(N=N, T=0.1 * N); nm = solverlib.name(); o = ocpspec.Problem(ocpspec.spec(**e)).ocp(nm); s = solverlib.solver(o, nm); s.solve(); ref = solverlib.traj(s, N); fn = os.path.join(ctx.tmp, f'{nm}.json'); s.store_iterate(fn, overwrite=True, verbose=False)
    from acados_template import AcadosOcpIterate
    its = s.store_iterate_to_obj(); it = AcadosOcpIterate.from_json(fn); ctx.trace(); ctx.state(N)
    for f in ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam'):
        a, b = getattr(its, f), getattr(it, f); ctx.require(len(a) == len(b) and all(np.array_equal(np.ravel(x), np.ravel(y)) for x, y in zip(a, b)), f'store-{f}', lambda: f'N={N}: {f}: {a} in the solver, {b} loaded from the stored iterate')
    fn2 = fn + '2'; open(fn2, 'w').write(its.to_json()); ctx.require(json.load(open(fn)) == json.load(open(fn2)), 'store-files', 'store_iterate and to_json write different files')
    for src in (fn, fn2, None):
        s.reset()
        if src: s.load_iterate(src, verbose=False)
        else: s.load_iterate_from_obj(it)
        got = solverlib.traj(s, N); ctx.trans()
        for f in ref: ctx.require(all(np.array_equal(x, y) for x, y in zip(ref[f], got[f])), f'store-load-{f}', lambda: f'N={N}, {src}: {f}: {ref[f]} was stored, {got[f]} was loaded')
    for how in ('default name', 'no overwrite'):
        cwd = os.getcwd(); os.chdir(ctx.tmp)
        try:
            if how == 'no overwrite': s.set(0, 'u', s.get(0, 'u') + 1); old = open(fn).read(); s.store_iterate(fn, overwrite=False, verbose=False); ctx.require(open(fn).read() == old, 'store-overwrite', 'an existing file was overwritten')
            else: before = set(os.listdir('.')); s.store_iterate(verbose=False); new = set(os.listdir('.')) - before; ctx.require(len(new) == 1, 'store-default', f'{new}')
        finally: os.chdir(cwd)


ZORO = [dict(), dict(gamma=2.0), dict(lists=True), dict(mode='RICCATI_CONSTANT_COST'), dict(mode='RICCATI_BARRIER_1', out=True), dict(inp=True), dict(unc='NOISE')]


def mk_zoro(spec, nm):
    from acados_template import ZoroDescription
    o = ocpspec.Problem(C01.expand(dict(C01.BASE, bx=2, bxe=1, bu=1, par='p'))).ocp(nm); o.name = nm; z = ZoroDescription(); nx, nu = o.model.x.numel(), o.model.u.numel()
    z.fdbk_K_mat = 0.25 * np.arange(nu * nx).reshape(nu, nx); z.P0_mat = 0.01 * np.eye(nx); z.W_mat = 0.02 * np.eye(nx); z.unc_jac_G_mat = np.eye(nx) + 0.125; z.idx_lbx_t = [0]; z.idx_ubx_t = [0]
    if 'gamma' in spec: z.backoff_scaling_gamma = spec['gamma']
    if spec.get('lists'): z.idx_lbu_t = [0]; z.idx_ubu_t = [0]; z.idx_ubx_e_t = [0]; z.idx_ubx_t = [1, 0]
    if 'mode' in spec: z.feedback_optimization_mode = spec['mode']; z.riccati_Q_const = np.eye(nx) * 3; z.riccati_R_const = np.eye(nu) * 2; z.riccati_S_const = np.ones((nu, nx)) * .1
    if spec.get('out'): z.output_P_matrices = True; z.output_riccati_t = True
    if spec.get('inp'): z.input_P0 = False; z.input_P0_diag = True; z.input_W_diag = True; z.input_W_add_diag = True
    if 'unc' in spec: z.nonlinear_uncertainty_mode = spec['unc']; z.Sigma_p_mat = 0.5 * np.eye(o.model.p.numel()); o.code_gen_options.sens_forw_p = True
    o.zoro_description = z; return o


def k_zoro(case, ctx):
    from acados_template import AcadosOcp, ZoroDescription
    nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); o = mutlib.consistent(mk_zoro(ZORO[case['i']], nm), wd); o.dump_to_json(); l = AcadosOcp.from_json(o.code_gen_options.json_file); ctx.trace(); ctx.state(case['i'])
    ctx.require(isinstance(l.zoro_description, ZoroDescription), 'zoro-type', lambda: f'the zoRO description is loaded as {type(l.zoro_description)}')
    def cmpz(key):
        for f, v in vars(o.zoro_description).items():
            w = l.zoro_description.get(f) if isinstance(l.zoro_description, dict) else getattr(l.zoro_description, f); ctx.require(mutlib.same(v, w), f'{key}-{f}', lambda: f'{f}: {v} was dumped, {w} loaded')
    cmpz('zoro-load')
    try: mutlib.consistent(l, wd)
    except Exception as ex: ctx.viol('zoro-inconsistent', f'the loaded formulation is rejected: {ex!r}'); return
    cmpz('zoro-consistent'); js = o.code_gen_options.json_file; l.code_gen_options.json_file = js + '2'; l.dump_to_json(); ctx.require(not filediff(js, js + '2'), 'zoro-redump', lambda: f'{filediff(js, js + "2")[:3]}')


SIMUL = [None, 'default', 'inputs', 'outputs', 'cust', 'time']


def k_simulink(case, ctx):
    from acados_template import AcadosOcp, AcadosMultiphaseOcp, AcadosOcpSimulinkOptions
    v = SIMUL[case['i']]
    def opts():
        if v is None: return None
        s = AcadosOcpSimulinkOptions()
        for part in ('inputs', 'outputs'):
            if v == part:
                p = getattr(s, part)
                for k, w in list(vars(p).items()):
                    if isinstance(w, (int, bool)) and not k.startswith('__'): setattr(p, k, type(w)(not w))
        if v == 'cust': s.add_sparse_param_port([0, 1], port_name='pp', stage_idx_0=0, stage_idx_e=2)
        if v == 'time':
            for k, w in list(vars(s).items()):
                if isinstance(w, str): setattr(s, k, w + 'x') 
        return s
    for cls in (AcadosOcp, AcadosMultiphaseOcp):
        nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); os.makedirs(wd, exist_ok=True); o = C19.fresh(dict(C01.BASE, par='p'), nm, wd) if cls is AcadosOcp else mk_mocp(('base', 'p2'), nm); o.simulink_opts = opts()
        try: mutlib.consistent(o, wd)
        except Exception as ex: ctx.outcome(f'rejected {ex!r}'); continue
        o.dump_to_json(); l = cls.from_json(o.code_gen_options.json_file); ctx.trace(); ctx.state(str(v), cls.__name__); d = lambda p: p.simulink_opts.to_dict() if p.simulink_opts is not None else None
        ctx.require(d(l) == json.loads(json.dumps(d(o))), 'simulink-load', lambda: f'{v}: {d(o)} loaded as {d(l)}'); js = o.code_gen_options.json_file
        try: mutlib.consistent(l, wd); l.code_gen_options.json_file = js + '2'; l.dump_to_json(); ctx.require(not filediff(js, js + '2'), 'simulink-redump', lambda: f'{v}: {filediff(js, js + "2")[:3]}')
        except Exception as ex: ctx.viol('simulink-inconsistent', f'{v}: {ex!r}')


def k_ros(case, ctx):
    from acados_template import AcadosOcp
    from acados_template.ros2 import AcadosOcpRosOptions
    for i in range(6):
        nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); o = C19.fresh(dict(C01.BASE), nm, wd); r = AcadosOcpRosOptions(); todo = [n for n in mutlib.props(r)]
        if i:
            for j, n in enumerate(todo):
                if j % 5 != i - 1: continue
                v = getattr(r, n)
                for w in mutlib.alternatives('', n, v):
                    try: setattr(r, n, w); break
                    except Exception: continue
        o.ros_opts = r
        try: mutlib.consistent(o, wd)
        except Exception as ex: ctx.outcome(f'rejected {ex!r}'); continue
        o.dump_to_json(); l = AcadosOcp.from_json(o.code_gen_options.json_file); ctx.trace(); ctx.state(i); A, B = o.ros_opts.to_dict(), l.ros_opts.to_dict() if hasattr(l.ros_opts, 'to_dict') else l.ros_opts
        ctx.require(json.loads(json.dumps(A, default=str)) == json.loads(json.dumps(B, default=str)), 'ros-load', lambda: f'{A} loaded as {B}')
        js = o.code_gen_options.json_file; mutlib.consistent(l, wd); l.code_gen_options.json_file = js + '2'; l.dump_to_json(); ctx.require(not filediff(js, js + '2'), 'ros-redump', lambda: f'{filediff(js, js + "2")[:3]}')


def k_model(case, ctx):
    """models by themselves: all subsets of a set of attributes"""
    from acados_template import AcadosModel
    for sym in (ca.SX, ca.MX):
        x, u, z, p, t, xd, pg = (sym.sym(n, k) for n, k in (('x', 2), ('u', 1), ('z', 1), ('p', 2), ('t', 1), ('xd', 2), ('pg', 1)))
        attrs = dict(u=u, z=z, p=p, t=t, xdot=xd, p_global=pg, f_expl_expr=ca.vertcat(x[1], ca.sin(x[0])), con_h_expr=x[0]**2, cost_expr_ext_cost=x[0] * x[1], disc_dyn_expr=2 * x, x_labels=['a', 'b'], t_label='time', name='m2', dyn_ext_fun_type='generic')
        for sub in itertools.chain.from_iterable(itertools.combinations(attrs, k) for k in (0, 1, 2, len(attrs))):
            m = AcadosModel(); m.x = x; m.name = 'm'
            for a in sub: setattr(m, a, attrs[a])
            d = json.loads(json.dumps(m.to_dict(), default=str)); l = AcadosModel.from_dict(d); ctx.trans(2); ctx.state(sym.__name__, sub); ctx.trace()
            for n in mutlib.props(m, False):
                v, w = mutlib.read(m, n), mutlib.read(l, n)
                if isinstance(v, (ca.SX, ca.MX)): ctx.require(isinstance(w, type(v)) and v.shape == w.shape and v.is_valid_input() == w.is_valid_input(), f'model-{n}', lambda: f'{sub}: {n}: {v} became {w}')
                elif n in attrs or n in ('name', 'x_labels', 'u_labels'): ctx.require(mutlib.same(v, w), f'model-{n}', lambda: f'{sub}: {n}: {v} became {w}')
            ctx.require(mutlib.evaluate(m).keys() == mutlib.evaluate(l).keys() and C19.esame([mutlib.evaluate(m)], [mutlib.evaluate(l)]), 'model-expr', lambda: f'{sub}')


def k_gnsf(case, ctx):
    """a GNSF structure provided by the user is kept"""
    from acados_template import AcadosOcp
    c = dict(C01.BASE, integ='GNSF'); nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); o = C19.store(C19.fresh(c, nm, wd), wd)
    if o.model.gnsf_model is None: return
    mutlib.consistent(o, wd); o.dump_to_json(); l = AcadosOcp.from_json(o.code_gen_options.json_file); ctx.trace(); ctx.state('gnsf')
    ctx.require(l.model.gnsf_model is not None, 'gnsf-lost', 'the GNSF model of the formulation is lost on loading')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=600, chunk=1))
