"""C19: a formulation is generated with the real classes; then every single-field change of it (all properties of cost, constraints, options, model, code generation options,
parameter values and all symbolic expressions, every entry of every array) is offered to the code reuse test, which has to decline it exactly if the formulation differs beyond
the tolerance and to accept identical formulations that were built again.  For a set of changes the reused and the freshly generated solver are also run (in separate processes)
and their solutions compared."""
import sys, os, io, contextlib, warnings, itertools, pickle, copy, numpy as np, casadi as ca
import mclib, solverlib, ocpspec, mutlib
import C01, C15

PID = 'C19'
ASSUME = ['code reuse is keyed on the stored json file and code export directory; a library that was replaced by hand is not detected', 'every changed property of a formulation counts as a difference, also those that only influence the interface']
TOLS = (0.0, 1e-13, 1e-8, 1e-4)


def cases(tier):
    q = tier == 'quick'
    for c in mutlib.features(tier):
        yield dict(kind='ocp', c=c, full=not q or len(c) != 2)
        if q and len(c) <= 2: yield dict(kind='tol', c=c)
        elif not q: yield dict(kind='tol', c=c)
    for s in ('ERK', 'IRK', 'GNSF'):
        for par in (None, 'p'): yield dict(kind='sim', integ=s, par=par)
    for pair in (('base', 'p2'), ('alls', 'lls'), ('irkz', 'disc')): yield dict(kind='mocp', ph=list(pair))
    for i in range(len(RUN)): yield dict(kind='run', i=i)
    yield dict(kind='files')


RUN = [(dict(), None), (dict(), ('cost', 'yref', 0)), (dict(bx=1), ('constraints', 'lbx', 0)), (dict(bx=1), ('constraints', 'ubu', 0)), (dict(par='p'), ('', 'parameter_values', 0)), (dict(par='pg'), ('', 'p_global_values', 0)), (dict(), ('model', 'f_expl_expr', 'scaled')),
       (dict(grid='nodes'), ('solver_options', 'shooting_nodes', 1)), (dict(bxe=1), ('constraints', 'lbx_e', 0)), (dict(), ('cost', 'W_e', 0)), (dict(bx=1), ('model', 'cost_y_expr', 'plus')), (dict(nl='hall'), ('model', 'con_h_expr', 'plus')), (dict(), ('constraints', 'lbx_0', 0)), (dict(), ('solver_options', 'sim_method_num_steps', 1))]


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


def fresh(c, nm, wd): 
    o = ocpspec.Problem(C01.expand(c)).ocp(nm); o.name = nm; return o


def reuse(o, tol):
    from acados_template import AcadosOcpSolver
    return AcadosOcpSolver.is_code_reuse_possible(o, False, tol)


def evals(o):
    return [mutlib.evaluate(m) for m in (o.model if isinstance(o.model, list) else [o.model])]


def esame(a, b): 
    return all(set(x) == set(y) and all(len(x[k]) == len(y[k]) and (k == 'symbols' and x[k] == y[k] or k != 'symbols' and isinstance(x[k], list) == isinstance(y[k], list) and (x[k] == y[k] if isinstance(x[k], str) else all(p.shape == q.shape and np.array_equal(p, q, equal_nan=True) for p, q in zip(x[k], y[k])))) for k in x) for x, y in zip(a, b))


def explore(make, base, wd, ctx, possible, tag, every=True):
    """all single-field mutations of a stored formulation"""
    s0, e0 = mutlib.snap(base), evals(base); gn = '-gnsf' if 'GNSF' in str(getattr(base.solver_options, 'integrator_type', '')) else ''
    again = mutlib.consistent(make(), wd)
    ctx.require(possible(again), f'{tag}-unchanged{gn}', lambda: f'code reuse declined although the formulation is unchanged; snapshot differences {mutlib.diff(s0, mutlib.snap(again))}')
    for key, w in mutlib.mutations(make(), every):
        o = make(); ctx.trans()
        try: mutlib.apply(o, key, w); mutlib.consistent(o, wd)
        except Exception: ctx.outcome('mutation rejected by the formulation'); continue
        d = mutlib.diff(s0, mutlib.snap(o), IGN); changed = bool(d) or not esame(e0, evals(o)); got = possible(o)
        ctx.state(tag, str(key)); ctx.trace()
        if changed: ctx.require(not got, f'{tag}-reuse-{key[0].split(".")[0]}-{key[1]}', lambda: f'{key}: code is reused although the formulation changed: {d[:4]} {w!r}')
        else: ctx.require(got, f'{tag}-declined{gn}', lambda: f'{key}: code reuse declined although nothing changed')


IGN = ('json_loaded', 'n_global_data')


def store(o, wd):
    from acados_template import AcadosOcpSolver
    mutlib.consistent(o, wd); AcadosOcpSolver.generate(o, cmake_builder=None, verbose=False); return o


def k_ocp(case, ctx):
    c = case['c']; nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); mk = lambda: fresh(c, nm, wd)
    base = store(mk(), wd)
    for tol in TOLS: ctx.require(reuse(mutlib.consistent(mk(), wd), tol), 'ocp-identical' + ('-gnsf' if c.get('integ') == 'GNSF' and not tol else ''), f'tol {tol}: code reuse declined for an identical formulation')
    explore(mk, mutlib.consistent(mk(), wd), wd, ctx, lambda o: reuse(o, 1e-13), 'ocp', case['full'])
    if not case['full']: return
    # default names: formulations that differ in more than parameter values or code generation options have different names
    mk0 = lambda: ocpspec.Problem(C01.expand(c)).ocp('m' + nm); names = {}
    b = mutlib.consistent(mk0(), wd); s0, e0 = mutlib.snap(b), evals(b); ctx.require(b.name.startswith(f'ocp_{b.model.name}_'), 'default-name', lambda: f'default name {b.name}'); ctx.require(mutlib.consistent(mk0(), wd).name == b.name, 'default-name-stable', 'default name of an identical formulation differs')
    for key, w in mutlib.mutations(mk0(), every=False):
        if key[0] in ('', 'code_gen_options'): continue
        o = mk0(); ctx.trans()
        try: mutlib.apply(o, key, w); mutlib.consistent(o, wd)
        except Exception: continue
        if mutlib.diff(s0, mutlib.snap(o), ('name', 'ext_fun_expand_cost', 'ext_fun_expand_dyn', 'ext_fun_expand_constr', 'ext_fun_expand_precompute', 'ext_fun_compile_flags')) or not esame(e0, evals(o)): ctx.require(o.name != b.name, f'default-name-{key[0]}-{key[1]}', lambda: f'{key}: the changed formulation has the same default name {b.name}')


def k_tol(case, ctx):
    c = case['c']; nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); mk = lambda: fresh(c, nm, wd); store(mk(), wd)
    todo = [(sec, n) for sec in ('cost', 'constraints') for n in mutlib.props(getattr(mk(), sec))] + [('', 'parameter_values'), ('', 'p_global_values')]
    for sec, n in todo:
        v = mutlib.read(getattr(mk(), sec) if sec else mk(), n)
        if not isinstance(v, np.ndarray) or v.dtype.kind != 'f' or not v.size or n.startswith(('J', 'idx')): continue
        for i in sorted({0, v.size - 1}):
            for tol in (1e-8, 1e-4):
                for fac, want in ((0.4, True), (-0.4, True), (2.5, False), (-2.5, False)):
                    o = mk(); a = v.copy(); a.flat[i] += fac * tol
                    if a.flat[i] == v.flat[i]: continue
                    try: mutlib.apply(o, (sec, n), a); mutlib.consistent(o, wd)
                    except Exception: continue
                    r = reuse(o, tol); ctx.trans(); ctx.trace(); ctx.state(n, i, tol, fac)
                    ctx.require(r == want, f'tol-{sec}-{n}', lambda: f'{sec}.{n}[{i}] changed by {fac} times the tolerance {tol}: reuse {r}')


def k_sim(case, ctx):
    from acados_template import AcadosSim, AcadosSimSolver
    c = {k: v for k, v in dict(integ=None if case['integ'] == 'ERK' else case['integ'], par=case['par']).items() if v}; nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm)

    def mk():
        P = ocpspec.Problem(C01.expand(c)); s = AcadosSim(); s.model = P.model(nm); s.name = nm; s.parameter_values = P.d['p'].copy(); s.p_global_values = P.d['pg'].copy(); s.solver_options.integrator_type = case['integ']; s.solver_options.T = 0.2; return s
    b = mk(); mutlib.consistent(b, wd); AcadosSimSolver.generate(b, cmake_builder=None)
    explore(mk, mutlib.consistent(mk(), wd), wd, ctx, lambda s: AcadosSimSolver.is_code_reuse_possible(s, False), 'sim')


def k_mocp(case, ctx):
    nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm)

    def mk():
        pg = ca.SX.sym('pg', 1); Ps = [ocpspec.Problem(ocpspec.spec(**dict(dict(bu=1, N=3, T=0.6, npg=1), **C15.V[ph])), pg=pg) for ph in case['ph']]
        m = C15.build_mocp(Ps, [1, 2], ocpspec.Problem(ocpspec.spec(N=3, T=0.6)).ocp('opts')); m.name = nm; return m
    store(mk(), wd); explore(mk, mutlib.consistent(mk(), wd), wd, ctx, lambda o: reuse(o, 1e-13), 'mocp')


def child(fn):
    """run in a process of its own (libraries cannot be replaced in one process)"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try: os.close(r); res = fn()
        except BaseException as e: res = repr(e)
        with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    os.waitpid(pid, 0); return pickle.loads(data) if data else 'the process died'


def k_run(case, ctx):
    feat, key = RUN[case['i']]; c = dict(C01.BASE, **feat); nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm + 'a'); wd2 = os.path.join(ctx.tmp, nm + 'b')

    def mut(d):
        o = fresh(c, nm, d)
        if key:
            for k, w in mutlib.mutations(fresh(c, nm, d)):
                if k == key: mutlib.apply(o, k, w); break
            else: raise mclib.Machinery(f'no mutation {key}')
        return o

    def go(o, d, **kw):
        from acados_template import AcadosOcpSolver
        o.code_gen_options.code_export_directory = d; o.code_gen_options.json_file = os.path.join(d, 'o.json'); s = AcadosOcpSolver(o, verbose=False, **kw); st = s.solve(); return st, s.generated, {k: [np.array(x) for x in v] for k, v in solverlib.traj(s, o.solver_options.N_horizon).items()}, s.get_cost()
    first = child(lambda: go(fresh(c, nm, wd), wd))
    for kw in (dict(generate=False, build=False), dict(generate=False), dict(build=False)):
        a = child(lambda: go(mut(wd), wd, **kw)); b = child(lambda: go(mut(wd2), wd2)); ctx.trace(); ctx.trans(2); ctx.state(case['i'], str(kw))
        if not ctx.require(isinstance(a, tuple) and isinstance(b, tuple), 'run-failed', lambda: f'{key} {kw}: {a if not isinstance(a, tuple) else b}'): return
        if kw == dict(generate=False, build=False): ctx.require(a[1] == bool(key), 'generated-flag', lambda: f'{key}: generated is {a[1]}')
        ctx.require(a[0] == b[0], 'run-status', lambda: f'{key} {kw}: status {a[0]} with code reuse, {b[0]} without')
        for k in b[2]:
            for j, (x, y) in enumerate(zip(a[2][k], b[2][k])): ctx.close(x, y, f'run-{k}', f'{key} {kw}: {k} of stage {j} with code reuse against a fresh solver', 1e-10, 1e-11)


def k_files(case, ctx):
    """missing or foreign files never allow reuse"""
    from acados_template import AcadosOcpSolver
    import json, shutil
    c = dict(C01.BASE); nm = solverlib.name(); wd = os.path.join(ctx.tmp, nm); mk = lambda: mutlib.consistent(fresh(c, nm, wd), wd); o = store(fresh(c, nm, wd), wd); js = os.path.join(wd, 'o.json'); txt = open(js).read()
    ctx.require(reuse(mk(), 1e-13), 'files-base', 'reuse declined')
    for what, content in (('truncated', txt[:len(txt) // 2]), ('empty', ''), ('no hash', json.dumps({k: v for k, v in json.loads(txt).items() if k != 'hash'})), ('list', '[]'), ('other class', json.dumps(dict(json.loads(txt), problem_class='X', hash='0'))), ('no class', json.dumps({k: v for k, v in dict(json.loads(txt), hash='0').items() if k != 'problem_class'}))):
        open(js, 'w').write(content); ctx.require(not reuse(mk(), 1e-13), f'files-{what}', f'json file {what}: code is reused'); ctx.state(what); ctx.trace()
    for m in range(0, len(txt), max(1, len(txt) // 400)):
        open(js, 'w').write(txt[:m]); ctx.require(not reuse(mk(), 1e-13), 'files-torn', f'json file torn at byte {m}: code is reused'); ctx.trans()
    open(js, 'w').write(json.dumps(dict(json.loads(txt), hash='0'))); ctx.require(reuse(mk(), 1e-13), 'files-stale-hash', 'a formulation that compares equal is declined')
    os.unlink(js); ctx.require(not reuse(mk(), 1e-13), 'files-nojson', 'reuse without json file')
    open(js, 'w').write(txt); o = mk(); o.code_gen_options.code_export_directory = wd + 'x'; ctx.require(not reuse(o, 1e-13), 'files-nodir', 'reuse without code export directory')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=400, chunk=2))
