"""Single-field mutations of formulations, shared by C18 (serialization) and C19 (code reuse): every property of every section of a formulation object is
enumerated together with alternative values; the ones that the formulation classes accept are the explored neighbours of a formulation."""
import copy, inspect, io, contextlib, os, warnings
import numpy as np, casadi as ca
import optlib, ocpspec, solverlib, C01, mclib

SECTIONS = ('cost', 'constraints', 'solver_options', 'model', 'code_gen_options')
SKIP = {('code_gen_options', k) for k in ('json_file', 'code_export_directory', 'acados_lib_path', 'acados_include_path', 'acados_link_libs', 'with_solution_sens_wrt_params', 'generate_hess', 'casadi_codegen_opts', 'os')} | {('solver_options', k) for k in ('tol', 'qp_tol', 'Tsim', 'model_external_shared_lib_dir', 'model_external_shared_lib_name', 'custom_templates', 'custom_update_filename', 'custom_update_header_filename', 'acados_lib_path')}
SYMBOLS = ('x', 'xdot', 'u', 'z', 'p', 'p_global', 't', 'x_slacks', 'p_slack', 'cost_r_in_psi_expr', 'cost_r_in_psi_expr_0', 'cost_r_in_psi_expr_e', 'con_r_in_phi', 'con_r_in_phi_0', 'con_r_in_phi_e', 'pi', 'lam')


def props(obj, writable=True):
    return [n for n, p in inspect.getmembers(type(obj), lambda v: isinstance(v, property)) if not writable or p.fset is not None]


def read(obj, n):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            try: return getattr(obj, n)
            except Exception: return None


def alternatives(sec, n, v, every=True):
    """other values for a property with value v"""
    if sec == 'solver_options' and n in optlib.OPT:
        return [w for w in optlib.OPT[n][0]['valid'] if not isinstance(w, str) or 'HPMPC' not in w]
    if n.startswith('J') and isinstance(v, np.ndarray): return []
    if isinstance(v, ca.DM): v = v.full()
    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in 'fiu':
        out = []
        if n.startswith('idx') or v.dtype.kind != 'f':
            if v.size > 1: out.append(v.ravel()[::-1].reshape(v.shape).copy())
            for i in range(v.size):
                for w in (0, 1, 2):
                    a = v.copy(); a.flat[i] = w; out.append(a)
            out.append(v.ravel()[:-1])
        else:
            for i in (range(v.size) if every else sorted({0, v.size - 1})):
                a = v.copy(); a.flat[i] += 0.125 if not abs(a.flat[i]) >= 1e9 else -0.5 * a.flat[i]; out.append(a)
        return out
    if isinstance(v, bool): return [not v]
    if isinstance(v, (int, np.integer)): return [v + 1, max(v - 1, 0)]
    if isinstance(v, (float, np.floating)): return [1.5 * v + 0.01]
    if isinstance(v, str):
        T = {'cost_type': ['LINEAR_LS', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'EXTERNAL'], 'constr_type': ['BGH', 'BGP'], 'cost_ext_fun_type': ['casadi', 'generic'], 'dyn_ext_fun_type': ['casadi', 'generic'], 'name': [v + 'b']}
        for k, l in T.items():
            if n.startswith(k): return [w for w in l if w != v]
        return [v + 'x']
    if isinstance(v, list) and v and all(isinstance(e, str) for e in v): return [v[::-1], v[:-1] + [v[-1] + 'x']]
    if v is None and n.endswith('_labels'): return [['a', 'b', 'c']]
    if v is None and n == 't_label': return ['tt']
    if v is None and n == 'nu_original': return [1]
    if isinstance(v, dict): return [dict(v, with_header=not v.get('with_header', False))]
    return []


def expressions(model):
    """(name, expression) of all non-symbol expressions of a model"""
    out = []
    for n in props(model):
        if n in SYMBOLS: continue
        v = read(model, n)
        if isinstance(v, (ca.SX, ca.MX)) and v.numel(): out.append((n, v))
    return out


def expr_alternatives(n, v, model):
    x = model.x if model.x is not None and not isinstance(model.x, list) else None
    if n in ('f_expl_expr', 'f_impl_expr') or x is None or v.shape[1] > 1: yield 'scaled', 1.25 * v
    else:
        yield 'plus', v + 0.25 * (ca.sin(x[0]) if v.numel() == 1 else ca.vertcat(ca.sin(x[0]), ca.DM.zeros(v.shape[0] - 1)))
        yield 'const', v + 0.25
        if v.shape[0] > 1 and v.shape[1] == 1: yield 'swap', ca.vertcat(v[1], v[0], *([v[2:]] if v.shape[0] > 2 else []))


def section(o, sec):
    """'cost' or, for phase 1 of a multi-phase problem, 'cost.1'"""
    a, _, i = sec.partition('.'); v = getattr(o, a)
    return v[int(i)] if i else v


def sections(o):
    for sec in SECTIONS + ('mocp_opts',):
        v = getattr(o, sec, None)
        if isinstance(v, list): yield from (f'{sec}.{i}' for i in range(len(v)))
        elif v is not None: yield sec


def mutations(o, every=True):
    """descriptions of all mutations of a formulation (evaluated on a fresh instance)"""
    for sec in sections(o):
        obj = section(o, sec)
        for n in props(obj):
            if (sec, n) in SKIP: continue
            v = read(obj, n)
            if isinstance(v, (ca.SX, ca.MX)): continue
            for i, w in enumerate(alternatives(sec, n, v, every)):
                if not same(v, w): yield (sec, n, i), w
    for n in ('parameter_values', 'p_global_values'):
        v = read(o, n)
        if isinstance(v, list):
            for j, e in enumerate(v):
                for i, w in enumerate(alternatives('', n, e, every)): yield ('', n, i), v[:j] + [w] + v[j + 1:]
        else:
            for i, w in enumerate(alternatives('', n, v, every)): yield ('', n, i), w
    for sec in sections(o):
        if sec.startswith('model'):
            m = section(o, sec)
            for n, v in expressions(m):
                for tag, w in expr_alternatives(n, v, m): yield (sec, n, tag), (n, tag)      # the expression is built from the symbols of the instance it is applied to


def apply(o, key, w):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            obj = section(o, key[0]) if key[0] else o
            if key[0].startswith('model') and isinstance(w, tuple): w = dict(expr_alternatives(key[1], getattr(obj, key[1]), obj))[w[1]]
            setattr(obj, key[1], w)


def same(a, b):
    if isinstance(a, ca.DM): a = a.full()
    if isinstance(b, ca.DM): b = b.full()
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        if a is None or b is None: return (a is None or len(np.atleast_1d(a)) == 0) and (b is None or len(np.atleast_1d(b)) == 0)
        try: x, y = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError): return list(map(str, np.ravel(np.asarray(a, object)))) == list(map(str, np.ravel(np.asarray(b, object))))
        return x.size == y.size and (x.size == 0 or x.shape == y.shape) and np.array_equal(x, y)
    if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return bool(a == b) if isinstance(a, (bool, int, float, str, type(None), np.generic)) else type(a) is type(b)


def consistent(o, wd, json_name='o.json'):
    o.code_gen_options.acados_lib_path = os.environ['ACADOS_SOURCE_DIR'] + '/lib'; o.code_gen_options.code_export_directory = wd; o.code_gen_options.json_file = os.path.join(wd, json_name)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()): o.make_consistent(**(dict(verbose=False) if 'verbose' in inspect.signature(o.make_consistent).parameters else {}))
    return o


def snap(o):
    """all property values of a formulation except expressions"""
    out = {}
    for sec in SECTIONS + ('dims', 'phases_dims', 'mocp_opts'):
        obj = getattr(o, sec, None)
        for ob, pre in ([(obj, sec)] if not isinstance(obj, list) else [(b, f'{sec}{i}') for i, b in enumerate(obj)]):
            if ob is None: continue
            for n in props(ob, writable=False):
                v = read(ob, n)
                if not isinstance(v, (ca.SX, ca.MX)): out[pre, n] = copy.deepcopy(v) if isinstance(v, (np.ndarray, list, dict)) else v
    for n in ('parameter_values', 'p_global_values', 'name'): out['', n] = copy.deepcopy(read(o, n))
    return out


def diff(a, b, ignore=()):
    return [k for k in sorted(set(a) | set(b), key=str) if k[1] not in ignore and (k not in a or k not in b or not same(a[k], b[k]))]


def evaluate(m):
    """numerical values of all expressions of a model on fixed points, by expression name"""
    syms = [(n, read(m, n)) for n in SYMBOLS if n in props(m, False)]; syms = [(n, v) for n, v in syms if isinstance(v, (ca.SX, ca.MX)) and v.numel()]
    known = set(); syms = [(n, v) for n, v in syms if not (symkey(v) in known or known.add(symkey(v)))]      # the same symbol under two names
    out = {'symbols': [(n, tuple(v.shape), type(v).__name__) for n, v in syms]}
    ins = [v for _, v in syms]; seen = []
    ins = [v for n, v in syms]; pts = [[np.cos(1.7 * (k + 1) * np.arange(1, v.numel() + 1) + 0.3 * i).reshape(v.shape) for i, v in enumerate(ins)] for k in range(2)]
    for n, e in expressions(m):
        try: F = ca.Function('f', ins, [e], dict(allow_free=False))
        except Exception as ex: out[n] = 'free: ' + str(ex).splitlines()[0][:40]; continue
        out[n] = [np.array(F(*p)) for p in pts]
    return out


def features(tier):
    base = dict(C01.BASE)
    yield from (c for c in mclib.lattice(base, C01.ALTS, 1 if tier == 'quick' else 2, C01.valid))
    for sl in ('all', 'rev'): yield dict(base, bx=2, bxe=2, lin='gge', nl='hall', slack=sl, bu=2, par='both')
    yield dict(base, bx=1, nl='phiall', slack='most', par='p', cost='CONL', coste='CONL'); yield dict(base, cost='EXT', coste='EXT', par='both', nl='hall', integ='DISCRETE'); yield dict(base, integ='IRKZ2', par='both', lin='gge', sym='MX'); yield dict(base, integ='IRKQ', cost='CONL', coste='CONL', grid='steps', scaling='custom', par='pg')


def symkey(v): return tuple(e.element_hash() for e in v.elements()) if isinstance(v, ca.SX) else v.__hash__()
