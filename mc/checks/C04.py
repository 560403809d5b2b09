"""C04: solver data seen as a store.  For every formulation of a bounded feature lattice a real solver is driven through write operations
(every writable field x stage x array layout, flattened and object-wise transfers, files, sparse parameter updates, rejected writes) and
after every operation everything readable is compared with a key-value model of the store.  Explored: every operation from the initial
store, and all ordered pairs of a representative operation set; every rejected operation runs in a forked process so that a process exit is seen."""
import sys, os, io, contextlib, itertools, json, warnings, numpy as np
import mclib, solverlib, ocpspec
import C01, C15

PID = 'C04'
ASSUME = ['dimension bounds nx<=3 nu<=2 nz<=2 N<=4', 'values used for writes: original value plus a distinct pattern (all finite), and +-1e10 for bounds', 'fields without a getter (xdot_guess, z_guess, slack bounds) only checked for having no side effect']

BASE = dict(bu=1, bx=1)
ALTS = dict(
    cost=['LLS', 'CONL', 'EXT'], coste=['LLS', 'CONL', 'EXT'], cost0=['LLS', 'NLS', 'CONL', 'EXT'], integ=['IRK', 'DISCRETE', 'GNSF', 'IRKZ', 'IRKZ2', 'LIFTED_IRK'],
    par=['p', 'pg', 'both'], sym=['MX'], N=[1, 4], dim=['x1', 'x3', 'u1', 'u0'], scaling=['custom'], x0=['none', 'partial', 'box'], bu=[2], bx=[0, 2], bxe=[1, 2],
    lin=['g', 'gge', 'ge'], nl=['h', 'hh', 'hall', 'phi', 'phiall'], slack=['most', 'all', 'e'], opt=['full', 'cond1', 'ddp', 'rti', 'exact', 'feasqp'], onesided=[1])
RICH = dict(lin='gge', nl='hall', slack='all', par='both', cost='NLS', integ='IRKZ', bx=2, bxe=1)


def expand(c):
    c = dict(c); rti = c.get('opt') == 'rti'
    if rti: c['opt'] = None
    P = ocpspec.Problem(C01.expand(c))
    if rti: P.s['opts'] = dict(P.s['opts'], nlp_solver_type='SQP_RTI')
    return P


def cases(tier):
    alts = {k: [v for v in vs] for k, vs in ALTS.items()}
    seen = set()
    def ok(c):
        d = dict(c)
        if d.get('opt') == 'rti': d['opt'] = None
        return C01.valid(d)
    for c in mclib.lattice(BASE, alts, 1, ok): yield dict(kind='store', c=c, pairs=int(c == BASE))
    for i, c in enumerate(mclib.lattice(RICH, alts, 1, ok)): yield dict(kind='store', c=c, pairs=int(i % 16 == 0))
    for v in range(3): yield dict(kind='store', mp=v, pairs=1)
    for c in (BASE, RICH, dict(RICH, cost='LLS', nl='phiall', integ=None), dict(BASE, cost='EXT', coste='EXT'), dict(BASE, cost='CONL', par='p'), dict(BASE, cost0='LLS', integ='IRKZ', par='pg'), dict(BASE, opt='ddp', bx=0, bu=0), dict(BASE, opt='rti'), dict(BASE, opt='feasqp')):
        if ok(c): yield dict(kind='reject', c=c)
    yield dict(kind='reject', mp=0)
    for c in (RICH, dict(BASE, cost='LLS'), dict(BASE, cost='EXT', par='both')): yield dict(kind='layout', c=c)
    if tier == 'thorough':
        for c in mclib.lattice(BASE, alts, 2, ok): yield dict(kind='store', c=c, pairs=1)
        for c in mclib.lattice(RICH, alts, 2, ok): yield dict(kind='store', c=c, pairs=2)
        for c in mclib.lattice(BASE, alts, 1, ok): yield dict(kind='reject', c=c)


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


# ------------------------------------------------------------------ the store
class Mix: pass


class Store:
    """the real solver and, for every readable (field, stage), the getter and what the formulation says about it"""

    def __init__(self, case, ctx):
        self.ctx = ctx
        if 'mp' in case: self.build_mp(case['mp'])
        else:
            P = expand(case['c']); nm = solverlib.name(); o = P.ocp(nm)
            self.Ps, self.ocps, self.ph = [P], [o], None
            self.o = o; self.sol = solverlib.solver(o, nm, save_p_global=bool(P.s.get('npg')))
            self.N = o.solver_options.N_horizon
            self.where = [(o, k == 0, k == self.N) for k in range(self.N + 1)]
        self.sizes()

    def build_mp(self, v):
        sp = [[dict(nx=2, nu=1, np=2), dict(nx=2, nu=2, np=1, g=1, soft=('g',), integ='IRK', nz=1)],
              [dict(nx=2, nu=1, h=1, cost='LLS'), dict(nx=2, nu=2, cost='EXT', bx=1, opts=dict(hessian_approx='EXACT')), dict(nx=2, nu=1, np=0)],
              [dict(nx=2, nu=1, bx=1, soft=('bx',)), dict(nx=2, nu=1, bu=0, integ='DISCRETE', nxn=3), dict(nx=3, nu=2, phi=1)]][v]
        NL = [[2, 2], [1, 2, 1], [2, 1, 1]][v]; N = sum(NL)
        Ps = [ocpspec.Problem(ocpspec.spec(N=N, T=0.2 * N, **q)) for q in sp]
        o = ocpspec.Problem(ocpspec.spec(N=N, T=0.2 * N)).ocp('opts'); o.solver_options.sim_method_num_stages = 2
        m = C15.build_mocp(Ps, NL, o)
        self.sol = solverlib.solver(m); self.N, self.o, self.ph = N, m, m.phases_dims
        self.where = []
        for i, n in enumerate(NL):
            q = Mix(); q.constraints, q.cost, q.parameter_values, q.solver_options = m.constraints[i], m.cost[i], m.parameter_values[i], Mix(); q.solver_options.integrator_type = Ps[i].s['integ']
            self.where += [(q, i == 0 and j == 0, False) for j in range(n)]
        self.where.append((q, False, True))

    def sizes(self):
        s, N = self.sol, self.N
        self.read = {}
        for k in range(N + 1):
            for f in ('x', 'u', 'z', 'sl', 'su', 'lam', 'p'): self.read[f, k] = lambda k=k, f=f: s.get(k, f)
            if k < N: self.read['pi', k] = lambda k=k: s.get(k, 'pi')
            for f in ('sens_x', 'sens_u', 'sens_sl', 'sens_su', 'sens_lam'): self.read[f, k] = lambda k=k, f=f: s.get(k, f)
            o, first, last = self.where[k]
            for f in self.confields(k): self.read['con:' + f, k] = lambda k=k, f=f: s.constraints_get(k, f)
            for f in self.costfields(k): self.read['cost:' + f, k] = lambda k=k, f=f: s.cost_get(k, f)
        for f in ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su', 'p'): self.read['flat:' + f, None] = lambda f=f: s.get_flat(f)

    def ctype(self, k):
        o, first, last = self.where[k]
        c = o.cost
        return (c.cost_type_0 or c.cost_type) if first else c.cost_type_e if last else c.cost_type

    def contype(self, k):
        o, first, last = self.where[k]
        c = o.constraints
        return (c.constr_type_0 if first and hasattr(c, 'constr_type_0') else c.constr_type_e if last else c.constr_type)

    def costfields(self, k):
        t = self.ctype(k)
        return {'LINEAR_LS': ['W', 'yref', 'Vx', 'Vu', 'Vz'], 'NONLINEAR_LS': ['W', 'yref'], 'CONVEX_OVER_NONLINEAR': ['yref'], 'EXTERNAL': ['ext_cost_num_hess']}[t] + ['zl', 'zu', 'Zl', 'Zu', 'scaling']

    def confields(self, k):
        return ['lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug', 'C', 'D'] + (['uphi'] if self.contype(k) == 'BGP' else ['lh', 'uh'])

    def snap(self): return {key: np.array(r(), dtype=float, copy=True) for key, r in self.read.items()}


def flat(model, f, N):
    return np.concatenate([model[f, k].reshape(-1) for k in range(N + 1) if (f, k) in model and not (f in ('u', 'z') and k == N)] or [np.zeros(0)])


FLAT = ('x', 'u', 'z', 'pi', 'lam', 'sl', 'su', 'p')


def compare(ctx, st, model, what, key):
    got = st.snap()
    for f in FLAT: model['flat:' + f, None] = flat(model, f, st.N)
    for kk, v in got.items():
        ctx.trans()
        e = model[kk]
        if v.size != e.size or not np.array_equal(v.reshape(-1, order='F'), e.reshape(-1, order='F')):
            ctx.viol(f'{key}:{kk[0]}', f'after {what}: {kk[0]} at stage {kk[1]} reads {v.tolist()}, expected {e.tolist()}')
    ctx.state(what, st.N, mclib.digest(sorted((str(k), v.tolist()) for k, v in got.items())))
    return got


def pattern(v, tag, sym=False):
    """a distinct value near v: entry i, j gets its own offset"""
    v = np.array(v, dtype=float, copy=True)
    off = 0.01 * (1 + tag) + 0.001 * np.arange(1, v.size + 1)
    return v + off.reshape(v.shape, order='F')


class Model(dict):
    pass


def mask(st, model, k):
    """lam entries of constraints switched off by an infinite bound are zero"""
    m = []
    inf = 1e10
    o, first, last = st.where[k]
    lo, up = [], []
    for f in ('bu', 'bx', 'g'):
        lo.append(model[f'con:l{f}', k] > -inf); up.append(model[f'con:u{f}', k] < inf)
    if ('con:uphi', k) in model: up.append(model['con:uphi', k] < inf); lo.append(st.lphi[k] > -inf)
    else: lo.append(model['con:lh', k] > -inf); up.append(model['con:uh', k] < inf)
    ns = model['sl', k].size
    return np.concatenate(lo + up + [np.ones(2 * ns)]).astype(float)


def ops(st):
    """(name, do(solver, tag, model)) for every write"""
    s, N, out = st.sol, st.N, []
    def w(key, name, fn, sym=False, post=None):
        def do(tag, model):
            v = pattern(model[key], tag)
            if sym: v = v + v.T if v.ndim == 2 else v
            fn(v); model[key] = v.copy()
            if post: post(model)
        out.append((name, key[0], key[1], do))
    for k in range(N + 1):
        def lammask(model, k=k): model['lam', k] = model['lam', k] * mask(st, model, k)
        for f in ('x', 'u', 'sl', 'su', 'lam') + (('pi', 'z') if k < N else ()):
            w((f, k), f'set({k},{f})', lambda v, k=k, f=f: s.set(k, f, v), post=lammask if f == 'lam' else None)
        w(('p', k), f'set({k},p)', lambda v, k=k: s.set(k, 'p', v))
        for f in ('sens_x', 'sens_u'): w((f, k), f'set({k},{f})', lambda v, k=k, f=f: s.set(k, f, v))
        for f in ('lbx', 'ubx', 'lbu', 'ubu'): w((f'con:{f}', k), f'set({k},{f})', lambda v, k=k, f=f: s.set(k, f, v), post=lammask)
        if ('cost:yref', k) in st.read: w(('cost:yref', k), f'set({k},yref)', lambda v, k=k: s.set(k, 'yref', v))
        for f in st.confields(k): w((f'con:{f}', k), f'constraints_set({k},{f})', lambda v, k=k, f=f: s.constraints_set(k, f, v, api='new'), post=lammask)
        for f in st.costfields(k): w((f'cost:{f}', k), f'cost_set({k},{f})', lambda v, k=k, f=f: s.cost_set(k, f, v, api='new'), sym=f in ('W', 'ext_cost_num_hess'))
        np_ = st.npar[k]
        for idx in ([0], [np_ - 1], list(range(np_))[::-1]):
            if np_:
                def do(tag, model, k=k, idx=idx):
                    v = pattern(model['p', k], tag)[idx]; s.set_params_sparse(k, np.array(idx), np.array(v)); m = model['p', k].copy(); m[idx] = v; model['p', k] = m
                out.append((f'set_params_sparse({k},{idx})', 'p', k, do))
        if k < N and st.irk:
            for f, n in (('xdot_guess', 'x'), ('z_guess', 'z')):
                out.append((f'set({k},{f})', f, k, lambda tag, model, k=k, f=f, n=n: s.set(k, f, pattern(model[n, k], tag))))
    def lmask(model):
        for k in range(N + 1): model['lam', k] = model['lam', k] * mask(st, model, k)
    def put(model, f, v):
        i = 0
        for k in range(N + 1):
            if (f, k) in model and not (f in ('u', 'z') and k == N): n = model[f, k].size; model[f, k] = v[i:i + n].copy(); i += n
        if f == 'lam': lmask(model)
    for f in FLAT:
        def do(tag, model, f=f):
            v = pattern(flat(model, f, N), tag); s.set_flat(f, v); put(model, f, v)
        out.append((f'set_flat({f})', f, None, do))
    def obj(tag, model, how):
        from acados_template import AcadosOcpIterate, AcadosOcpFlattenedIterate
        d = {f: pattern(flat(model, f, N), tag) for f in FLAT if f != 'p'}
        F = AcadosOcpFlattenedIterate(**d)
        if how == 'flat': s.set_iterate(F)
        else:
            t = {}
            for f in d:
                t[f] = []; i = 0
                for k in range(N + 1):
                    if f in ('u', 'z', 'pi') and k == N: continue
                    n = model[f, k].size; t[f].append(d[f][i:i + n]); i += n
            s.set_iterate(AcadosOcpIterate(**t))
        for f in d: put(model, f, d[f])
    out.append(('set_iterate(flattened)', 'iter', None, lambda t, m: obj(t, m, 'flat')))
    out.append(('set_iterate(stagewise)', 'iter', None, lambda t, m: obj(t, m, 'stage')))
    def back(tag, model):
        it, fl = s.get_iterate(), s.get_flat_iterate()
        for f in FLAT[:-1]:
            e = flat(model, f, N)
            for a, b in ((getattr(fl, f), 'get_flat_iterate'), (np.concatenate([np.zeros(0)] + list(getattr(it, f))), 'get_iterate'), (getattr(it.flatten(), f), 'get_iterate().flatten()')):
                st.ctx.require(np.array_equal(a, e), f'{b}:{f}', lambda: f'{b}.{f} = {a.tolist()}, stage values {e.tolist()}')
            st.ctx.require([len(v) for v in getattr(it, f)] == [model[f, k].size for k in range(N + 1) if (f, k) in model and not (f in ('u', 'z') and k == N)], f'get_iterate-shape:{f}', lambda: f'get_iterate().{f} stage lengths')
        fn = os.path.join(st.ctx.tmp or '.', 'it.json')
        s.store_iterate(fn, overwrite=True, verbose=False)
        old = {k: v.copy() for k, v in model.items()}
        obj(tag + 3, model, 'flat')
        s.load_iterate(fn, verbose=False)
        for k, v in old.items(): model[k] = v
    out.append(('store_iterate, set_iterate, load_iterate', 'iter', None, back))
    def rso(tag, model):
        s.reset_sens_out()
        for k in model:
            if k[0].startswith('sens_'): model[k] = np.zeros(model[k].shape)
    out.append(('reset_sens_out', 'sens', None, rso))
    if st.npg:
        def pg(tag, model):
            v = pattern(model['flat:p_global', None], tag); s.set_p_global_and_precompute_dependencies(v); model['flat:p_global', None] = v.copy()
            v += 1.0   # the caller may reuse its array
        out.append(('set_p_global', 'p_global', None, pg))
    out.append(('options_set', 'opt', None, lambda t, m: s.options_set('qp_tol_stat', 1e-7)))
    return out


def initial(ctx, st):
    """the store of a fresh solver, compared with the formulation"""
    m = st.snap()
    st.npg = 0; st.lphi = []; st.npar = [m['p', k].size for k in range(st.N + 1)]
    st.irk = all(o.solver_options.integrator_type in ('IRK',) for o, a, b in st.where)
    for k in range(st.N + 1):
        o, first, last = st.where[k]; c, q = o.constraints, o.cost
        sf = '_0' if first else '_e' if last else ''
        g = lambda obj, f, s_: np.asarray(getattr(obj, f + s_), float)
        exp = {}
        for f in ('lbx', 'ubx'): exp['con:' + f] = g(c, f, sf)
        for f in ('lbu', 'ubu'): exp['con:' + f] = g(c, f, '') if not last else np.zeros(0)
        for f in ('lg', 'ug', 'C'): exp['con:' + f] = g(c, f, '_e' if last else '')
        exp['con:D'] = g(c, 'D', '') if not last else np.zeros((exp['con:lg'].size, 0))
        if ('con:uphi', k) in m: exp['con:uphi'] = g(c, 'uphi', sf); st.lphi.append(g(c, 'lphi', sf))
        else:
            for f in ('lh', 'uh'): exp['con:' + f] = g(c, f, sf)
            st.lphi.append(None)
        t = st.ctype(k); cs = sf if not (first and not getattr(q, 'cost_type_0')) else ''
        if t in ('LINEAR_LS', 'NONLINEAR_LS'): exp['cost:W'] = g(q, 'W', cs)
        if t != 'EXTERNAL': exp['cost:yref'] = g(q, 'yref', cs)
        if t == 'LINEAR_LS':
            exp['cost:Vx'] = g(q, 'Vx', cs)
            if not last: exp['cost:Vu'] = g(q, 'Vu', cs)
            if not last and m['cost:Vz', k].size: exp['cost:Vz'] = g(q, 'Vz', cs)
        for f in ('zl', 'zu', 'Zl', 'Zu'): exp['cost:' + f] = g(q, f, sf)
        exp['cost:scaling'] = np.asarray(st.o.solver_options.cost_scaling, float)[k:k + 1]
        exp['p'] = np.asarray(o.parameter_values, float)
        exp['u'] = np.zeros(m['u', k].size)
        for f, e in exp.items():
            v = m[f, k]
            ctx.require(v.size == e.size and np.array_equal(v.reshape(-1), e.reshape(-1)), 'initial:' + f, lambda: f'fresh solver: {f} at stage {k} reads {v.tolist()}, formulation has {e.tolist()}')
    if st.ph is None and np.size(st.o.p_global_values):
        st.npg = np.size(st.o.p_global_values); st.read['flat:p_global', None] = lambda: st.sol.get_flat('p_global'); m['flat:p_global', None] = np.array(st.o.p_global_values, float)
    return m


def k_store(case, ctx):
    st = Store(case, ctx); s = st.sol
    model = initial(ctx, st)
    compare(ctx, st, model, 'creation', 'creation')
    O = ops(st)
    ctx.sample(f'{len(O)} operations, {len(st.read)} readable fields')
    ctx.outcome(f'readable {len(st.read) // 50 * 50}+')
    for tag, (nm, f, k, do) in enumerate(O):      # walk: every operation once, each from a different store
        do(tag % 7, model); compare(ctx, st, model, nm, f'write:{f}'); ctx.trace()
    rep = [] if not case['pairs'] else [o for o in O if o[2] in ((1 if st.N > 1 else 0), None)] if case['pairs'] == 1 else O
    base = {k: v.copy() for k, v in model.items()}
    for a, b in itertools.product(rep, rep):       # all ordered pairs
        a[3](1, model); b[3](2, model)
        if case['pairs'] == 1 and (rep.index(a) + 3 * rep.index(b)) % 4: ctx.trans(2); continue
        compare(ctx, st, model, f'{a[0]}; {b[0]}', f'pair:{a[1]}')
        ctx.trace()
        if np.abs(model['x', 0]).max(initial=0) > 50: break
    # bounds switched off and on again
    for k in range(st.N + 1):
        for f in ('lbx', 'ubu', 'ug', 'lh', 'uphi'):
            if ('con:' + f, k) in model and model['con:' + f, k].size:
                keep = model['con:' + f, k].copy(); inf = np.full(keep.size, -1e10 if f[0] == 'l' else 1e10)
                for v in (inf, keep):
                    s.constraints_set(k, f, v); model['con:' + f, k] = v.copy(); model['lam', k] = model['lam', k] * mask(st, model, k)
                    l = pattern(np.zeros(model['lam', k].size), k); s.set(k, 'lam', l); model['lam', k] = l * mask(st, model, k)
                    compare(ctx, st, model, f'{f} at {k} set to {v.tolist()}', 'infinite-bound')
    # solving changes the iterate only
    data = {k: v for k, v in model.items() if k[0].startswith(('con:', 'cost:')) or k[0] in ('p', 'flat:p', 'flat:p_global')}
    for i in range(2):
        s.solve(); got = st.snap()
        for k, v in data.items(): ctx.require(np.array_equal(got[k].reshape(-1, order='F'), v.reshape(-1, order='F')), 'solve-changes-data', lambda: f'solve changed {k}: {v.tolist()} -> {got[k].tolist()}')
        for f in FLAT: ctx.require(np.array_equal(got['flat:' + f, None], flat(got, f, st.N)), 'flat-after-solve', lambda: f'get_flat({f}) after solve differs from the stage values')


# ------------------------------------------------------------------ array layouts
def layouts(v):
    v = np.array(v, float)
    yield 'C', np.ascontiguousarray(v)
    yield 'F', np.asfortranarray(v)
    big = np.full([2 * n for n in v.shape], 77.0); sl = tuple(slice(None, None, 2) for _ in v.shape); big[sl] = v; yield 'strided', big[sl]
    rev = tuple(slice(None, None, -1) for _ in v.shape); r = np.array(v[rev]); yield 'negative stride', r[rev]
    if v.ndim == 2: t = np.array(v.T); yield 'transposed view', t.T
    ro = v.copy(); ro.setflags(write=False); yield 'read-only', ro
    if np.array_equal(v.astype(np.float32).astype(float), v): yield 'float32', v.astype(np.float32)
    if np.array_equal(np.round(v), v): yield 'int', v.astype(int)


def k_layout(case, ctx):
    st = Store(case, ctx); s, N = st.sol, st.N
    model = initial(ctx, st)
    for k in (0, 1, N):
        for kind in ('int', 'frac'):
            def val(key, sym=False):
                v = model[key, k]; n = v.size
                e = (np.arange(1, n + 1) * (1.0 if kind == 'int' else 0.25)).reshape(v.shape, order='F')
                return e + e.T if sym else e
            W = [(f, f, lambda v, f=f: s.set(k, f, v), False) for f in ('x', 'u', 'sl', 'su', 'sens_x', 'sens_u', 'p') + (('pi', 'z') if k < N else ())]
            W += [('con:' + f, f, lambda v, f=f: s.set(k, f, v), False) for f in ('lbx', 'ubu')] + [('cost:yref', 'yref', lambda v: s.set(k, 'yref', v), False)] * (('cost:yref', k) in model)
            W += [('con:' + f, f'constraints_set {f}', lambda v, f=f: s.constraints_set(k, f, v, api='new'), False) for f in st.confields(k)]
            W += [('cost:' + f, f'cost_set {f}', lambda v, f=f: s.cost_set(k, f, v, api='new'), f in ('W', 'ext_cost_num_hess')) for f in st.costfields(k)]
            if st.npar[k]: W.append(('p', 'set_params_sparse', lambda v: s.set_params_sparse(k, np.arange(v.size), v), False)); W.append(('p', 'set_params_sparse reversed index view', lambda v: s.set_params_sparse(k, np.arange(v.size)[::-1], np.array(v[::-1])), False))
            for key, nm, fn, sym in W:
                for lay, v in layouts(val(key, sym)):
                    if 'sparse' in nm and v.dtype != float: continue
                    keep = np.array(v, float)
                    if not ctx.accepts(lambda: (fn(v), 1), f'layout-rejected:{nm}', f'{nm} at stage {k} with {lay} array'): continue
                    got = st.read[key, k](); mk = keep
                    ctx.require(np.array_equal(np.asarray(got).reshape(-1, order='F'), mk.reshape(-1, order='F')), f'layout:{nm}', lambda: f'{nm} at stage {k} with {lay} array {keep.tolist()}: reads {np.asarray(got).tolist()}')
                    ctx.require(np.array_equal(np.array(v, float), keep), f'layout-writes-argument:{nm}', f'{nm} changed its argument')
                    ctx.state(k, kind, nm, lay); ctx.trace()
    for f in FLAT:
        n = model['flat:' + f, None].size
        if f == 'lam' or not n: continue
        for kind, sc in (('int', 1.0), ('frac', 0.25)):
            for lay, v in layouts(np.arange(1, n + 1) * sc):
                keep = np.array(v, float)
                if ctx.accepts(lambda: (s.set_flat(f, v), 1), 'layout-rejected:set_flat', f'set_flat({f}) with {lay} array'): ctx.close(s.get_flat(f), keep, f'layout:set_flat', f'set_flat({f}) with {lay} array', 0, 0)
    if st.npg:
        for lay, v in layouts(np.arange(1, st.npg + 1) * 0.25):
            if v.dtype != float: continue
            keep = np.array(v, float); s.set_p_global_and_precompute_dependencies(v)
            g = s.get_flat('p_global'); ctx.close(g, keep, 'layout:p_global', f'set_p_global with {lay} array', 0, 0)
            if not ctx.accepts(lambda: (g.fill(99.0), 1), 'p_global-readonly', f'array read back after set_p_global with {lay} array'): continue
            ctx.close(s.get_flat('p_global'), keep, 'p_global-aliased', 'p_global read back after the returned array was modified', 0, 0)


# ------------------------------------------------------------------ rejected writes
def forked(fn):
    """('raised', msg) | ('accepted', '') | ('died', status); the effects stay in the child"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            try: out = fn()
            except BaseException as e: out = ('error', f'{type(e).__name__}: {e}')
            os.write(w, json.dumps(out).encode()[:60000]); os._exit(0)
        except BaseException: os._exit(99)
    os.close(w); b = b''
    while True:
        d = os.read(r, 65536)
        if not d: break
        b += d
    os.close(r); _, stt = os.waitpid(pid, 0)
    return json.loads(b) if b else ['died', stt]


def k_reject(case, ctx):
    st = Store(case, ctx); s, N = st.sol, st.N
    model = initial(ctx, st)
    bad = []
    def wrong(n):
        yield np.ones(n + 1), 'one entry too many'
        if n: yield np.ones(n - 1), 'one entry too few'
        yield np.ones(n + 20), 'twenty entries too many'
        if n: yield np.zeros(0), 'empty'
    for k in (0, 1, N):
        for f in ('x', 'u', 'sl', 'su', 'lam', 'p', 'sens_x', 'sens_u') + (('pi', 'z') if k < N else ()):
            for v, d in wrong(model[f, k].size): bad.append((f'set({k}, {f}), {d}', lambda k=k, f=f, v=v: s.set(k, f, v)))
        for f in ('lbx', 'ubx', 'lbu', 'ubu'):
            for v, d in wrong(model['con:' + f, k].size): bad.append((f'set({k}, {f}), {d}', lambda k=k, f=f, v=v: s.set(k, f, v)))
        for f in st.confields(k):
            e = model['con:' + f, k]
            vs = list(wrong(e.size)) if e.ndim == 1 else [(np.ones((e.shape[0] + 1, e.shape[1])), 'one row too many'), (np.ones((e.shape[0], e.shape[1] + 1)), 'one column too many'), (np.ones(e.size), 'flattened')] + ([(np.ones(e.shape[::-1]), 'transposed')] if e.shape[0] != e.shape[1] else [])
            if e.ndim == 1: vs.append((np.ones((e.size, 1)) if e.size else np.ones((1, 1)), 'two-dimensional'))
            for v, d in vs:
                if v.size or e.size: bad.append((f'constraints_set({k}, {f}), {d}', lambda k=k, f=f, v=v: s.constraints_set(k, f, v, api='new')))
        for f in st.costfields(k):
            e = model['cost:' + f, k]
            vs = list(wrong(e.size)) if e.ndim == 1 else [(np.ones((e.shape[0] + 1, e.shape[1])), 'one row too many'), (np.ones((e.shape[0], e.shape[1] + 1)), 'one column too many'), (np.ones(e.size), 'flattened')] + ([(np.ones(e.shape[::-1]), 'transposed')] if e.shape[0] != e.shape[1] else [])
            for v, d in vs:
                if v.size or e.size: bad.append((f'cost_set({k}, {f}), {d}', lambda k=k, f=f, v=v: s.cost_set(k, f, v, api='new')))
        np_ = st.npar[k]
        for idx in ([np_], [np_ + 50], [-1], [0, -1 - np_]):
            bad.append((f'set_params_sparse({k}, {idx})', lambda k=k, idx=idx: s.set_params_sparse(k, np.array(idx), np.ones(len(idx)))))
        bad.append((f'set_params_sparse({k}) sizes differ', lambda k=k: s.set_params_sparse(k, np.arange(2), np.ones(1))))
        for f in ('foo', 'X', '', 'lbxx', 'W'): bad.append((f'set({k}, {f!r})', lambda k=k, f=f: s.set(k, f, np.ones(2))))
        for f in ('foo', '', 'lbx', 'p', 'x'):
            bad.append((f'cost_set({k}, {f!r})', lambda k=k, f=f: s.cost_set(k, f, np.ones(2)))); bad.append((f'cost_get({k}, {f!r})', lambda k=k, f=f: s.cost_get(k, f)))
        for f in ('foo', '', 'yref', 'p', 'x'):
            bad.append((f'constraints_set({k}, {f!r})', lambda k=k, f=f: s.constraints_set(k, f, np.ones(2)))); bad.append((f'constraints_get({k}, {f!r})', lambda k=k, f=f: s.constraints_get(k, f)))
        for f in ('foo', '', 'lbx', 'yref'): bad.append((f'get({k}, {f!r})', lambda k=k, f=f: s.get(k, f)))
        if st.ctype(k) in ('CONVEX_OVER_NONLINEAR', 'EXTERNAL'):
            bad.append((f'cost_set({k}, W) without W', lambda k=k: s.cost_set(k, 'W', np.eye(model['cost:yref', k].size if ('cost:yref', k) in model else 2)))); bad.append((f'cost_get({k}, W) without W', lambda k=k: s.cost_get(k, 'W')))
        else: bad.append((f'cost_get({k}, ext_cost_num_hess) without it', lambda k=k: s.cost_get(k, 'ext_cost_num_hess')))
        if st.contype(k) == 'BGP': bad.append((f'constraints_get({k}, lh) for BGP', lambda k=k: s.constraints_get(k, 'lh')))
        else: bad.append((f'constraints_get({k}, uphi) for BGH', lambda k=k: s.constraints_get(k, 'uphi')))
    for k in (-1, N + 1, N + 100, 0.5, '0', None, 1.0):
        n = model['x', 0].size
        bad += [(f'set({k!r}, x)', lambda k=k: s.set(k, 'x', np.ones(n))), (f'get({k!r}, x)', lambda k=k: s.get(k, 'x')), (f'cost_set({k!r}, zl)', lambda k=k: s.cost_set(k, 'zl', np.zeros(0))), (f'cost_get({k!r}, scaling)', lambda k=k: s.cost_get(k, 'scaling')),
                (f'constraints_set({k!r}, lbx)', lambda k=k: s.constraints_set(k, 'lbx', np.ones(n))), (f'constraints_get({k!r}, lbx)', lambda k=k: s.constraints_get(k, 'lbx')), (f'set_params_sparse({k!r})', lambda k=k: s.set_params_sparse(k, np.array([0]), np.ones(1))),
                (f'get_from_qp_in({k!r}, Q)', lambda k=k: s.get_from_qp_in(k, 'Q'))]
    bad.append(('set(N, pi)', lambda: s.set(N, 'pi', np.ones(model['x', N].size)))); bad.append(('get(N, pi)', lambda: s.get(N, 'pi')))
    for f in ('xdot_guess', 'z_guess'): bad.append((f'set(N, {f})', lambda f=f: s.set(N, f, np.ones(model['x' if f[0] == 'x' else 'z', N - 1].size + 1)))); bad.append((f'set(0, {f}) wrong size', lambda f=f: s.set(0, f, np.ones(model['x' if f[0] == 'x' else 'z', 0].size + 1))))
    for f in FLAT:
        for v, d in wrong(model['flat:' + f, None].size): bad.append((f'set_flat({f}), {d}', lambda f=f, v=v: s.set_flat(f, v)))
    for f in ('foo', '', 'p_global', 'lbx'): bad.append((f'set_flat({f!r})', lambda f=f: s.set_flat(f, np.ones(2))))
    for f in ('foo', '', 'lbx'): bad.append((f'get_flat({f!r})', lambda f=f: s.get_flat(f))); bad.append((f'get_dim_flat({f!r})', lambda f=f: s.get_dim_flat(f)))
    for n in {0, 1, st.npg + 1, st.npg - 1} - {st.npg}:
        if n >= 0: bad.append((f'set_p_global with {n} of {st.npg}', lambda n=n: s.set_p_global_and_precompute_dependencies(np.ones(n))))
    for f in ('A', 'B', 'b', 'relaxed_A', 'relaxed_b', 'pcond_A'): bad.append((f'get_from_qp_in(N, {f})', lambda f=f: s.get_from_qp_in(N, f)))
    for f in ('foo', '', 'A '): bad.append((f'get_from_qp_in(0, {f!r})', lambda f=f: s.get_from_qp_in(0, f)))
    for f in ('foo', '', 'sqp_iters'): bad.append((f'get_stats({f!r})', lambda f=f: s.get_stats(f)))
    for f, v in (('foo', 1), ('', 1), ('tol_stat', 1), ('max_iter', 1.0), ('max_iter', 10 ** 6), ('rti_phase', 3), ('rti_phase', -1)): bad.append((f'options_set({f!r}, {v})', lambda f=f, v=v: s.options_set(f, v)))
    bad.append(("options_get('foo')", lambda: s.options_get('foo')))
    for nm, fn in bad:
        def child():
            try: fn()
            except Exception as e: r = 'raised'; m = f'{type(e).__name__}: {e}'
            else: r = 'accepted'; m = ''
            got = st.snap()
            diff = [f'{k[0]}@{k[1]}' for k, v in got.items() if not np.array_equal(v, model[k])]
            return [r, m[:200], diff[:5]]
        r = forked(child); fam = nm.split('(')[0] + ':' + (nm.split(', ')[1].split(')')[0].split(',')[0].strip("'") if ', ' in nm else '')
        ctx.trace(); ctx.trans(); ctx.state(nm); ctx.outcome(r[0])
        if r[0] != 'raised': ctx.viol('reject:' + fam, f'{nm}: {"not rejected" if r[0] == "accepted" else "process ended, status " + str(r[1])}')
        elif r[2]: ctx.viol('reject-changed:' + fam, f'{nm}: raised {r[1]} but changed {r[2]}')


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=300, chunk=1))
