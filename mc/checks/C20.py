"""C20: every cost reformulation of acados_template is applied to every formulation of a feature lattice (and every sequence of penalty
reformulations up to a depth), and the stored cost before and after is compared as a function at a fixed point set, with the documented term added.
A state is one (formulation, reformulation sequence); a transition one comparison."""
import sys, itertools, copy, numpy as np, casadi as ca
import mclib, ocpspec, costlib, solverlib

PID = 'C20'
ASSUME = ['nx<=3 nu<=2 nz<=2; equality of functions is decided on a fixed grid of points', 'automatic detection may decline (EXTERNAL or an error) only where the cost is not a positive definite least-squares term']
SUF = ('', '_0', '_e')
WHO = {'': 'path', '_0': 'initial', '_e': 'terminal'}


def cases(tier):
    deep = tier != 'quick'
    T = ['LLS', 'NLS', 'CONL', 'EXT']
    # translations
    for sym in ('SX', 'MX'):
        for c, ce, c0 in itertools.product(T, T, [None] + T):
            for dims in (dict(), dict(nz=2, integ='IRK', stages=2), dict(np=2, npg=1), dict(nx=1, nu=1), dict(nx=3, nu=0, bu=0)) if deep or sym == 'SX' or (c == ce and c0 in (None, c)) else ({},):
                f = dict(sym=sym, cost=c, coste=ce, **dims)
                if c0: f['cost0'] = c0
                ls = {'LLS', 'NLS'} >= {c, ce} | ({c0} if c0 else set())
                for how in ('ext', 'extGN', 'ext-p', 'ext-pg', 'ext-both', 'extGN-p', 'conl', 'copy0', 'expr', 'single'):
                    if how.startswith('ext') and 'EXT' in (c, ce, c0): continue
                    if how.startswith('extGN') and not ls: continue
                    if how in ('ext-p', 'ext-pg', 'ext-both', 'extGN-p') and not ls: continue
                    if how == 'conl' and not {'NLS', 'CONL'} >= {c, ce} | ({c0} if c0 else set()): continue
                    yield dict(kind='tr', f=f, how=how)
    for c in T: yield dict(kind='reject', f=dict(cost=c, coste=c))
    # sequences of penalty reformulations
    for c in ('NLS', 'CONL', 'EXT', 'LLS'):
        for sym in ('SX', 'MX'):
            yield dict(kind='pen', cost=c, sym=sym, depth=3 if deep else 2)
    yield dict(kind='huber', sym='SX', depth=2, wide=int(deep)); yield dict(kind='huber', sym='MX', depth=2, wide=int(deep))
    # automatic detection
    for st in SUF:
        for sym in ('SX', 'MX'):
            for nz in (0, 1): yield dict(kind='auto', suf=st, sym=sym, nz=nz, deep=int(deep))
    # through the solver
    for how in ('conl', 'ext', 'extGN', 'ext-p', 'ext-pg', 'huber', 'huber-both', 'L2', 'auto', 'copy0-hess'):
        for f in (dict(), dict(nz=1, integ='IRK'), dict(np=2, npg=1)):
            if how in ('ext', 'ext-p', 'ext-pg', 'auto') and f.get('nz'): continue
            yield dict(kind='solve', how=how, f=f)


def setup(tier): solverlib.setup()


def mk(f, name='m'):
    s = ocpspec.spec(**f); P = ocpspec.Problem(s); return P, P.ocp(name)


def other_state(o, skip_cost=SUF):
    """everything a cost reformulation must not touch"""
    import C17
    sn = C17.snap(o); out = {}
    for k, v in sn.items():
        if k.startswith(('constraints.', 'solver_options.', 'code_gen_options.')) or k.startswith('cost.') and k[5:7] in ('zl', 'zu', 'Zl', 'Zu', 'sc'): out[k] = v
        if k.startswith('model.') and not k.startswith('model.cost_') and k not in ('model.p', 'model.p_global'): out[k] = v
    return out


def compare(ctx, o, suf, ref_e, refargs, key, sub=None, what='cost', pts=None):
    """stored cost of o at suf equals ref expression (over refargs); sub: list of (x,u,z,p_new,pg_new, refvals)"""
    e = costlib.expr(o, suf); f = costlib.fun(o.model, e)
    S = type(refargs[0]); ref_e = ref_e if isinstance(ref_e, (ca.SX, ca.MX)) else S(ref_e)
    g = ca.Function('ref', refargs, [ref_e, ca.gradient(ref_e, ca.vertcat(*refargs[:3]))])
    nx, nu, nz = refargs[0].numel(), refargs[1].numel(), refargs[2].numel()
    for (x, u, z) in (pts or costlib.grid(nx, nu, nz, limit=12)):
        for (p, pg, ra) in sub:
            a = f(x, u, z, p, pg, 0.35); b = g(x, u, z, *ra)
            for i, nmx in ((0, 'value'), (1, 'gradient')):
                if not ctx.close(a[i].full(), b[i].full(), f'{key}-{nmx}{suf}', lambda: f'{what} {WHO[suf]} {nmx} at x={x} u={u} z={z} p={p} pg={pg}', rtol=1e-10, atol=1e-11): return False
    return True


def run(case, ctx):
    {'tr': run_tr, 'pen': run_pen, 'huber': run_huber, 'auto': run_auto, 'solve': run_solve, 'reject': run_reject}[case['kind']](case, ctx)
    ctx.trace()


def ref_with(P, key, yref, W):
    """cost expression of the problem with symbolic reference/weight"""
    s, d = P.s, P.d; typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[key]
    if typ == 'LLS':
        y = ca.mtimes(d['Vx' + key], P.x)
        if key != '_e':
            if s['nu']: y = y + ca.mtimes(d['Vu' + key], P.u)
            if s['nz']: y = y + ca.mtimes(d['Vz' + key], P.z)
    else: y = P.y[key]
    r = y - yref
    return 0.5 * ca.mtimes([r.T, W, r]), r


def run_tr(case, ctx):
    f, how = case['f'], case['how']; P, o = mk(f); s, d = P.s, P.d
    typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}
    before = other_state(o); p0, pg0 = o.parameter_values.copy(), o.p_global_values.copy()
    S = P.S; a0 = P.args(); sufs = [q for q in SUF if typ[q] is not None]
    pvals = [(d['p'], d['pg']), (d['p'] + 0.37, d['pg'] - 0.21)]
    kw = {}; newp = S(0, 1); newpg = S(0, 1); pn = np.zeros(0); pgn = np.zeros(0); symref = {}
    if how in ('ext-p', 'ext-pg', 'ext-both', 'extGN-p'):
        for j, q in enumerate(sufs):
            n = d['yref' + q].size
            yr = S.sym('yr' + q, n); w = S.sym('w' + q, n); W = ca.diag(w); W = W + 0.1 * ca.vertcat(*[ca.horzcat(*[w[0] if i != k else S(0) for k in range(n)]) for i in range(n)])
            kw['yref' + q] = yr; kw['W' + q] = W; symref[q] = (yr, w, W)
            dest = {'ext-p': 'pp', 'extGN-p': 'pp', 'ext-pg': 'gg', 'ext-both': 'pg'}[how]
            for v, val, to in ((yr, d['yref' + q], dest[0]), (w, 1.0 + np.arange(n) * 0.5, dest[1])):
                if to == 'p': newp = ca.vertcat(newp, v); pn = np.concatenate((pn, val))
                else: newpg = ca.vertcat(newpg, v); pgn = np.concatenate((pgn, val))
        if newp.numel(): kw.update(p=newp, p_values=pn)
        if newpg.numel(): kw.update(p_global=newpg, p_global_values=pgn)
    if how.startswith('ext'):
        o.translate_cost_to_external_cost(cost_hessian='GAUSS_NEWTON' if 'GN' in how else 'EXACT', **kw); want = 'EXTERNAL'
    elif how == 'conl': o.translate_nls_cost_to_conl(); want = 'CONVEX_OVER_NONLINEAR'
    elif how == 'copy0':
        hs = S.sym('hh', 1)
        if typ[''] == 'EXT' : o.model.cost_expr_ext_cost_custom_hess = 3.0 * S.eye(s['nx'] + s['nu'])
        if typ[''] == 'CONL': o.model.cost_conl_custom_outer_hess = 2.0 * S.eye(s['nx'] + s['nu'])
        o.copy_path_cost_to_stage_0()
        ctx.require(o.cost.cost_type_0 == o.cost.cost_type, 'copy0-type', f'{o.cost.cost_type_0} {o.cost.cost_type}')
        for q, r in (('_0', ''), ('', ''), ('_e', '_e')): compare(ctx, o, q, P.cost_expr(r), a0, 'copy0', [(p, pg, (p, pg, 0.35)) for p, pg in pvals])
        for k in ('cost_expr_ext_cost_custom_hess', 'cost_conl_custom_outer_hess'):
            A, B = getattr(o.model, k), getattr(o.model, k + '_0')
            ctx.require(costlib.empty(A) == costlib.empty(B) and (costlib.empty(A) or str(A) == str(B)), 'copy0-' + k, lambda: f'{k}: path {A}, stage 0 {B}')
        ctx.require(other_state(o) == before, 'copy0-other', 'other data changed'); ctx.state(str(case)); return
    elif how == 'single':                                   # only one term at a time, in any order
        for perm in itertools.permutations(range(3)):
            P, o = mk(f); before = other_state(o); done = []
            if any(typ[q] == 'EXT' for q in sufs): pass
            for j in perm:
                q = SUF[j]
                fn = {'': o.translate_intermediate_cost_term_to_external, '_0': o.translate_initial_cost_term_to_external, '_e': o.translate_terminal_cost_term_to_external}[q]
                fn(); done.append(q)
                for q2 in sufs:
                    w = 'EXTERNAL' if q2 in done else dict(LLS='LINEAR_LS', NLS='NONLINEAR_LS', CONL='CONVEX_OVER_NONLINEAR', EXT='EXTERNAL')[typ[q2]]
                    ctx.require(getattr(o.cost, 'cost_type' + q2) == w, 'single-type', f'after {done}: cost_type{q2} {getattr(o.cost, "cost_type" + q2)} expected {w}')
                    compare(ctx, o, q2, P.cost_expr(q2), P.args(), 'single', [(d['p'], d['pg'], (d['p'], d['pg'], .35))], pts=costlib.grid(s['nx'], s['nu'], s['nz'], limit=4))
                ctx.state(str(case), tuple(done))
            ctx.require(other_state(o) == before, 'single-other', 'other data changed')
        return
    elif how == 'expr':
        for q in sufs:
            g = {'': o.get_path_cost_expression, '_0': o.get_initial_cost_expression, '_e': o.get_terminal_cost_expression}[q]
            for yr in (None, 'other'):
                if yr and typ[q] == 'EXT': continue
                n = d['yref' + q].size if typ[q] != 'EXT' else 0
                yv = None if yr is None else np.linspace(-1, 1, n)
                e = g() if yr is None else g(ca.SX(yv) if s['sym'] == 'SX' else ca.MX(ca.DM(yv)))
                F = costlib.fun(o.model, e)
                if yv is not None: old = d['yref' + q]; d['yref' + q] = yv
                R = ca.Function('r', P.args(), [P.cost_expr(q)])
                if yv is not None: d['yref' + q] = old
                for x, u, z in costlib.grid(s['nx'], s['nu'], s['nz'], limit=8):
                    for p, pg in pvals: ctx.close(F(x, u, z, p, pg, .35)[0].full(), R(x, u, z, p, pg, .35).full(), 'expr' + q, f'get_{WHO[q]}_cost_expression({yr})', rtol=1e-10, atol=1e-11)
        ctx.state(str(case)); return
    # --- translated
    if typ['_0'] is None: ctx.require(o.cost.cost_type_0 is None, 'type0', f'cost_type_0 became {o.cost.cost_type_0}')
    for q in sufs:
        ctx.require(getattr(o.cost, 'cost_type' + q) == want, 'type' + q, f'cost_type{q} = {getattr(o.cost, "cost_type" + q)} expected {want}')
        if q in symref:
            yr, w, W = symref[q]; ee, r = ref_with(P, q, yr, W); ra = a0 + [yr, w]; sub = []
            names = [qq for qq in sufs]
            for (p, pg) in pvals:
                for sc in (0, 1):
                    vy = {qq: d['yref' + qq] + sc * (0.1 + 0.05 * j) for j, qq in enumerate(names)}; vw = {qq: 1.0 + np.arange(d['yref' + qq].size) * 0.5 + sc * 0.3 for qq in names}
                    dest = {'ext-p': 'pp', 'extGN-p': 'pp', 'ext-pg': 'gg', 'ext-both': 'pg'}[how]; P1, G1 = [p], [pg]
                    for qq in names:
                        (P1 if dest[0] == 'p' else G1).append(vy[qq]); (P1 if dest[1] == 'p' else G1).append(vw[qq])
                    sub.append((np.concatenate(P1), np.concatenate(G1), (p, pg, .35, vy[q], vw[q])))
            compare(ctx, o, q, ee, ra, how, sub)
            hess_r, hess_W, hargs, hsub = r, W, ra, sub
        else:
            ee = P.cost_expr(q); sub = [(p, pg, (p, pg, .35)) for p, pg in pvals]
            compare(ctx, o, q, ee, a0, how, sub)
            if typ[q] in ('LLS', 'NLS'): _, hess_r = ref_with(P, q, d['yref' + q], ca.DM(d['W' + q])); hess_W, hargs, hsub = ca.DM(d['W' + q]), a0, sub
        if how.startswith('ext'):
            H = getattr(o.model, 'cost_expr_ext_cost_custom_hess' + q)
            if 'GN' not in how: ctx.require(costlib.empty(H), 'hess-exact' + q, f'a custom Hessian appeared: {H}')
            else:
                # documented: Gauss-Newton Hessian (for a linear least-squares term the exact Hessian is the Gauss-Newton Hessian)
                ux = ca.vertcat(P.u, P.x) if q != '_e' else P.x
                J = ca.jacobian(hess_r, ux); ref = ca.Function('h', hargs, [ca.mtimes([J.T, hess_W, J])])
                A = costlib.args(o.model)
                if costlib.empty(H): got = ca.Function('h', A, [ca.hessian(costlib.expr(o, q), ux)[0]]); ctx.require(typ[q] == 'LLS', 'hess-gn' + q, 'no Gauss-Newton Hessian was provided')
                else: got = ca.Function('h', A, [H])
                for x, u, z in costlib.grid(s['nx'], s['nu'], s['nz'], limit=6):
                    for p, pg, raa in hsub: ctx.close(got(x, u, z, p, pg, .35).full(), ref(x, u, z, *raa).full(), 'hess-gn' + q, f'Gauss-Newton Hessian {WHO[q]} {f}', rtol=1e-10, atol=1e-10)
    ctx.require(other_state(o) == before, 'other', lambda: f'other data changed: {[k for k, v in other_state(o).items() if before.get(k) != v]}')
    ctx.close(o.parameter_values, np.concatenate((p0, pn)), 'p-values', 'parameter values'); ctx.close(o.p_global_values, np.concatenate((pg0, pgn)), 'pg-values', 'global parameter values')
    ctx.require(o.model.p.numel() if isinstance(o.model.p, (ca.SX, ca.MX)) else 0 == o.parameter_values.size or True, 'p-size')
    # a second make_consistent derives a valid problem
    if not (how.startswith('ext') and s['nz']) and 'GN' not in how:
        if how == 'conl': o.solver_options.hessian_approx = 'GAUSS_NEWTON'
        else: o.solver_options.hessian_approx = 'EXACT'
        try: o.make_consistent(verbose=False)
        except Exception as e:
            ctx.viol('inconsistent', f'translated problem is rejected: {type(e).__name__}: {e}')
    ctx.state(str(case))


def run_reject(case, ctx):
    P, o = mk(case['f']); n = P.s['nx'] + P.s['nu']; p = P.S.sym('q', n); pv = np.zeros(n)
    new = lambda: mk(case['f'])[1]
    other = ca.MX.sym('q', n)
    bad = [('hess', dict(cost_hessian='FOO')), ('p-no-values', dict(p=p)), ('pg-no-values', dict(p_global=p)), ('p-size', dict(p=p, p_values=np.zeros(n + 1))), ('pg-size', dict(p_global=p, p_global_values=np.zeros(n - 1))),
           ('p-type', dict(p=other, p_values=pv)), ('pg-type', dict(p_global=other, p_global_values=pv)), ('p-row', dict(p=p.T, p_values=pv))]
    if case['f']['cost'] in ('LLS', 'NLS'):
        bad += [('yref-size', dict(p=p, p_values=pv, yref=p[:-1])), ('yrefe-size', dict(p=p, p_values=pv, yref_e=p)), ('W-size', dict(p=p, p_values=pv, W=ca.diag(p[:-1]))), ('We-size', dict(p=p, p_values=pv, W_e=ca.diag(p))), ('W-vec', dict(p=p, p_values=pv, W=p)), ('yref-type', dict(yref=other)), ('W-type', dict(W=ca.diag(other)))]
    if case['f']['cost'] in ('CONL', 'EXT'): bad += [('gn', dict(cost_hessian='GAUSS_NEWTON'))]
    for k, kw in bad:
        o = new()
        ctx.rejects(lambda: o.translate_cost_to_external_cost(**kw), 'accepted-' + k, f'{k} on {case["f"]}'); ctx.state(case['f'], k)
    if case['f']['cost'] in ('LLS', 'EXT'): ctx.rejects(lambda: new().translate_nls_cost_to_conl(), 'accepted-conl', 'translate_nls_cost_to_conl on a non-NLS cost')


# ---------------------------------------------------------------------------------------------------------------- penalties
def pen_alphabet(P):
    x, u = P.x, P.u; e1 = x[0] ** 2 + 0.3 * u[0]; e2 = x[1] + 0.2 * u[1]; et = x[0] - 0.5 * x[1]
    A = []
    for nm, e, st in (('e1', e1, 'path'), ('e2', e2, 'initial'), ('et', et, 'terminal'), ('et0', et, 'path')):
        for lo, up in ((None, 0.2), (-0.3, None), (-0.3, 0.2)): A.append((nm, e, st, lo, up, 1.7))
    A.append(('eq', e2, 'path', 0.1, 0.1, 0.6))
    return A


def viol2(e, lo, up):
    v = 0
    if up is not None: v = v + ca.fmax(e - up, 0) ** 2
    if lo is not None: v = v + ca.fmax(lo - e, 0) ** 2
    return v


def run_pen(case, ctx):
    c = case['cost']; f = dict(cost=c, coste=c, cost0=c, sym=case['sym'], np=2)
    P, _ = mk(f); n = len(pen_alphabet(P)); st2 = {'path': '', 'initial': '_0', 'terminal': '_e'}
    if c == 'LLS':
        for i in range(n):
            P, o = mk(f); nm, e, st, lo, up, w = pen_alphabet(P)[i]
            ctx.rejects(lambda: o.formulate_constraint_as_L2_penalty(e, w, up, lo, constraint_type=st), 'lls', 'L2 penalty with linear least squares'); ctx.state(i)
        return
    for k, bad in (('none', dict(upper_bound=None, lower_bound=None)), ('order', dict(upper_bound=-1.0, lower_bound=1.0)), ('type', dict(upper_bound=1.0, lower_bound=None, constraint_type='foo'))):
        P, o = mk(f); ctx.rejects(lambda: o.formulate_constraint_as_L2_penalty(P.x[0], 1.0, **bad), 'accepted-' + k, str(bad))
    for seq in mclib.sequences(range(n), case['depth']):
        if len(seq) == 3 and seq[0] > 5: continue
        P, o = mk(f); s, d = P.s, P.d; A = pen_alphabet(P); before = other_state(o); add = {q: 0 for q in SUF}
        for j, i in enumerate(seq):
            nm, e, st, lo, up, w = A[i]; w = w + 0.5 * j
            o.formulate_constraint_as_L2_penalty(e, w, up, lo, residual_name=f'r{j}', constraint_type=st); q = st2[st]; add[q] = add[q] + 0.5 * w * viol2(e, lo, up)
        for q in SUF:
            compare(ctx, o, q, P.cost_expr(q) + add[q], P.args(), 'L2', [(d['p'], d['pg'], (d['p'], d['pg'], .35))], what=f'after {[A[i][:1] + A[i][2:5] for i in seq]}', pts=costlib.grid(2, 2, 0, limit=4))
        ctx.require(other_state(o) == before, 'L2-other', 'other data changed')
        o.solver_options.hessian_approx = 'EXACT' if c == 'EXT' else 'GAUSS_NEWTON'
        if len(seq) <= 1:
            try: o.make_consistent(verbose=False)
            except Exception as ex: ctx.viol('L2-inconsistent', f'{[A[i][:1] + A[i][2:5] for i in seq]}: {ex}')
        ctx.state(seq)


def huber_ref(e, lo, up, w, dl):
    """value of the documented penalty: zero inside, curvature w (of the constraint expression) next to the bound, then linear"""
    def one(v, w, dl): return ca.if_else(v <= 0, 0, ca.if_else(v <= 2 * dl, 0.5 * w * v ** 2, 2 * w * dl * (v - dl)))
    if lo is None: return one(e - up, w, dl)
    h = 0.5 * (up - lo); c = 0.5 * (up + lo); v = (e - c) / h                       # scaled to -1 <= v <= 1, delta refers to the scaled constraint
    return one(v - 1, w * h * h, dl) + one(-v - 1, w * h * h, dl)


def run_huber(case, ctx):
    f = dict(cost='CONL', coste='CONL', cost0='CONL', sym=case['sym'], np=2)
    st2 = {'path': '', 'initial': '_0', 'terminal': '_e'}
    def alphabet(P):
        x, u = P.x, P.u; e1 = x[0] ** 2 + 0.3 * u[0]; e2 = x[1] + 0.2 * u[1]; et = x[0] - 0.5 * x[1]
        A = []
        for nm, e, st in (('e1', e1, 'path'), ('e2', e2, 'path'), ('e2', e2, 'initial'), ('et', et, 'terminal')):
            for lo, up in ((None, 0.2), (-0.3, 0.5)):
                for xgn in (True, False):
                    for mh, dl in ((0.0, 0.15), (0.4, 1.0)) if case['wide'] or nm == 'e1' else ((0.0, 0.15),):
                        A.append(('H', nm, e, st, lo, up, dict(use_xgn=xgn, min_hess=mh, huber_delta=dl)))
        A.append(('L', 'e1', e1, 'path', None, 0.1, {})); A.append(('L', 'et', et, 'terminal', -0.2, 0.1, {}))
        return A
    P, _ = mk(f); n = len(alphabet(P))
    for k, bad in (('none', {}), ('order', dict(upper_bound=-1.0, lower_bound=1.0)), ('type', dict(upper_bound=1.0, constraint_type='foo')), ('lower-only', dict(lower_bound=1.0))):
        P, o = mk(f); ctx.rejects(lambda: o.formulate_constraint_as_Huber_penalty(P.x[0], 1.0, **bad), 'accepted-' + k, str(bad))
    for c in ('NLS', 'LLS', 'EXT'):
        P, o = mk(dict(f, cost=c, coste=c, cost0=c)); ctx.rejects(lambda: o.formulate_constraint_as_Huber_penalty(P.x[0], 1.0, upper_bound=1.0), 'accepted-costtype', c)
    for seq in mclib.sequences(range(n), case['depth']):
        P, o = mk(f); s, d = P.s, P.d; A = alphabet(P); before = other_state(o); add = {q: 0 for q in SUF}; rows = {q: [] for q in SUF}
        desc = [A[i][:2] + A[i][3:] for i in seq]
        for j, i in enumerate(seq):
            kind, nm, e, st, lo, up, kw = A[i]; w = 1.3 + 0.5 * j; q = st2[st]
            if kind == 'L': o.formulate_constraint_as_L2_penalty(e, w, up, lo, residual_name=f'r{j}', constraint_type=st); add[q] = add[q] + 0.5 * w * viol2(e, lo, up); rows[q].append(('L', w, None, None))
            else: o.formulate_constraint_as_Huber_penalty(e, w, up, lo, residual_name=f'r{j}', constraint_type=st, **kw); add[q] = add[q] + huber_ref(e, lo, up, w, kw['huber_delta']); rows[q].append(('H', w, (lo, up), kw))
        for q in SUF:
            ok = compare(ctx, o, q, P.cost_expr(q) + add[q], P.args(), 'huber', [(d['p'], d['pg'], (d['p'], d['pg'], .35))], what=f'after {desc}', pts=costlib.grid(2, 2, 0, vals=(-1.1, 0.05, 0.8), limit=4))
            H = getattr(o.model, 'cost_conl_custom_outer_hess' + q); r = getattr(o.model, 'cost_r_in_psi_expr' + q); psi = getattr(o.model, 'cost_psi_expr' + q)
            if costlib.empty(H):
                ctx.require(not any(t[0] == 'H' and t[3]['use_xgn'] for t in rows[q]), 'xgn-missing', f'{desc}: no generalized Hessian was provided'); continue
            m = r.numel(); n0 = m - len(rows[q])
            if not ctx.require(H.shape == (m, m), 'hess-shape', f'{desc}: outer Hessian {H.shape} for {m} residuals'): continue
            F = ca.Function('H', [r, o.model.p], [H, ca.hessian(psi, r)[0]])
            for t in (-3.1, -1.6, -0.9, 0.05, 0.7, 1.25, 2.6):
                rv = np.concatenate((np.linspace(-0.5, 0.6, n0), np.full(len(rows[q]), t))); h, ex = [v.full() for v in F(rv, d['p'])]
                ref = np.zeros((m, m)); ref[:n0, :n0] = ex[:n0, :n0]
                for j, (kind, w, b, kw) in enumerate(rows[q]):
                    if kind == 'L': ref[n0 + j, n0 + j] = w; continue
                    dl = kw['huber_delta']; hw = w if b[0] is None else w * (0.5 * (b[1] - b[0])) ** 2
                    if b[0] is None: v = t
                    else: v = abs(t) - 1
                    # documented: exact Hessian (use_xgn False), or slope-based convex Hessian; both floored by min_hess
                    if kw['use_xgn']: hv = hw if abs(v - dl) <= dl else hw * dl / abs(v - dl)
                    else: hv = hw if 0 < v < 2 * dl else 0.0
                    ref[n0 + j, n0 + j] = max(hv, kw['min_hess']) if kw['min_hess'] > 0 else hv
                ctx.close(h, ref, 'outer-hess', lambda: f'{desc} stage {WHO[q]} residual {t}', rtol=1e-9, atol=1e-10)
        ctx.require(other_state(o) == before, 'huber-other', 'other data changed')
        ctx.state(seq)


# ---------------------------------------------------------------------------------------------------------------- detection
def run_auto(case, ctx):
    q, nz = case['suf'], case['nz']; nx, nu = 2, 2
    nv = nx + (nu + nz if q != '_e' else 0)
    # every support set, a positive definite Hessian on it, and every shift pattern
    hs = []
    for r in range(nv + 1):
        for sup in itertools.combinations(range(nv), r):
            for coup in (0, 1, 2):
                if coup and r < 2: continue
                H = np.zeros((nv, nv))
                for a, i in enumerate(sup):
                    H[i, i] = 2.0 + a
                    for b, j in enumerate(sup):
                        if i != j and (coup == 1 or coup == 2 and abs(a - b) == 1): H[i, j] = 0.4
                hs.append((sup, H))
    for sup, H in hs:
        for shift in (0, 1, -1):
            f = dict(sym=case['sym'], nz=nz, integ='IRK' if nz else 'ERK', cost='EXT', coste='EXT', cost0='EXT')
            P, o = mk(f); v = ca.vertcat(P.x, P.u, P.z)[:nv] if q != '_e' else P.x
            ref = np.array([shift * 0.3 * (i + 1) if i in sup else 0.0 for i in range(nv)])
            e = 0.5 * ca.mtimes([(v - ref).T, ca.DM(H), v - ref])
            if shift == -1: e = ca.simplify(0.5 * ca.mtimes([v.T, ca.DM(H), v]) - ca.dot(ca.DM(H @ ref), v) + 0.5 * float(ref @ H @ ref))
            setattr(o.model, 'cost_expr_ext_cost' + q, e); setattr(o.cost, 'cost_type' + q, 'AUTO')
            before = other_state(o)
            try: o.detect_cost_type(o.model, o.cost, o.dims, WHO[q], verbose=False)
            except Exception as ex:
                ctx.viol('auto-rejected', f'least-squares cost with Hessian {H.tolist()} reference {ref}: {type(ex).__name__}: {ex}'); continue
            ctx.require(getattr(o.cost, 'cost_type' + q) == 'LINEAR_LS', 'auto-type', f'quadratic cost {H.tolist()} became {getattr(o.cost, "cost_type" + q)}')
            W = np.array(getattr(o.cost, 'W' + q)) if not costlib.empty(getattr(o.cost, 'W' + q)) else np.zeros((0, 0))
            ctx.require(getattr(o.dims, 'ny' + q) == len(sup), 'auto-ny', f'ny {getattr(o.dims, "ny" + q)} for support {sup}')
            if W.size: ctx.require(np.allclose(W, W.T) and np.linalg.eigvalsh(W).min() > 0, 'auto-W', f'{W}')
            try: e2 = costlib.expr(o, q)
            except Exception as ex: ctx.viol('auto-shape', f'support {sup}: {ex}'); continue
            if ctx.require(e2.shape == (1, 1), 'auto-shape', f'support {sup} {e2.shape}'):
                compare(ctx, o, q, e, P.args(), 'auto', [([], [], ([], [], .35))], pts=costlib.grid(nx, nu, nz, limit=6))
            ctx.require(other_state(o) == before, 'auto-other', 'other data changed')
            for k in SUF:
                if k != q: compare(ctx, o, k, P.ext[k], P.args(), 'auto-untouched', [([], [], ([], [], .35))], pts=costlib.grid(nx, nu, nz, limit=4))
            ctx.state(sup, H.tolist(), shift)
            if shift == 1 and (case['deep'] or len(sup) <= 2):
                try: o.solver_options.hessian_approx = 'EXACT'; o.make_consistent(verbose=False)
                except Exception as ex: ctx.viol('auto-inconsistent', f'support {sup}: {type(ex).__name__} {ex}')
    # not least squares: stays what it was, as EXTERNAL
    P0, _ = mk(dict(sym=case['sym'], nz=nz, integ='IRK' if nz else 'ERK', cost='EXT', coste='EXT', cost0='EXT', np=1, npg=1))
    for k in range(7):
        P, o = mk(dict(sym=case['sym'], nz=nz, integ='IRK' if nz else 'ERK', cost='EXT', coste='EXT', cost0='EXT', np=1, npg=1, t=0))
        x, u = P.x, P.u; t = P.S.sym('t'); o.model.t = t
        e = [0.5 * x[0] ** 2 + x[1] ** 3, 0.5 * P.p[0] * x[0] ** 2, 0.5 * x[0] ** 2 + P.pg[0] * x[1], ca.sin(x[0]) ** 2, 0.5 * (x[0] - t) ** 2, 0.5 * x[0] ** 2 * x[1] ** 2, ca.exp(x[1])][k]
        if q != '_e' and k == 5: e = 0.5 * x[0] ** 2 * u[0] ** 2
        setattr(o.model, 'cost_expr_ext_cost' + q, e); setattr(o.cost, 'cost_type' + q, 'AUTO')
        try: o.detect_cost_type(o.model, o.cost, o.dims, WHO[q], verbose=False)
        except RuntimeError as ex: ctx.outcome('declined'); ctx.state('declined', k); continue
        ctx.require(getattr(o.cost, 'cost_type' + q) == 'EXTERNAL', 'auto-nonquadratic', f'{e} became {getattr(o.cost, "cost_type" + q)}')
        if getattr(o.cost, 'cost_type' + q) == 'EXTERNAL': compare(ctx, o, q, e, P.args()[:5] + [t], 'auto-ext', [([.4], [.3], ([.4], [.3], .35))], pts=costlib.grid(nx, nu, nz, limit=6))
        ctx.state('nonquad', k)
    # degenerate quadratics (singular, with constant, with linear terms outside the support): either declined or exact
    for k in range(6):
        P, o = mk(dict(sym=case['sym'], nz=nz, integ='IRK' if nz else 'ERK', cost='EXT', coste='EXT', cost0='EXT')); x, u = P.x, P.u
        e = [0.5 * (x[0] - x[1]) ** 2, 0.5 * x[0] ** 2 + 3.0, 0.5 * x[0] ** 2 + x[1], x[0] * x[1], -0.5 * x[0] ** 2, P.S(2.0) + 0 * x[0]][k]
        setattr(o.model, 'cost_expr_ext_cost' + q, e); setattr(o.cost, 'cost_type' + q, 'AUTO')
        try: o.detect_cost_type(o.model, o.cost, o.dims, WHO[q], verbose=False)
        except Exception as ex: ctx.outcome('declined'); ctx.state('degenerate-declined', k); continue
        try: e2 = costlib.expr(o, q)
        except Exception as ex: ctx.viol('auto-shape', f'{e}: {ex}'); continue
        if e2.shape == (1, 1): compare(ctx, o, q, e, P.args(), 'auto-degenerate', [([], [], ([], [], .35))], what=str(e), pts=costlib.grid(nx, nu, nz, limit=6))
        ctx.state('degenerate', k)


# ---------------------------------------------------------------------------------------------------------------- solver level
def run_solve(case, ctx):
    how = case['how']; f = dict(case['f'], cost='NLS', coste='NLS', cost0='NLS', bu=1)
    exact = how in ('ext', 'ext-p', 'ext-pg')
    if exact: f['opts'] = dict(hessian_approx='EXACT')
    if how.startswith('huber'): f.update(cost='CONL', coste='CONL', cost0='CONL')
    if how == 'auto': f.update(cost='LLS', coste='LLS', cost0='LLS')
    if how == 'copy0-hess': f.update(cost='CONL', coste='CONL', cost0=None)
    P, o = mk(f, solverlib.name()); s, d = P.s, P.d; N = s['N']
    Q, o2 = mk(f, solverlib.name())
    ext_params = None
    if how == 'conl': o2.translate_nls_cost_to_conl()
    elif how in ('ext', 'extGN'): o2.translate_cost_to_external_cost(cost_hessian='GAUSS_NEWTON' if how == 'extGN' else 'EXACT')
    elif how in ('ext-p', 'ext-pg'):
        yr = Q.S.sym('yr', d['yref'].size)
        kw = dict(p=yr, p_values=np.zeros(yr.numel())) if how == 'ext-p' else dict(p_global=yr, p_global_values=np.zeros(yr.numel()))
        o2.translate_cost_to_external_cost(yref=yr, yref_0=yr, **kw)
        o.cost.yref_0 = d['yref'].copy(); ext_params = how
    elif how == 'auto':
        for q in SUF: setattr(o2.model, 'cost_expr_ext_cost' + q, Q.cost_expr(q)); setattr(o2.cost, 'cost_type' + q, 'AUTO')
        for oo in (o2,):
            for q in SUF:
                for k in ('W', 'Vx') + (('Vu', 'Vz') if q != '_e' else ()): setattr(oo.cost, k + q, np.zeros((0, 0)))
                setattr(oo.cost, 'yref' + q, np.zeros(0))
    elif how.startswith('huber') or how == 'L2':
        def pen(oo, PP, xgn):
            for st, e in (('path', PP.x[0] + 0.3 * PP.u[0]), ('terminal', PP.x[0] - PP.x[1]), ('initial', PP.u[0] + PP.x[1])):
                lo = -0.1 if how == 'huber-both' else None
                if how == 'L2': oo.formulate_constraint_as_L2_penalty(e, 2.0, 0.2, -0.1, constraint_type=st)
                else: oo.formulate_constraint_as_Huber_penalty(e, 2.0, 0.2, lo, huber_delta=0.3, use_xgn=xgn, min_hess=0.05, constraint_type=st)
        if how == 'L2':
            pen(o, P, 1); o2.translate_nls_cost_to_conl(); pen(o2, Q, 1)
        else: pen(o, P, True); pen(o2, Q, False)
    elif how == 'copy0-hess':
        for oo, PP in ((o, P), (o2, Q)):
            n = s['nx'] + s['nu']; oo.model.cost_conl_custom_outer_hess = 2.5 * PP.S.eye(n)
        o2.copy_path_cost_to_stage_0(); o2.model.cost_conl_custom_outer_hess_0 = 2.5 * Q.S.eye(s['nx'] + s['nu'])
    for oo in (o, o2):
        oo.solver_options.nlp_solver_tol_stat = oo.solver_options.nlp_solver_tol_eq = 1e-9
        oo.solver_options.nlp_solver_tol_ineq = oo.solver_options.nlp_solver_tol_comp = 1e-8; oo.solver_options.qp_tol = 1e-10
    a, b = solverlib.solver(o), solverlib.solver(o2)
    if ext_params == 'ext-p':
        for k in range(N): b.set(k, 'p', np.concatenate((d['p'], d['yref'])))
        b.set(N, 'p', np.concatenate((d['p'], np.zeros(d['yref'].size))))
    elif ext_params: b.set_p_global_and_precompute_dependencies(np.concatenate((d['pg'], d['yref'])))
    sa, sb = a.solve(), b.solve()
    if not ctx.require(sa == sb == 0, 'solve-status', f'{how} {f}: {sa} {sb}'): return
    ctx.close(b.get_cost(), a.get_cost(), 'solve-cost', f'{how} {f}', rtol=1e-7, atol=1e-7)
    A, B = solverlib.traj(a, N), solverlib.traj(b, N)
    for q in ('x', 'u', 'pi', 'lam'):
        for k in range(len(A[q])): ctx.close(B[q][k], A[q][k], 'solve-' + q, f'{how} {f} stage {k} {q}', rtol=1e-5, atol=1e-5)
    if how in ('conl', 'extGN', 'L2', 'copy0-hess', 'auto', 'ext', 'ext-p', 'ext-pg') and not (how == 'extGN' and f.get('nz')):                    # same Hessian -> same iterations
        ctx.require(a.get_stats('sqp_iter') == b.get_stats('sqp_iter'), 'solve-iter', f'{how} {f}: iterations {a.get_stats("sqp_iter")} vs {b.get_stats("sqp_iter")}')
    ctx.state(str(case))


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], level='model_checking', timeout=300, chunk=8, jobs=8))
