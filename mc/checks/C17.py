"""C17: every formulation of the feature lattice is made consistent and all derived dimensions, defaults and user data are compared with
an independent derivation; then every datum of the formulation is corrupted in every elementary way (one entry/row/column more or fewer,
index out of range, wrong expression length) and must be rejected.  A state is one (formulation, corruption) pair."""
import sys, copy, numpy as np, casadi as ca
import mclib, solverlib, ocpspec

PID = 'C17'
ASSUME = ['nx<=3 nu<=2 nz<=2, at most two constraints per group', 'rejection may happen when the datum is assigned or when the formulation is made consistent']
ALTS = dict(
    cost=['LLS', 'CONL', 'EXT'], coste=['LLS', 'CONL', 'EXT'], cost0=['LLS', 'NLS', 'CONL', 'EXT'], integ=['IRK', 'DISCRETE', 'IRKZ', 'IRKZ2'],
    par=['p', 'pg', 'both'], t=[1], sym=['MX'], N=[1, 4], grid=['steps', 'nodes'], dim=['x1', 'x3', 'u1', 'u0'], scaling=['custom'], x0=['box', 'none', 'partial', 'eqpart'],
    bu=[0, 2], bx=[1, 2], bxe=[1, 2], lin=['g', 'gge', 'ge'], nl=['h', 'hh', 'h0', 'he', 'hall', 'phi', 'phie', 'phiall'], slack=['most', 'all', 'rev', 'shared'], onesided=[1])
import C01
MOST, ALLSOFT = C01.MOST, C01.ALLSOFT


def expand(c):
    k = {f: v for f, v in c.items() if f not in ('slack',)}
    sl = c.get('slack')
    s = C01.expand(k)
    s.update({None: {}, 'most': dict(soft=MOST), 'all': dict(soft=ALLSOFT), 'rev': dict(soft=MOST, rev=1), 'shared': dict(soft=ALLSOFT, rev=2)}[sl])
    return s


def cases(tier):
    base = dict(bu=1)
    if True:
        l2 = list(mclib.lattice(base, ALTS, 2 if tier == 'quick' else 3))
        full = [dict(bu=2, bx=2, bxe=2, lin='gge', nl=nl, slack=sl, par='both', integ=i, **x) for nl in ('hall', 'phiall') for sl in ('most', 'all', 'rev', 'shared') for i in ('IRKZ2', 'ERKx')
                for x in ({}, dict(cost='LLS', coste='LLS'), dict(cost='CONL', coste='CONL', cost0='NLS'), dict(cost='EXT', coste='EXT', cost0='LLS'), dict(cost='LLS', coste='EXT', cost0='CONL', grid='nodes', scaling='custom'))]
        for c in full:
            if c['integ'] == 'ERKx': del c['integ']
        for b in l2 + full: yield dict(kind='valid', base=b)
        for b in list(mclib.lattice(base, ALTS, 1 if tier == 'quick' else 2)) + full: yield dict(kind='corrupt', base=b)
        for b in ({}, dict(coste='LLS'), dict(coste='EXT'), dict(bxe=2, lin='ge', nl='he', slack='most'), dict(nl='phie', coste='CONL')): yield dict(kind='terminal-only', base=b)


def setup(tier): solverlib.setup()


def make(s, name='m'):
    o = ocpspec.Problem(s).ocp(name); o.code_gen_options.json_file = '/tmp/x.json'; return o


def expected(P):
    s = P.s; n = P.ncon; e = {}
    e.update(nx=s['nx'], nu=s['nu'], nz=s['nz'], np=s['np'], np_global=s['npg'], nx_next=s['nx'], N=s['N'], nbu=n['bu'], nbx=n['bx'], nbx_0=P.n0['bx_0'], nbx_e=n['bx_e'], ng=n['g'], ng_e=n['g_e'],
             nh=n['h'], nh_0=n['h_0'], nh_e=n['h_e'], nphi=n['phi'], nphi_0=n['phi_0'], nphi_e=n['phi_e'])
    for suf in ('', '_0', '_e'): e['nr' + suf] = 2 if n['phi' + suf] else 0
    e['nbxe_0'] = s['nx'] if s['x0'] == 'x0' else (1 if s['x0'] == 'eqpart' else 0)
    for suf in ('', '_0', '_e'): e['ns' + suf] = P.ns[suf]
    if not s['rev']:
        for g in ('bu', 'bx', 'g', 'h', 'phi', 'h_0', 'phi_0', 'bx_e', 'g_e', 'h_e', 'phi_e'): e['ns' + g] = len(P.sidx[g])
    def ny(suf, typ): return (s['nx'] if suf == '_e' else s['nx'] + s['nu']) if typ in ('LLS', 'NLS', 'CONL') else None
    e['ny'] = ny('', s['cost']); e['ny_0'] = ny('_0', s['cost0'] or s['cost']); e['ny_e'] = ny('_e', s['coste'])
    return e


def snap(o):
    """every public datum of the formulation as plain values"""
    out = {}
    for part in ('dims', 'cost', 'constraints', 'solver_options', 'code_gen_options'):
        obj = getattr(o, part)
        for k in dir(type(obj)):
            if k.startswith('_') or not isinstance(getattr(type(obj), k), property) or k.startswith('J'): continue
            try: v = getattr(obj, k)
            except Exception: continue
            if isinstance(v, np.ndarray): v = (v.shape, v.tolist())
            elif isinstance(v, (ca.SX, ca.MX, ca.DM)): v = str(v)
            out[part + '.' + k] = repr(v)
    for k in dir(type(o.model)):
        if not k.startswith('_') and isinstance(getattr(type(o.model), k), property):
            v = getattr(o.model, k); out['model.' + k] = str(v) if isinstance(v, (ca.SX, ca.MX, ca.DM)) else repr(v)
    out['p'] = repr(o.parameter_values.tolist()); out['pg'] = repr(o.p_global_values.tolist())
    return out


DERIVED_OK = ('dims.',)


def run(case, ctx):
    b = case['base']
    if case['kind'] == 'terminal-only': return run_terminal(case, ctx)
    try: s = expand(b)
    except Exception: return
    s['opts'] = {k: v for k, v in s['opts'].items() if k == 'hessian_approx'}
    allc = (s['cost'], s['coste'], s['cost0'])
    if 'CONL' in allc: s['opts'] = dict(hessian_approx='GAUSS_NEWTON')
    P = ocpspec.Problem(s)
    if case['kind'] == 'valid': return run_valid(P, b, ctx)
    corruptions(P, b, ctx)


def run_valid(P, b, ctx):
    s = P.s; o = P.ocp('m'); before = snap(o)
    if ctx.accepts(lambda: (o.make_consistent(verbose=False), 1), 'rejected', 'consistent formulation') is None: return
    for k, v in expected(P).items():
        if v is None: continue
        ctx.require(getattr(o.dims, k) == v, 'dim-' + k, lambda: f'dims.{k} = {getattr(o.dims, k)}, data say {v}')
    after = snap(o)
    d = P.d
    # user data unchanged
    probe = P.ocp('m')
    for part, keys in (('cost', ('W', 'yref', 'Vx', 'Vu', 'Vz', 'zl', 'zu', 'Zl', 'Zu')), ('constraints', ('idxbx', 'lbx', 'ubx', 'lg', 'ug', 'C', 'lh', 'uh', 'lphi', 'uphi', 'idxbu', 'lbu', 'ubu', 'D', 'idxsbx', 'idxsh', 'idxsg', 'idxsphi', 'idxsbu', 'idxs_rev'))):
        for k in keys:
            for suf in ('', '_0', '_e'):
                f = part + '.' + k + suf
                if f not in before: continue
                if (k + suf in d and before[f] != 'None') or (part == 'constraints' and k.startswith('idxs') and suf == ''):
                    ctx.require(before[f] == after[f], 'changed-' + f, lambda: f'{f} was {before[f]}, became {after[f]}')
    # defaults
    c, q = o.cost, o.constraints; so = o.solver_options
    if s['cost0'] is None:
        ctx.require(c.cost_type_0 == c.cost_type, 'default-cost-0', lambda: f'{c.cost_type_0} {c.cost_type}')
        if s['cost'] in ('LLS', 'NLS'): ctx.close(c.W_0, c.W, 'default-W_0', 'stage 0 weight')
        if s['cost'] in ('LLS', 'NLS', 'CONL'): ctx.close(c.yref_0, c.yref, 'default-yref_0', 'stage 0 reference')
        if s['cost'] == 'LLS': ctx.close(c.Vx_0, c.Vx, 'default-Vx_0', 'Vx_0'); ctx.close(c.Vu_0, c.Vu, 'default-Vu_0', 'Vu_0')
        for k in ('cost_y_expr', 'cost_psi_expr', 'cost_r_in_psi_expr', 'cost_expr_ext_cost'):
            a, e = getattr(o.model, k + '_0'), getattr(o.model, k)
            if isinstance(e, (ca.SX, ca.MX)) and not e.is_empty(): ctx.require(str(a) == str(e), 'default-' + k + '_0', lambda: f'{a} vs {e}')
    dt = d['dt']
    ctx.close(so.time_steps, dt, 'time_steps', 'time steps', rtol=1e-12); ctx.close(so.shooting_nodes, np.concatenate(([0], np.cumsum(dt))), 'shooting_nodes', 'shooting nodes', rtol=1e-12)
    ctx.close(so.cost_scaling, d.get('cost_scaling', np.append(dt, 1.0)), 'cost_scaling', 'cost scaling', rtol=1e-12)
    ctx.require(so.qp_solver_cond_N == s['N'] and so.N_horizon == s['N'], 'cond_N', lambda: f'{so.qp_solver_cond_N}')
    for k in ('sim_method_num_steps', 'sim_method_num_stages', 'sim_method_jac_reuse'):
        v = np.asarray(getattr(so, k)); ctx.require(v.shape == (s['N'],), 'per-stage-' + k, lambda: f'{k} = {v}')
    if s['integ'] != 'DISCRETE': ctx.require(np.all(so.sim_method_num_stages == s['stages']) and np.all(so.sim_method_num_steps == s['steps']), 'per-stage-values', lambda: f'{so.sim_method_num_stages} {so.sim_method_num_steps}')
    for suf in ('', '_0', '_e'):
        if s['rev']:
            if P.ns[suf]:
                for k in ('ls', 'us'): ctx.close(getattr(q, k + suf), np.zeros(P.ns[suf]), 'default-' + k, f'{k}{suf}')
        else:
            for g in ('bu', 'bx', 'g', 'h', 'phi'):
                if (g + suf) not in P.sidx: continue
                for k in ('ls', 'us'): ctx.close(getattr(q, k + g + suf), np.zeros(len(P.sidx[g + suf])), 'default-' + k + g, f'{k}{g}{suf}')
    if P.ns['_0'] and not s['rev']:
        for k in ('zl', 'zu', 'Zl', 'Zu'): ctx.close(getattr(c, k + '_0'), d[k + '_0'], 'slack-0', k)
    # idempotent
    if ctx.accepts(lambda: (o.make_consistent(verbose=False), 1), 'second-rejected', 'second make_consistent') is None: return
    again = snap(o)
    for k in after: ctx.require(after[k] == again[k], 'not-idempotent-' + k, lambda: f'{k}: {after[k]} then {again[k]}')
    ctx.state('valid', sorted(b.items())); ctx.trace()
    ctx.sample(f'{b}: {len(expected(P))} dimensions derived')


def grow(v, rng=None):
    return np.append(v, [0.1]) if v.ndim == 1 else np.vstack([v, np.full((1, v.shape[1]), 0.1)])


def corruptions(P, b, ctx):
    """every elementary corruption has to be rejected"""
    s, d = P.s, P.d; c = P.ncon; muts = []
    def arr(part, f, ops=('grow', 'shrink')):
        for op in ops: muts.append((part, f, op))
    for suf in ('', '_0', '_e'):
        typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[suf]
        if typ in ('LLS', 'NLS'): arr('cost', 'W' + suf, ('growsq', 'nonsq')); arr('cost', 'yref' + suf)
        if typ == 'CONL': arr('cost', 'yref' + suf)
        if typ == 'LLS':
            arr('cost', 'Vx' + suf, ('grow', 'shrink', 'col+', 'col-'))
            if suf != '_e':
                arr('cost', 'Vu' + suf, ('grow', 'shrink', 'col+') + (('col-',) if s['nu'] else ()))
                if s['nz']: arr('cost', 'Vz' + suf, ('grow', 'shrink'))
        if typ in ('NLS', 'CONL'): muts += [('model', 'cost_y_expr' + suf, 'grow'), ('model', 'cost_y_expr' + suf, 'shrink')]
        if typ == 'CONL': muts += [('model', 'cost_psi_expr' + suf, 'grow'), ('model', 'cost_r_in_psi_expr' + suf, 'grow'), ('model', 'cost_r_in_psi_expr' + suf, 'shrink')]
        if typ == 'EXT': muts.append(('model', 'cost_expr_ext_cost' + suf, 'grow'))
        for f in ('lh', 'uh'): arr('constraints', f + suf)
        for f in ('lphi', 'uphi'): arr('constraints', f + suf)
        if c['h' + suf]: muts += [('model', 'con_h_expr' + suf, 'grow'), ('model', 'con_h_expr' + suf, 'shrink')]
        if c['phi' + suf]: muts.append(('model', 'con_phi_expr' + suf, 'grow')); muts.append(('model', 'con_r_expr' + suf, 'empty'))
        if suf == '_e': muts += [('model', f + '_e', 'u') for f in ('con_h_expr',) if c['h_e']] + [('model', 'cost_y_expr_e', 'u') for _ in (1,) if s['coste'] == 'NLS' and s['nu']]
        if suf != '_0' or s['x0'] != 'x0' or True:
            for f in ('lbx', 'ubx', 'idxbx'): arr('constraints', f + suf)
            nb = P.n0['bx_0'] if suf == '_0' else c['bx' + suf]
            if nb: muts += [('constraints', 'idxbx' + suf, 'range'), ('constraints', 'idxbx' + suf, 'neg')]
        if suf != '_0':
            for f in ('lg', 'ug'): arr('constraints', f + suf)
            if c['g' + suf]: arr('constraints', 'C' + suf, ('grow', 'shrink', 'col+') + (('col-',)))
        slk = [g for g in ('bu', 'bx', 'g', 'h', 'phi') if g + suf in P.sidx]
        if not s['rev']:
            for g in slk:
                arr('constraints', 'idxs' + g + suf)
                if P.sidx[g + suf]: muts += [('constraints', 'idxs' + g + suf, 'range'), ('constraints', 'idxs' + g + suf, 'neg')]; arr('constraints', 'ls' + g + suf, ('two+',)); arr('constraints', 'us' + g + suf, ('two+',))
        elif P.ns[suf]:
            arr('constraints', 'idxs_rev' + suf); muts += [('constraints', 'idxs_rev' + suf, 'range'), ('constraints', 'idxs_rev' + suf, 'neg2')]
            arr('constraints', 'ls' + suf, ('grow',)); arr('constraints', 'us' + suf, ('grow',))
        if P.ns[suf] or suf != '_0':
            for f in ('zl', 'zu', 'Zl', 'Zu'): arr('cost', f + suf)
    for f in ('lbu', 'ubu', 'idxbu'): arr('constraints', f)
    if c['bu']: muts += [('constraints', 'idxbu', 'range'), ('constraints', 'idxbu', 'neg')]
    if c['g']: arr('constraints', 'D', ('grow', 'shrink', 'col+') + (('col-',) if s['nu'] else ()))
    if s['x0'] in ('x0', 'eqpart'): muts += [('constraints', 'idxbxe_0', 'range')]
    arr('ocp', 'parameter_values'); arr('ocp', 'p_global_values')
    arr('solver_options', 'cost_scaling') if 'cost_scaling' in d else None
    if s['grid'] == 'steps': muts += [('solver_options', 'time_steps', 'grow'), ('solver_options', 'time_steps', 'scale')]
    if s['grid'] == 'nodes': muts += [('solver_options', 'shooting_nodes', 'grow'), ('solver_options', 'shooting_nodes', 'shrink'), ('solver_options', 'shooting_nodes', 'scale'), ('solver_options', 'shooting_nodes', 'scaledown')]
    if s['grid'] == 'steps': muts += [('solver_options', 'time_steps', 'scaledown')]
    muts += [('solver_options', f, 'bad') for f in ('sim_method_num_steps', 'sim_method_num_stages', 'sim_method_jac_reuse')] + [('solver_options', 'qp_solver_cond_N', 'bad'), ('solver_options', 'qp_solver_cond_block_size', 'bad'), ('solver_options', 'qp_solver_cond_block_size', 'short')]
    if s['integ'] != 'DISCRETE':
        if s['nz'] == 0 and s['integ'] == 'ERK': muts += [('model', 'f_expl_expr', 'grow'), ('model', 'f_expl_expr', 'empty')] + ([('model', 'f_expl_expr', 'shrink')] if s['nx'] > 1 else [])
        muts += [('model', 'f_impl_expr', 'grow'), ('model', 'xdot', 'grow')]
        if s['integ'] == 'IRK' or s['nx'] + s['nz'] > 1: muts.append(('model', 'f_impl_expr', 'shrink'))
        if s['integ'] == 'IRK': muts.append(('model', 'f_impl_expr', 'empty'))
    else: muts += [('model', 'disc_dyn_expr', 'empty')] + ([('model', 'disc_dyn_expr', 'grow')] if s['N'] > 1 else [])
    muts += [('model', 'p', 'grow'), ('model', 'x', 'expr')]
    n = 0
    for part, f, op in muts:
        o = P.ocp('m'); obj = o if part == 'ocp' else getattr(o, part); v = getattr(obj, f); S = P.S; w = v
        if v is None: v = np.zeros(0) if part != 'model' else S(0, 1)
        if isinstance(v, list) and part != 'model': v = np.asarray(v, float)
        nx = s['nx']
        if part == 'model':
            if isinstance(v, list) or v is None: v = S(0, 1)
            if op == 'grow': w = ca.vertcat(v, P.x[0]) if f not in ('p', 'xdot', 'cost_r_in_psi_expr', 'cost_r_in_psi_expr_0', 'cost_r_in_psi_expr_e') else S.sym(f, v.shape[0] + 1)
            elif op == 'shrink': w = v[:-1] if 'r_in_psi' not in f else S.sym(f, v.shape[0] - 1)
            elif op == 'empty': w = S(0, 1)
            elif op == 'u':
                if not s['nu']: continue
                w = v * P.u[0]
            elif op == 'expr': w = v * 2
        else:
            v = np.asarray(v)
            if op == 'grow':
                w = grow(v) if not f.startswith('idx') else np.append(v, [0]).astype(int)
            elif op == 'shrink':
                if v.size == 0: continue
                w = v[:-1]
            elif op == 'two+': w = np.zeros(len(P.sidx[f[2:]]) + 1)
            elif op == 'growsq': w = np.eye(v.shape[0] + 1)
            elif op == 'nonsq': w = np.hstack([v, v[:, :1]])
            elif op == 'col+': w = np.hstack([v, np.ones((v.shape[0], 1))])
            elif op == 'col-': w = v[:, :-1]
            elif op == 'range':
                w = v.copy(); w[-1] = {'idxbx': nx, 'idxbu': s['nu']}.get(f.split('_')[0], 99) if not f.startswith('idxs') else 99
                if f.startswith('idxs') and not f.startswith('idxs_rev'): w[-1] = c[f[4:]]
                if f == 'idxbxe_0': w[-1] = P.n0['bx_0']
            elif op == 'neg': w = v.copy(); w[-1] = -1
            elif op == 'neg2': w = v.copy(); w[-1] = -2
            elif op == 'scale': w = v * 1.1
            elif op == 'scaledown': w = v * 0.9
            elif op == 'bad': w = {'qp_solver_cond_N': s['N'] + 1, 'qp_solver_cond_block_size': [1] * (s['N'] + 1) + [1]}.get(f, np.ones(s['N'] + 1) * 2)
            elif op == 'short': w = [s['N']] if s['N'] > 0 else [1, 1]
        if op == 'bad' and f.startswith('sim_') and s['N'] == 0: continue
        def go():
            setattr(obj, f, w); o.make_consistent(verbose=False)
        ctx.rejects(go, f'accepted-{part}.{f}-{op}', f'{part}.{f}: {op}: {str(v)[:80]} -> {str(w)[:80]}')
        ctx.state('corrupt', sorted(b.items()), part, f, op); n += 1
    ctx.trace(n); ctx.outcome('corruptions'); ctx.sample(f'{b}: {n} corruptions rejected')


def run_terminal(case, ctx):
    """N = 0: only the terminal stage exists; path and initial data are ignored"""
    s = expand(dict(case['base'], bu=0)); P = ocpspec.Problem(s)
    o = P.ocp('m'); o.solver_options.N_horizon = 0; o.solver_options.qp_solver = 'FULL_CONDENSING_HPIPM'
    from acados_template import AcadosOcpConstraints
    o.solver_options.tf = 0.0
    if ctx.accepts(lambda: (o.make_consistent(verbose=False), 1), 'rejected-N0', 'terminal-only formulation') is None: return
    e = expected(P)
    for k in ('nx', 'nbx_e', 'ng_e', 'nh_e', 'nphi_e', 'ns_e', 'ny_e', 'nr_e'):
        if e[k] is not None: ctx.require(getattr(o.dims, k) == e[k], 'dim-N0-' + k, lambda: f'dims.{k} = {getattr(o.dims, k)}, data say {e[k]}')
    ctx.require(o.dims.nbxe_0 == 0 and list(o.solver_options.shooting_nodes) == [0.0] and len(o.solver_options.time_steps) == 0 and list(o.solver_options.cost_scaling) == [1.0], 'grid-N0', lambda: f'{o.solver_options.shooting_nodes} {o.solver_options.cost_scaling}')
    ctx.state('N0', sorted(case['base'].items())); ctx.trace()


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], level='model_checking', timeout=120, chunk=20, jobs=8))
