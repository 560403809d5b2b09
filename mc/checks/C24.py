"""C24: every OCP-structured QP of a lattice of structures (bounds and their index order, general constraints, slack maps, masks, equality flags, dimensions varying over the stages) is handed
to the real QP classes; objective and summed constraint violation of the CasADi form are compared with the QP on a grid of points, solutions and multipliers of the CasADi QP solver and of the
acados QP solver (all condensing variants) are checked against the KKT conditions, every field is written and read back, json files and dictionaries are compared field by field, and every
elementary size corruption has to be rejected. For real OCP solvers the QP read from the solver is solved by the CasADi QP solver and compared with the step the solver took."""
import sys, os, io, json, copy, contextlib, warnings, itertools, numpy as np, casadi as ca
import mclib, solverlib, ocpspec

PID = 'C24'
ASSUME = ['IPOPT and HPIPM of the CasADi wheel are the optimizers; HPIPM does not support slacks shared by several constraints, those QPs are only solved with IPOPT', 'HPIPM of the wheel does not converge when lower or single slack bounds are masked out, those QPs are only solved with IPOPT', 'HPIPM of the wheel does not renumber idxb when a state that is not the last one is eliminated, stage 0 equalities are on the last state or on all', 'get_cost of AcadosOcpQpSolver is not compared (HPIPM of the wheel does not report the objective)', 'terminal stages have no controls, as in all QPs acados builds']
BASE = dict()
ALTS = dict(N=[1, 3], dim=['x1', 'u2', 'x3u2', 'xvar', 'u0', 'uvar'], bu=[None, 'part', 'rev', 'all'], bx=['part', 'rev', 'all'], x0=['bnd', 'none', 'part'], g=[1, 2], ge=[1, 2], slack=['bu', 'bx', 'g', 'last', 'first', 'all', 'rev', 'shared', 'ends'],
            mask=['lbu', 'ubu', 'lbx', 'ubx', 'lg', 'ug', 'lls', 'lus', 'lower', 'upper', 'both', 'odd'], lls=[1], lin=[1])
FIELDS = ['A', 'B', 'b', 'Q', 'R', 'S', 'q', 'r', 'zl', 'zu', 'Zl', 'Zu', 'idxb', 'lbu', 'ubu', 'lbx', 'ubx', 'C', 'D', 'lg', 'ug', 'idxs_rev', 'lls', 'lus', 'lbu_mask', 'ubu_mask', 'lbx_mask', 'ubx_mask', 'lg_mask', 'ug_mask', 'lls_mask', 'lus_mask', 'idxe']


def valid(c):
    if c.get('dim') == 'x1' and c.get('bx') in ('part', 'rev'): return False
    if c.get('dim') == 'u0' and c.get('bu') in ('part', 'rev', 'all'): return False
    s = c.get('slack'); bu = 'bu' not in c or c['bu'] is not None
    if s == 'bu' and (not bu or c.get('dim') == 'u0'): return False
    if s == 'bx' and not c.get('bx'): return False
    if s == 'g' and not (c.get('g') or c.get('ge')): return False
    if s in ('shared', 'rev', 'ends') and not (c.get('bx') or c.get('g')): return False
    m = c.get('mask')
    if m in ('lls', 'lus') and not s: return False
    if m in ('lg', 'ug') and not c.get('g') and not c.get('ge'): return False
    if m in ('lbu', 'ubu') and not bu: return False
    if c.get('lls') and not s: return False
    return True


class QP:
    """the QP as plain arrays"""
    def __init__(self, c):
        N = self.N = c.get('N', 2); dim = c.get('dim', '')
        nx = [{'x1': 1, 'x3u2': 3}.get(dim, 2)] * (N + 1); nu = [{'u2': 2, 'x3u2': 2, 'u0': 0}.get(dim, 1)] * N + [0]
        if dim == 'xvar': nx = [2, 3, 1, 2][:N + 1]
        if dim == 'uvar': nu = [1, 2, 0][:N] + [0]
        self.nx, self.nu = nx, nu; f = lambda k, o, *s: np.cos(1.0 + 1.7 * k + 0.9 * o + np.arange(int(np.prod(s))) * 1.3).reshape(s)
        self.d = {n: [] for n in FIELDS}; d = self.d
        for k in range(N + 1):
            x, u = nx[k], nu[k]; n = x + u
            if k < N: d['A'].append(0.8 * np.eye(nx[k + 1], x) + 0.15 * f(k, 1, nx[k + 1], x)); d['B'].append(0.6 * f(k, 2, nx[k + 1], u)); d['b'].append(0.1 * f(k, 3, nx[k + 1]))
            L = np.tril(0.3 * f(k, 4, n, n)) + np.eye(n); H = L @ L.T; d['R'].append(H[:u, :u]); d['S'].append(H[:u, u:]); d['Q'].append(H[u:, u:]); w = 3.0 if c.get('lin') else 1.0
            d['q'].append(w * f(k, 5, x)); d['r'].append(w * f(k, 6, u))
            sel = lambda m, t: {None: [], 'all': list(range(m)), 'part': [m - 1] if m > 1 else [0], 'rev': list(range(m))[::-1]}[t] if m else []
            iu = sel(u, c['bu'] if 'bu' in c else 'all'); ix = sel(x, c.get('bx')); eq = []
            if k == 0:
                t = c.get('x0', 'eq')
                if t == 'eq': ix = list(range(x)); eq = [len(iu) + j for j in range(x)]
                elif t == 'bnd': ix = list(range(x))
                elif t == 'part': ix = list(range(x)); eq = [len(iu) + x - 1]
            nb = len(iu) + len(ix); d['idxb'].append(np.array(iu + [u + j for j in ix], dtype=int)); d['idxe'].append(np.array(eq, dtype=int))
            d['lbu'].append(-0.4 - 0.1 * np.arange(len(iu))); d['ubu'].append(0.3 + 0.1 * np.arange(len(iu))); lbx = -0.5 - 0.1 * np.arange(len(ix)); ubx = 0.45 + 0.1 * np.arange(len(ix))
            if k == 0:
                x0 = 0.3 + 0.1 * np.arange(x)
                if c.get('x0', 'eq') == 'eq': lbx = ubx = x0
                elif c.get('x0') == 'bnd': lbx, ubx = x0 - 0.1, x0 + 0.05
                elif c.get('x0') == 'part': lbx, ubx = x0 - 0.1, x0 + 0.05; lbx[-1] = ubx[-1] = x0[-1]
            d['lbx'].append(lbx.copy()); d['ubx'].append(ubx.copy())
            ng = (c.get('g', 0) if k < N else c.get('ge', 0)); d['C'].append(f(k, 7, ng, x)); d['D'].append(0.5 * f(k, 8, ng, u)); d['lg'].append(-0.35 - 0.1 * np.arange(ng)); d['ug'].append(0.4 + 0.05 * np.arange(ng))
            names = ['bu'] * len(iu) + ['bx'] * len(ix) + ['g'] * ng; soft = c.get('slack'); free = [i for i in range(nb + ng) if i not in eq]; S = []
            if soft in ('bu', 'bx', 'g'): S = [i for i in free if names[i] == soft]
            elif soft == 'last': S = free[-1:]
            elif soft == 'first': S = free[:1]
            elif soft in ('all', 'rev', 'shared'): S = free
            elif soft == 'ends': S = sorted({free[0], free[-1]}) if free else []
            rev = -np.ones(nb + ng, dtype=int)
            for j, i in enumerate(S): rev[i] = len(S) - 1 - j if soft == 'rev' else j // 2 if soft == 'shared' else j
            ns = int(rev.max()) + 1 if rev.size else 0; d['idxs_rev'].append(rev)
            for n_, o in (('zl', .3), ('zu', .5), ('Zl', 1.1), ('Zu', 1.4)): d[n_].append(o + 0.1 * np.arange(ns))
            for n_ in ('lls', 'lus'): d[n_].append((0.02 if n_ == 'lls' else 0.03) * np.arange(1, ns + 1) * (1 if c.get('lls') else 0))
            m = c.get('mask')
            for n_, cnt in (('lbu', len(iu)), ('ubu', len(iu)), ('lbx', len(ix)), ('ubx', len(ix)), ('lg', ng), ('ug', ng), ('lls', ns), ('lus', ns)):
                v = np.ones(cnt); e = [j for j in range(cnt) if not (n_[1:] == 'bx' and len(iu) + j in eq)]
                if m == n_ and e: v[e[0]] = 0
                elif (m == 'lower' and n_[0] == 'l' and n_[1:] in ('bu', 'bx', 'g')) or (m == 'upper' and n_[0] == 'u'): v[e] = 0
                elif m == 'both' and e and n_[1:] in ('bu', 'bx', 'g'): v[e[-1]] = 0
                elif m == 'odd': v[[j for j in e if (j + k + (n_[0] == 'u')) % 2]] = 0
                d[n_ + '_mask'].append(v)
        self.shared = soft == 'shared' and any(len(r[r >= 0]) != len(set(r[r >= 0])) for r in d['idxs_rev'])

    def object(self, skip=()):
        from acados_template import AcadosOcpQp
        q = AcadosOcpQp(self.N)
        for f in FIELDS:
            if f in skip: continue
            for k, v in enumerate(self.d[f]): q.set(f, k, v.copy())
        return q

    def con(self, k, x, u):
        d = self.d; return np.concatenate([np.concatenate([u, x])[d['idxb'][k]], d['C'][k] @ x + d['D'][k] @ u])

    def lim(self, k):
        d = self.d; C = lambda *n: np.concatenate([d[i][k] for i in n]); return C('lbu', 'lbx', 'lg'), C('ubu', 'ubx', 'ug'), C('lbu_mask', 'lbx_mask', 'lg_mask'), C('ubu_mask', 'ubx_mask', 'ug_mask')

    def cost(self, v):
        d = self.d; t = 0.0
        for k in range(self.N + 1):
            x, u, sl, su = v['x'][k], v['u'][k], v['sl'][k], v['su'][k]
            t += 0.5 * (x @ d['Q'][k] @ x + u @ d['R'][k] @ u) + u @ d['S'][k] @ x + d['q'][k] @ x + d['r'][k] @ u + 0.5 * (d['Zl'][k] @ sl ** 2 + d['Zu'][k] @ su ** 2) + d['zl'][k] @ sl + d['zu'][k] @ su
        return t

    def rows(self, v):
        """slacks of all inequalities (lower then upper), of the slack bounds, masks"""
        for k in range(self.N + 1):
            c = self.con(k, v['x'][k], v['u'][k]); lo, up, ml, mu = self.lim(k); rev = self.d['idxs_rev'][k]; a = np.where(rev >= 0, v['sl'][k][rev] if len(v['sl'][k]) else 0, 0) if rev.size else np.zeros(0); b = np.where(rev >= 0, v['su'][k][rev] if len(v['su'][k]) else 0, 0) if rev.size else np.zeros(0)
            yield np.concatenate([c + a - lo, up + b - c]), np.concatenate([v['sl'][k] - self.d['lls'][k], v['su'][k] - self.d['lus'][k]]), np.concatenate([ml, mu]), np.concatenate([self.d['lls_mask'][k], self.d['lus_mask'][k]])

    def dyn(self, v):
        d = self.d; return [d['A'][k] @ v['x'][k] + d['B'][k] @ v['u'][k] + d['b'][k] - v['x'][k + 1] for k in range(self.N)]

    def viol(self, v):
        t = sum(np.abs(e).sum() for e in self.dyn(v))
        for r, s, m, ms in self.rows(v): t += np.maximum(0, -r[m > 0]).sum() + np.maximum(0, -s[ms > 0]).sum()
        return t

    def kkt(self, v):
        d = self.d; N = self.N; R = dict(stat=0., eq=0., ineq=0., comp=0., sign=0., mask=0.); up = lambda n, a: R.__setitem__(n, max(R[n], float(np.max(np.abs(a), initial=0.))) if np.all(np.isfinite(a)) else float('nan'))
        for e in self.dyn(v): up('eq', e)
        for k, (r, s, m, ms) in enumerate(self.rows(v)):
            lam = v['lam'][k]; nc = len(r) // 2; ns = len(s) // 2
            if lam.size != 2 * (nc + ns): R['stat'] = float('nan'); return R
            l, lu, ls = lam[:nc], lam[nc:2 * nc], lam[2 * nc:]; x, u = v['x'][k], v['u'][k]; gx = d['Q'][k] @ x + d['S'][k].T @ u + d['q'][k]; gu = d['R'][k] @ u + d['S'][k] @ x + d['r'][k]; nb = len(d['idxb'][k]); dl = lu - l; gb = np.zeros(len(u) + len(x)); np.add.at(gb, d['idxb'][k], dl[:nb])
            gx = gx + gb[len(u):] + d['C'][k].T @ dl[nb:]; gu = gu + gb[:len(u)] + d['D'][k].T @ dl[nb:]
            if k < N: gx = gx + d['A'][k].T @ v['pi'][k]; gu = gu + d['B'][k].T @ v['pi'][k]
            if k: gx = gx - v['pi'][k - 1]
            up('stat', gx); up('stat', gu); rev = d['idxs_rev'][k]
            for n, z, Z, sv, lc, lsl in (('sl', 'zl', 'Zl', v['sl'][k], l, ls[:ns]), ('su', 'zu', 'Zu', v['su'][k], lu, ls[ns:])):
                up('stat', d[Z][k] * sv + d[z][k] - np.array([lc[rev == j].sum() for j in range(ns)]) - lsl)
            al = lam.copy(); ar = np.concatenate([r, s]); am = np.concatenate([m, ms]); eqr = np.zeros(len(am), bool); 
            for e in d['idxe'][k]: eqr[[e, nc + e]] = True
            up('ineq', np.minimum(0, ar[am > 0])); up('comp', (al * ar)[(am > 0) & ~eqr]); up('sign', np.minimum(0, al[~eqr])); up('mask', al[am == 0])
        return R


def cases(tier):
    q = tier == 'quick'
    for c in mclib.lattice(BASE, ALTS, 2 if q else 3, valid):
        for k in ('form', 'solve'): yield dict(kind=k, c=c)
    for c in mclib.lattice(BASE, ALTS, 2 if q else 3, valid): yield dict(kind='acados', c=c)
    for c in itertools.chain(mclib.lattice(BASE, ALTS, 1 if q else 2, valid), EXTRA): yield dict(kind='io', c=c)
    for c in EXTRA:
        for k in ('form', 'solve', 'acados', 'reject', 'json'): yield dict(kind=k, c=c)
    for c in mclib.lattice(BASE, ALTS, 1, valid): yield dict(kind='json', c=c); yield dict(kind='reject', c=c)
    for c in SOLVERS: yield dict(kind='last', c=c)


EXTRA = [dict(N=3, dim='x3u2', bu='part', bx='rev', g=2, ge=1, slack='all', mask='odd', lls=1), dict(dim='x3u2', bu='rev', bx='part', g=2, ge=2, slack='rev', x0='bnd', lin=1), dict(dim='x3u2', bx='part', bu='part', slack='ends', g=1, x0='none', lin=1), dict(dim='xvar', bx='all', g=1, ge=1, slack='g', mask='both'),
         dict(N=3, dim='uvar', bx='all', bu='rev', slack='last', x0='part', lin=1), dict(N=3, dim='u2', bx='rev', g=2, slack='first', bu='rev', lin=1), dict(dim='x3u2', bx='all', g=2, ge=1, slack='shared', lin=1), dict(N=3, bx='rev', bu='all', g=1, ge=2, slack='bx', mask='upper', lin=1)]
SOLVERS = [dict(bu=1), dict(bu=2, bx=1, bxe=1), dict(bu=2, bx=2, lin='gge', nl='hall'), dict(bu=1, bx=1, slack='most'), dict(bu=2, bx=2, lin='gge', nl='hall', slack='most', N=4), dict(bu=1, cost='LLS', coste='LLS', x0='box'), dict(bu=1, bx=1, x0='none'), dict(bu=2, nl='phiall'), dict(bu=1, bx=2, onesided=1, slack='most'), dict(bu=1, dim='x3'), dict(bu=1, N=1), dict(bu=1, bx=1, N=9), dict(bu=2, bx=2, x0='partial', scaling='custom')]


def setup(tier): solverlib.setup()


def run(case, ctx):
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()): globals()['k_' + case['kind']](case, ctx)


IP = {'ipopt.print_level': 0, 'print_time': False, 'ipopt.tol': 1e-10, 'ipopt.acceptable_tol': 1e-10, 'ipopt.bound_relax_factor': 0.0, 'ipopt.honor_original_bounds': 'yes', 'ipopt.fixed_variable_treatment': 'make_constraint', 'ipopt.mu_strategy': 'adaptive'}
SQ = dict(max_iter=0, qpsol='qrqp', qpsol_options=dict(print_iter=False, print_header=False, error_on_fail=False), print_header=False, print_iteration=False, print_time=False, print_status=False, error_on_fail=False)


def points(Q):
    for j in range(3):
        f = lambda k, n, o: np.array([0.7 * np.cos(1.3 * k + 2.1 * i + 0.7 * j + o) for i in range(n)])
        yield dict(x=[f(k, Q.nx[k], 0) for k in range(Q.N + 1)], u=[f(k, Q.nu[k], 1) for k in range(Q.N + 1)], sl=[f(k, len(Q.d['lls'][k]), 2) for k in range(Q.N + 1)], su=[f(k, len(Q.d['lls'][k]), 3) for k in range(Q.N + 1)])


def solver(q, **kw):
    from acados_template import AcadosCasadiOcpQpSolver
    return AcadosCasadiOcpQpSolver(q, **kw)


def k_form(case, ctx):
    Q = QP(case['c']); S = solver(Q.object(), solver='sqpmethod', solver_opts=dict(SQ)); ctx.state('form', sorted(case['c'].items(), key=str)); F = ca.Function('F', [S.casadi_qp['x']], [S.casadi_qp['f'], S.casadi_qp['g']]); d = lambda m: np.array(ca.DM(m)).ravel()
    for v in points(Q):
        for f in v:
            for k, a in enumerate(v[f]):
                if a.size: S.set(k, f, a)
        f, g = F(S.w0); w, g = d(S.w0), d(g); B = {k: d(S.bounds[k]) for k in S.bounds}; cl = lambda lb, t, ub: np.maximum(0, lb - t).sum() + np.maximum(0, t - ub).sum(); t = cl(B['lbx'], w, B['ubx']) + cl(B['lbg'], g, B['ubg'])
        ctx.trans(); ctx.trace(); ctx.close(float(f), Q.cost(v), 'objective', 'objective', 1e-10, 1e-10); ctx.close(t, Q.viol(v), 'feasible-set', 'summed constraint violation', 1e-10, 1e-10)
    licq(Q, ctx)
    # the QP object itself
    q = Q.object(); q.make_consistent(); dg = q.qp_diagnostics(); E = []
    for k in range(Q.N + 1):
        H = np.block([[Q.d['R'][k], Q.d['S'][k]], [Q.d['S'][k].T, Q.d['Q'][k]]]); e = np.linalg.eigvalsh(H); E.append(e)
        for n, r in (('min_eigv_stage', e.min()), ('max_eigv_stage', e.max()), ('condition_number_stage', np.abs(e).max() / np.abs(e).min())): ctx.close(np.real(dg[n][k]), r, 'diagnostics', f'{n} {k}', 1e-8)
    E = np.concatenate(E)
    for n, r in (('min_eigv_global', E.min()), ('max_eigv_global', E.max()), ('min_abs_eigv_global', np.abs(E).min()), ('condition_number_global', np.abs(E).max() / np.abs(E).min())): ctx.close(np.real(dg[n]), r, 'diagnostics', n, 1e-8)
    ctx.require(bool(q.has_slacks()) == any(len(l) for l in Q.d['lls']), 'has-slacks', 'has_slacks'); ctx.require(bool(q.has_masks()) == any((m == 0).any() for f in FIELDS if f.endswith('mask') for m in Q.d[f]), 'has-masks', 'has_masks'); ctx.require(bool(q.has_idxs_rev_not_idxs()) == Q.shared, 'has-shared', 'has_idxs_rev_not_idxs')


def licq(Q, ctx):
    """active sets: every combination of {lower, inside, upper} of one control, one state and one general constraint, at every stage"""
    from acados_template import AcadosOcpIterate
    q = Q.object(); q.make_consistent(); N = Q.N; d = Q.d; z = lambda n: [np.zeros(m) for m in n]
    for k in range(N + 1):
        lo, up, _, _ = Q.lim(k); nb = len(d['idxb'][k]); ng = len(d['lg'][k]); w = Q.nu[k] + Q.nx[k]; base = {kk: np.array([0.0123 * (i + 1) for i in range(Q.nu[kk] + Q.nx[kk])]) for kk in range(N + 1)}
        for comb in itertools.product((0, 1, 2), repeat=min(nb, 3)):
            if k == 0 and 0 not in comb and len(comb) == 3: continue
            v = base[k].copy()
            for i, a in zip(list(range(nb))[::-1], comb):
                if a: v[d['idxb'][k][i]] = (lo if a == 1 else up)[i]
            if ng:     # move one general constraint to the point
                row = np.concatenate([d['D'][k][-1], d['C'][k][-1]]); old = d['lg'][k].copy(); d['lg'][k][-1] = row @ v; q.set('lg', k, d['lg'][k].copy())
            X = [base[i][Q.nu[i]:] for i in range(N + 1)]; U = [base[i][:Q.nu[i]] for i in range(N + 1)]; X[k], U[k] = v[Q.nu[k]:], v[:Q.nu[k]]; it = AcadosOcpIterate(x=X, u=U[:N] if len(comb) % 2 else U, z=z([0] * N), sl=z([0] * (N + 1)), su=z([0] * (N + 1)), pi=z(Q.nx[1:]), lam=z([0] * (N + 1))); exp = True
            for s in range(N + 1):
                c = Q.con(s, X[s], U[s]); l, u, _, _ = Q.lim(s); G = np.vstack([np.eye(Q.nu[s] + Q.nx[s])[d['idxb'][s]], np.hstack([d['D'][s], d['C'][s]])]); act = np.isclose(c, l) | np.isclose(c, u); M = G[act]
                if s < N: M = np.vstack([np.hstack([M, np.zeros((len(M), Q.nx[s + 1]))]), np.hstack([d['B'][s], d['A'][s], -np.eye(Q.nx[s + 1])])])
                exp = exp and (M.size == 0 or np.linalg.matrix_rank(M) == len(M))
            ctx.trans(); ctx.require(bool(q.check_licq(it)) == exp, 'licq', lambda: f'stage {k}, {comb}: {not exp}, the gradients of every stage are independent: {exp}')
            if ng: d['lg'][k] = old; q.set('lg', k, old.copy())


TOL = dict(stat=1e-6, eq=1e-7, ineq=1e-6, comp=1e-6, sign=1e-7, mask=1e-9)


def judge(Q, v, ctx, tag, extra=1.0):
    r = Q.kkt(v)
    for n in TOL: ctx.require(r[n] <= TOL[n] * extra, f'{tag}-{n}', f'{n} residual {r[n]:.3e}')


def k_solve(case, ctx):
    Q = QP(case['c']); S = solver(Q.object(), solver_opts=dict(IP)); st = S.solve(); ctx.outcome(str(st)); ctx.trace(); ctx.state('solve', sorted(case['c'].items(), key=str))
    if st != 0:      # infeasible by construction?
        ctx.outcome('not solved'); return
    N = Q.N; v = {f: [np.asarray(S.get(k, f)).ravel() for k in range(N if f == 'pi' else N + 1)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}; judge(Q, v, ctx, 'kkt', 3); ctx.close(S.get_cost(), Q.cost(v), 'cost', 'get_cost', 1e-9, 1e-9)
    it = S.get_iterate(); ctx.require(all(np.array_equal(a, b) for f in v for a, b in zip(getattr(it, f), v[f])), 'get-iterate', 'get_iterate differs from get')
    for f in v: ctx.require(np.array_equal(S.get_flat(f), np.concatenate(v[f][:N] if f == 'u' else v[f])), 'get-flat', f'get_flat({f})')
    if case['c'].get('x0', 'eq') == 'eq':
        x0 = np.asarray(Q.d['lbx'][0]) * 0.8; u = S.solve_for_x0(x0)
        if S.status == 0:
            Q.d['lbx'][0] = Q.d['ubx'][0] = x0; v = {f: [np.asarray(S.get(k, f)).ravel() for k in range(N if f == 'pi' else N + 1)] for f in v}; judge(Q, v, ctx, 'x0', 3); ctx.close(u, v['u'][0], 'x0-u', 'returned control', 0, 0)


def k_acados(case, ctx):
    from acados_template import AcadosOcpQpSolver, AcadosOcpQpOptions
    Q = QP(case['c']); ctx.state('acados', sorted(case['c'].items(), key=str))
    if Q.shared: ctx.outcome('shared slacks'); return
    if any((m == 0).any() for f in ('lls_mask', 'lus_mask') for m in Q.d[f]) and not case['c'].get('mask') == 'upper': ctx.outcome('masked slack bounds'); return
    ref = None; lib = os.environ['ACADOS_SOURCE_DIR'] + '/lib'
    for name, cn in [('PARTIAL_CONDENSING_HPIPM', n) for n in range(1, Q.N + 1)] + [('FULL_CONDENSING_HPIPM', None)]:
        if name.startswith('FULL') and case['c'].get('dim') in ('u0',): continue
        if case['c'].get('dim') == 'u0' and cn != Q.N: continue
        o = AcadosOcpQpOptions(); o.qp_solver = name; o.tol_stat = o.tol_eq = o.tol_ineq = o.tol_comp = 1e-9; o.iter_max = 100
        if cn is not None: o.cond_N = cn
        S = AcadosOcpQpSolver(Q.object(), o, acados_lib_path=lib); st = S.solve(); ctx.trans(); ctx.outcome(f'{name} {st}')
        if not ctx.require(st == 0 or ref is None, 'acados-status', f'{name} cond_N {cn}: status {st}, other variants solve the QP'): continue
        if st != 0: continue
        N = Q.N; v = {f: [S.get(k, f) for k in range(N if f == 'pi' else N + 1)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}; judge(Q, v, ctx, 'acados', 5); it = S.get_iterate(); ctx.trace()
        ctx.require(all(np.array_equal(a, b) for f in v for a, b in zip(getattr(it, f), v[f])), 'acados-iterate', 'get_iterate differs from get'); ref = v if ref is None else ref

        for f in ('x', 'u', 'sl', 'su'): ctx.close(np.concatenate(v[f]), np.concatenate(ref[f]), 'acados-' + f, f'{f}: {name} cond_N {cn} against the first variant', 1e-5, 1e-5)
    if ref is None: ctx.outcome('not solved')


def k_io(case, ctx):
    from acados_template import AcadosOcpIterate
    Q = QP(case['c']); N = Q.N; S = solver(Q.object(), solver='sqpmethod', solver_opts=dict(SQ)); ctr = itertools.count(1); n = dict(x=Q.nx, u=Q.nu[:N], sl=[len(l) for l in Q.d['lls']], pi=Q.nx[1:], lam=[2 * (len(Q.d['idxs_rev'][k]) + len(Q.d['lls'][k])) for k in range(N + 1)]); n['su'] = n['sl']

    def lam(k):
        rev = Q.d['idxs_rev'][k]; nc = len(rev); a = np.zeros(n['lam'][k])
        for i in range(nc):
            if rev[i] >= 0: a[i], a[nc + i] = 0.01 * next(ctr), 0.01 * next(ctr)
            else: a[i + (nc if (i + k) % 2 else 0)] = 0.01 * next(ctr)
        for i in range(2 * nc, len(a)): a[i] = 0.01 * next(ctr)
        return a
    val = lambda f, k: lam(k) if f == 'lam' else np.array([0.01 * next(ctr) for _ in range(n[f][k])])
    fresh = lambda: {f: [val(f, k) for k in range(len(n[f]))] for f in n}

    def check(W, tag):
        S.solve(); ctx.trans(); ctx.trace(); ctx.state(tag, sorted(case['c'].items(), key=str))
        for f in W:
            for k, a in enumerate(W[f]):
                b = np.asarray(S.get(k, f)).ravel(); ctx.require(b.size == a.size and np.allclose(a, b, 1e-12, 1e-12), f'{tag}-{f}', lambda: f'{f} of stage {k}: {a} written, {b} read')
    W = fresh(); [S.set(k, f, a.copy()) for f in W for k, a in enumerate(W[f])]; check(W, 'set')
    for f in n:
        for k in range(len(n[f])):
            if n[f][k]: W[f][k] = val(f, k); S.set(k, f, W[f][k].copy()); check(W, 'single')
    mk = lambda W: AcadosOcpIterate(z=[np.zeros(0)] * N, **{f: [a.copy() for a in W[f]] for f in W})
    W = fresh(); S.set_iterate(mk(W)); check(W, 'iterate'); W = fresh(); S.set_iterate(mk(W).flatten()); check(W, 'flat-iterate'); W = fresh(); [S.set_flat(f, np.concatenate(W[f])) for f in W]; check(W, 'flat'); i2 = S.get_iterate(); S.set_iterate(mk(fresh())); S.solve(); S.set_iterate(i2); check(W, 'roundtrip')


def fields(q): return {f: [None if a is None else np.asarray(a) for a in getattr(q, f)] for f in FIELDS}


def equal(a, b): return a.size == b.size and (a.size == 0 or (a.shape == b.shape and np.array_equal(a, b)))


def k_json(case, ctx):
    from acados_template import AcadosOcpQp
    c = case['c']
    for N in ([None] if len(c) > 1 or 'N' in c else [None, 8, 9, 10, 11]):
        Q = QP(dict(c)) if N is None or c.get('dim') in ('xvar', 'uvar') else QP(dict(c, N=N)); N = Q.N; l = len(str(N + 1)); D = {f'{f}_{k:0{l}d}': v.tolist() for f in FIELDS for k, v in enumerate(Q.d[f]) if v.size or f in ('Q', 'A', 'B')}; p = os.path.join(ctx.tmp, 'q.json'); json.dump(D, open(p, 'w')); full = {f'{f}_{k:0{l}d}': v for f in FIELDS for k, v in enumerate(Q.d[f])}
        for q, t in ((AcadosOcpQp.from_json(p), 'json'), (AcadosOcpQp.from_json(json_data=json.load(open(p))), 'json-data'), (AcadosOcpQp.from_dict(full), 'dict')):
            F = fields(q); ctx.require(q.N == N, 'json-N', f'{q.N}'); ctx.trans(); ctx.trace()
            for f in FIELDS:
                for k, v in enumerate(Q.d[f]): ctx.require(equal(F[f][k], v), 'json-' + f, lambda: f'{t} {f} {k}: {F[f][k]} against {v}')
        ctx.state(N, sorted(c.items(), key=str))
    # default masks
    q = Q.object(skip=[f for f in FIELDS if f.endswith('mask')]); q.make_consistent(); F = fields(q)
    for f in FIELDS:
        if f.endswith('mask'):
            for k, v in enumerate(Q.d[f]): ctx.require(equal(F[f][k], np.ones(v.shape)), 'mask-default', f'default of {f} at stage {k} is {F[f][k]}')
    q = Q.object(); a = fields(q); q.make_consistent(); b = fields(q); ctx.require(all(equal(x, y) for f in FIELDS for x, y in zip(a[f], b[f])), 'consistent', 'make_consistent changed data')
    for f in FIELDS:      # one entry changes nothing else
        for k in range(len(Q.d[f])):
            q = Q.object(); a = fields(q); v = Q.d[f][k] + (1 if Q.d[f][k].dtype.kind == 'i' else 0.5); q.set(f, k, v); b = fields(q); ctx.require(all(equal(b[g][j], v if (g, j) == (f, k) else a[g][j]) for g in FIELDS for j in range(len(a[g]))), 'set', f'set {f} {k}')


def k_reject(case, ctx):
    """every elementary corruption of a size or index has to be rejected before the data reaches C"""
    Q = QP(case['c'])

    def bad(what, f, k, v):
        q = Q.object(); ctx.trans()
        try: q.set(f, k, v)
        except (ValueError, TypeError, AssertionError): return
        try: q.make_consistent()
        except (ValueError, AssertionError): ctx.trace(); ctx.outcome('rejected'); return
        ctx.viol(f'accepted-{f}', f'{what}: {f} of stage {k} accepted with shape {np.shape(v)}: {v}')
    for f in FIELDS:
        for k, v in enumerate(Q.d[f]):
            ctx.state(f, k, sorted(case['c'].items(), key=str))
            if f in ('idxe',): 
                bad('index too large', f, k, np.append(v, len(Q.d['idxb'][k]))); continue
            if v.ndim == 1: bad('one more', f, k, np.append(v, v[-1] if v.size else 0))
            if v.ndim == 1 and v.size: bad('one less', f, k, v[:-1])
            if v.ndim == 2:
                if v.shape[1]: bad('one more row', f, k, np.vstack([v, np.zeros((1, v.shape[1]))]))
                if v.shape[0]: bad('one more column', f, k, np.hstack([v, np.zeros((v.shape[0], 1))]))
                if v.shape[0] > 1 and v.shape[1]: bad('one less row', f, k, v[:-1])
                if v.shape[1] > 1 and v.shape[0]: bad('one less column', f, k, v[:, :-1])
            if f == 'idxb' and v.size:
                for i in (-1, Q.nx[k] + Q.nu[k]): w = v.copy(); w[-1] = i; bad('index out of range', f, k, w)
            if f == 'idxs_rev' and v.size: w = v.copy(); w[-1] = len(Q.d['lls'][k]); bad('index out of range', f, k, w)
        q = Q.object(); ctx.rejects(lambda: q.set(f, Q.N + 1, Q.d[f][0]), 'stage', f'{f} stage N+1'); ctx.rejects(lambda: q.set(f, -1, Q.d[f][0]), 'stage', f'{f} stage -1')
    q = Q.object(); ctx.rejects(lambda: q.set('A', Q.N, Q.d['A'][0]), 'stage', 'A at N'); ctx.rejects(lambda: q.set('nonsense', 0, Q.d['A'][0]), 'field', 'unknown field')


def k_last(case, ctx):
    """the QP read from a solver is the QP the solver solves"""
    import C01
    from acados_template import AcadosOcpQp
    s = C01.expand(case['c']); s['opts'] = dict(qp_tol=1e-10, nlp_solver_max_iter=1); P = ocpspec.Problem(s); o = P.ocp(solverlib.name()); S = solverlib.solver(o, o.name); N = s['N']; prev = None
    def it(): return {f: [S.get(k, f) for k in range(N if f in ('u', 'pi') else N + 1)] for f in ('x', 'u', 'sl', 'su', 'pi', 'lam')}
    for rnd in range(3):
        a = it(); S.solve(); b = it(); d = S.get_last_qp(); q = AcadosOcpQp.from_dict({k: np.array(v) for k, v in d.items() if not k.startswith('idxs_') or k.startswith('idxs_rev')}); ctx.trans(); ctx.trace(); ctx.state(rnd, sorted(case['c'].items(), key=str))
        p = os.path.join(ctx.tmp, 'qp.json'); F = fields(q)
        for be, tol in (('C', 1e-9), ('Python', 0)):      # the C back end writes 11 digits
            S.dump_last_qp_to_json(p, overwrite=True, backend=be); G = fields(AcadosOcpQp.from_json(p))
            for f in FIELDS:
                for k in range(len(F[f])): ctx.require(F[f][k].size == G[f][k].size and (F[f][k].size == 0 or F[f][k].shape == G[f][k].shape and np.allclose(F[f][k], G[f][k], tol, tol)), 'last-json-' + f, lambda: f'{be}: {f} {k}: {F[f][k]} read, {G[f][k]} in the json file')
        C = solver(q, solver_opts=dict(IP)); st = C.solve()
        if not ctx.require(st == 0, 'last-status', f'CasADi cannot solve the last QP: {st}'): return
        e = 2e-6 * (1 + max(np.abs(np.concatenate(b[f])).max(initial=0) for f in ('x', 'u', 'pi', 'lam')))
        for k in range(N + 1):
            for f in ('x', 'u'):
                if f == 'u' and k == N: continue
                ctx.close(C.get(k, f), b[f][k] - a[f][k], 'last-' + f, f'{f} of stage {k}: step of the solver against the solution of its QP', 1e-6, e)
            for f in ('sl', 'su'): ctx.close(C.get(k, f), b[f][k] - a[f][k], 'last-' + f, f'{f} of stage {k}', 1e-6, e)
            if k < N: ctx.close(C.get(k, 'pi'), b['pi'][k], 'last-pi', f'pi of stage {k}', 1e-6, 10 * e)
            if k: ctx.close(C.get(k, 'lam'), b['lam'][k], 'last-lam', f'lam of stage {k}', 1e-6, 10 * e)


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=200, chunk=8))
