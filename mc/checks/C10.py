"""C10: (ext) every sparsity pattern of small inputs and outputs times every argument layout is sent through the external function wrappers and compared with the CasADi function, surrounding memory included;
(pattern) every sparsity pattern of the Jacobians of dynamics, constraints and residuals, (lin) every formulation of a lattice: all blocks of the QP a real solver sets up at a given point are compared with the
independently differentiated expressions at the states, controls, algebraic variables, time and parameters of the stage; (param) all histories of parameter updates with the blocks of all stages compared after every update."""
import sys, os, ctypes, itertools, subprocess, hashlib, warnings, numpy as np, casadi as ca
import mclib, solverlib, ocpspec, acbuild
import C01
PID = 'C10'
ASSUME = ['CasADi evaluates and differentiates expressions correctly', 'algebraic variables: Gauss-Newton Hessians are not compared when the cost depends on them']
SHAPES = [(1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (3, 2), (2, 3)]
KINDS = ['casadi', 'param', 'external', 'global']
TYPES = ['COLMAJ', 'BLASFEO_DMAT', 'BLASFEO_DVEC', 'COLMAJ_ARGS', 'BLASFEO_DMAT_ARGS', 'BLASFEO_DVEC_ARGS', 'IGNORE_ARGUMENT']


def cases(tier):
    q = tier == 'quick'
    for sh in SHAPES + ([] if q else [(4, 2), (2, 4), (3, 3)]):
        for k in range(4):
            n = sh[0] * sh[1]
            for lo in range(0, 2 ** n, 32): yield dict(kind='ext', shape=sh, fun=k, lo=lo, hi=min(lo + 32, 2 ** n))
    for integ in ['DISCRETE', 'ERK'] if q else ['DISCRETE', 'ERK', 'IRK', 'LIFTED_IRK']:
        for hess in ['GAUSS_NEWTON', 'EXACT'][:2 if integ != 'LIFTED_IRK' else 1]:
            for m in range(0, 64, 1 if not q or integ == 'DISCRETE' else 3): yield dict(kind='pattern', integ=integ, hess=hess, m=m)
    for c in mclib.lattice(C01.BASE, LIN, 2 if q else 3, lvalid): yield dict(kind='lin', c=c)
    for c in LINX: yield dict(kind='lin', c=c)
    for c in PAR:
        for d in ([2] if q else [3]): yield dict(kind='param', c=c, depth=d)
    for c in PAR: yield dict(kind='pinvalid', c=c)


LIN = {k: v for k, v in C01.ALTS.items() if k not in ('opt', 'slack', 'onesided', 'x0', 'N', 'bu', 'bxe')}
LIN['opt'] = ['exact']; LIN['slack'] = ['most', 'revall']; LIN['bx'] = [2]; LIN['lin'] = ['gge']; LIN['nl'] = ['hall', 'phiall']; LIN['grid'] = ['steps']; LIN['scaling'] = ['custom']; LIN['integ'] = [i for i in C01.ALTS['integ'] if i != 'IRKZ']; LIN['par'] = ['p', 'both']; LIN['dim'] = ['x1', 'x3', 'u0']
LINX = [dict(C01.BASE, bu=2, bx=2, bxe=2, lin='gge', nl=n, slack='all', par='both', cost=c, coste=c, cost0=c, sym=s, integ=i, opt=o) for n in ('hall', 'phiall') for c in ('LLS', 'NLS', 'CONL', 'EXT') for s in ('SX', 'MX') for i in (None, 'IRK', 'DISCRETE') for o in (None, 'exact')] + [dict(C01.BASE, bu=2, bx=2, lin='gge', nl=n, slack='all', par='both', cost=c, integ='IRKZ2') for n in ('hall', 'phiall') for c in ('LLS', 'NLS')]
PAR = [dict(C01.BASE, par='both', nl=n, lin='gge', slack='most', integ=i, cost=c, coste=c, cost0=c0, sym=s, **e) for n, i, c, c0, s, e in
       [('hall', None, 'NLS', None, 'SX', {}), ('hall', 'IRK', 'NLS', 'NLS', 'SX', {}), ('hall', 'DISCRETE', 'EXT', None, 'SX', {}), ('phiall', None, 'CONL', 'CONL', 'SX', {}), ('hall', None, 'EXT', 'EXT', 'MX', {}), ('hall', 'IRKZ2', 'NLS', None, 'SX', {}), ('hall', 'LIFTED_IRK', 'NLS', None, 'SX', {}),
        ('hall', 'ERK4', 'NLS', None, 'SX', dict(opt='exact')), ('hall', 'DISCRETE', 'NLS', None, 'SX', dict(opt='exact')), ('hall', 'IRK', 'NLS', None, 'MX', dict(opt='exact')), ('hall', 'IRKQ', 'NLS', None, 'SX', {})]] + [
       dict(C01.BASE, par='p', nl='hall', integ='GNSF'), dict(C01.BASE, par='p', nl='hall'), dict(C01.BASE, par='pg', nl='hall', cost='LLS', integ='IRK')]


def lvalid(c):
    if not C01.valid(c): return False
    return not (c.get('slack') == 'revall' and c.get('opt') == 'exact')


def drv():
    src = os.path.join(acbuild.VERIF, 'mc/c/extfun.c'); pre = os.environ['ACADOS_SOURCE_DIR']; out = os.path.join(pre, 'lib', 'extfun_' + hashlib.sha1(open(src, 'rb').read()).hexdigest()[:10] + '.so')
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}'; subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-I' + pre + '/include', '-I' + pre + '/include/blasfeo/include', '-I' + pre + '/include/hpipm/include', src, '-o', tmp, '-L' + pre + '/lib', '-lacados', '-lblasfeo', '-lm', '-Wl,-rpath,' + pre + '/lib:' + acbuild.CASADI], check=True); os.rename(tmp, out)
    return out


def setup(tier): solverlib.setup(); drv()


def run(case, ctx):
    warnings.simplefilter('ignore'); globals()['k_' + case['kind']](case, ctx)


# ---------------------------------------------------------------- external functions
class Arg(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in ('type', 'm', 'n', 'oi', 'oj')] + [('buf', ctypes.POINTER(ctypes.c_double)), ('M', ctypes.c_int), ('N', ctypes.c_int), ('obj', ctypes.c_void_p), ('arg', ctypes.c_void_p)]


def fun_of(name, m, n, si, so, fun):
    spar = lambda b: ca.Sparsity.triplet(m, n, *([[t % m for t in range(m * n) if b >> t & 1], [t // m for t in range(m * n) if b >> t & 1]]))
    A = ca.SX.sym('A', spar(si)); w = ca.SX.sym('w', 2); p = ca.SX.sym('p', 3); g = ca.SX.sym('g', 2); s = 1.0
    for j, e in enumerate(A.nonzeros()): s = s + (0.3 + 0.21 * j) * e + 0.1 * e * e
    if fun: s = s + 0.5 * p[0] - 0.7 * p[1] * p[2]
    if fun == 3: s = s + 1.3 * g[0] * ca.sin(g[1])
    O = ca.SX(spar(so), ca.vertcat(*[(0.4 + 0.3 * j) * s + w[j % 2] for j in range(spar(so).nnz())])) if so else ca.SX(m, n)
    o2 = ca.vertcat(s * w[1], 2.5 * w[0]); ins = [A, w] + ([p] if fun else []) + ([g] if fun == 3 else [])
    return ca.Function(name, ins, [O, o2])


def k_ext(case, ctx):
    m, n = case['shape']; fun = case['fun']; L = ctypes.CDLL(drv(), mode=ctypes.RTLD_GLOBAL); n2 = m * n; gen = ca.CodeGenerator('fns', dict(casadi_int='int', casadi_real='double')); F = []
    for si in range(case['lo'], case['hi']):
        for so in sorted({si, int(bin(si)[2:].zfill(n2)[::-1], 2), (2 ** n2 - 1) ^ si}): f = fun_of(f'f_{si}_{so}', m, n, si, so, fun); F.append((si, so, f)); gen.add(f)
    src = gen.generate(ctx.tmp + '/'); so_ = os.path.join(ctx.tmp, solverlib.name('fns') + '.so'); subprocess.run(['gcc', '-O0', '-w', '-shared', '-fPIC', os.path.join(ctx.tmp, 'fns.c'), '-o', so_, '-lm'], check=True); G = ctypes.CDLL(so_)
    tin = [0, 1, 3, 4] + ([2, 5] if n == 1 else []); tout = tin + [6]; rng = lambda k, o: np.cos(1.1 * np.arange(k) + o)
    def arg(t, mm, nn, val, fill):
        args = t in (3, 4, 5); oi, oj, M, N = (2, 1, mm + 4, nn + 3) if args else (0, 0, mm, nn)
        if t == 3: oj = 2
        if t in (2, 5): oj, N = 0, 1
        B = np.full((M, N), fill, order='F'); B[oi:oi + mm, oj:oj + nn] = val if val is not None else fill
        return Arg(t, mm, nn, oi, oj, B.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), M, N, None, None), B, (slice(oi, oi + mm), slice(oj, oj + nn))
    for si, so, f in F:
        nm = f.name(); ptr = lambda x: ctypes.cast(getattr(G, x), ctypes.c_void_p); fns = (ctypes.c_void_p * 6)(*[ptr(nm + s).value for s in ('', '_work', '_sparsity_in', '_sparsity_out', '_n_in', '_n_out')])
        A = rng(n2, 0.3).reshape(m, n); w = rng(2, 0.9); p = rng(3, 1.7); g = rng(2, 2.2); ctx.state(case['shape'], fun, si, so)
        for ti, to, ew in itertools.product(tin, tout, (0, 1)):
            for upd in ([()] + ([(0,), (2,), (2, 0), (0, 1, 2)] if fun == 1 and ti == tin[0] and to == tout[0] else [])):
                pe = p.copy(); val = np.array([0.37 + 0.2 * j for j in range(len(upd))]); pe[list(upd)] = val; args = [A, w] + ([pe] if fun else []) + ([g] if fun == 3 else [])
                E = [np.array(ca.DM(e)) for e in f(*[ca.DM(a) if i else ca.project(ca.DM(a), f.sparsity_in(0)) for i, a in enumerate(args)])]
                a1, B1, _ = arg(ti, m, n, A, np.nan); a2, B2, _ = arg([2, 0, 5][(si + ti) % 3], 2, 1, w.reshape(2, 1), np.nan); o1, C1, sl1 = arg(to, m, n, None, 7.25); o2, C2, sl2 = arg([2, 0, 5][(si + to) % 3], 2, 1, None, 7.25); ins = (Arg * 2)(a1, a2); outs = (Arg * 2)(o1, o2); pp = p.copy(); idx = (ctypes.c_int * max(1, len(upd)))(*upd)
                D = lambda v: v.ctypes.data_as(ctypes.POINTER(ctypes.c_double)); rc = L.mc_eval(ctypes.byref(fns), fun, ew, 2, ins, 2, outs, 3, D(pp), len(upd), idx, D(val) if len(upd) else None, D(g)); ctx.trans(); ctx.trace()
                ctx.require(rc == 0, 'ext-interface', f'number of parameters or workspace requirement wrong ({rc})')
                for C, sl, e, t in ((C1, sl1, E[0], to), (C2, sl2, E[1], 2)):
                    X = np.full(C.shape, 7.25)
                    if t != 6: X[sl] = e
                    ctx.require(np.allclose(C, X, 1e-13, 1e-13), 'ext-' + TYPES[t], lambda: f'{KINDS[fun]}, input {TYPES[ti]}, output {TYPES[t]}, external workspace {ew}, sparse update {upd}: got {C.tolist()} expected {X.tolist()}')


# ---------------------------------------------------------------- QP blocks of a real solver
def gn(P, kind):
    """Gauss-Newton Hessian of the unscaled cost over [u; x]"""
    s, d = P.s, P.d; key = '' if kind == '_0' and s['cost0'] is None else kind; typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[key]; w = ca.vertcat(P.u, P.x) if kind != '_e' else P.x
    if typ == 'LLS': y = ca.mtimes(d['Vx' + key], P.x) + (ca.mtimes(d['Vu' + key], P.u) if kind != '_e' and s['nu'] else 0); H = ca.DM(d['W' + key])
    elif typ == 'NLS': y = P.y[key]; H = ca.DM(d['W' + key])
    elif typ == 'CONL': y = P.y[key]; r = P.r_in_psi[key]; H = ca.substitute(ca.hessian(P.psi[key], r)[0], r, y - d['yref' + key])
    else: return None
    J = ca.jacobian(y, w); return ca.Function('gn', P.args(), [ca.mtimes([J.T, H, J])])


class Blocks:
    def __init__(self, P, R=None):
        self.P = P if not isinstance(P, list) else P[0]; self.R = R or ocpspec.Ref(P); self.g = {}

    def ref(self, k, x, u, xn, p, pg, pi, lam):
        R = self.R; P = R.Pk[k]; s = P.s; e = R.eval(k, x, u, p, pg); nu = s['nu'] if k < R.N else 0; B = {}; sc = R.sc[k]
        if k < R.N: B['A'], B['B'], B['b'] = e['A'][:, nu:], e['A'][:, :nu], e['xn'] - xn
        B['q'], B['r'] = sc * e['gl'][nu:], sc * e['gl'][:nu]; G = [i for i, c in enumerate(R.cons[k]) if not c[0].startswith('b')]; bx = [i for i, c in enumerate(R.cons[k]) if c[0].startswith('bx')]; bu = [i for i, c in enumerate(R.cons[k]) if c[0] == 'bu']
        B['C'], B['D'] = e['gc'][G][:, nu:], e['gc'][G][:, :nu]; lo = np.array([c[2] for c in R.cons[k]]); up = np.array([c[3] for c in R.cons[k]])
        for n, I in (('g', G), ('bx', bx), ('bu', bu)): B['l' + n] = lo[I] - e['c'][I]; B['u' + n] = up[I] - e['c'][I]
        zl, zu, Zl, Zu, ls, us = R.slk[k]; B['zl'], B['zu'], B['Zl'], B['Zu'] = sc * zl, sc * zu, sc * Zl, sc * Zu; o = s['opts'] or {}
        if s['cdisc'] == 'INTEGRATOR' and k < R.N: H = None
        elif o.get('hessian_approx') == 'EXACT': H = np.array(R.F[k]['hess'](x, u if k < R.N else np.zeros(0), p, pg, R.t0[k], pi if k < R.N else np.zeros(0), lam, sc))
        else:
            key = (id(P), R.kinds[k])
            if key not in self.g: self.g[key] = gn(P, R.kinds[k])
            H = None if self.g[key] is None or s['nz'] and k < R.N else sc * np.array(self.g[key](x, u if k < R.N else np.zeros(s['nu']), np.zeros(s['nz']), p, pg, R.t0[k]))
        if H is not None: B['R'], B['S'], B['Q'] = H[:nu, :nu], H[:nu, nu:], H[nu:, nu:]
        return B


def install(S, P, R, seed, multipliers):
    s = P.s; f = lambda k, n, o: np.array([0.35 * np.cos(1.3 * k + 2.1 * i + o + seed) for i in range(n)]); N = R.N; pt = []
    for k in range(N + 1):
        Pk = R.Pk[k]; nx, nu = Pk.s['nx'], Pk.s['nu'] if k < N else 0; x, u = f(k, nx, 0), f(k, nu, 1); S.set(k, 'x', x); u.size and S.set(k, 'u', u); nc = len(R.cons[k]); ns = len(R.slk[k][0]); pi = f(k, R.eval(k, x, u if k < N else None)['xn'].size, 2) * multipliers if k < N else np.zeros(0); dl = f(k, nc, 4) * multipliers
        if k < N: S.set(k, 'pi', pi)
        lam = np.zeros(2 * nc + 2 * ns); lam[:nc] = np.maximum(0, -dl); lam[nc:2 * nc] = np.maximum(0, dl)
        for i, c in enumerate(R.cons[k]):     # multipliers of infinite bounds are zero
            if abs(c[2]) >= 1e10: lam[i] = 0
            if abs(c[3]) >= 1e10: lam[nc + i] = 0
        dl = lam[nc:2 * nc] - lam[:nc]
        if lam.size: S.set(k, 'lam', lam)
        for n in ('sl', 'su'):
            if ns: S.set(k, n, np.zeros(ns))
        pt.append((x, u, pi, dl))
    if s['integ'] in ('IRK', 'GNSF'):
        for k in range(N): S.set(k, 'xdot_guess', np.zeros(s['nx'])); s['nz'] and S.set(k, 'z_guess', np.zeros(s['nz']))
    return pt


def compare(S, Bl, pt, p, pg, ctx, tag, tol=1e-9):
    R = Bl.R; N = R.N; ok = True; irk = R.Pk[0].s['integ'] in ('IRK', 'GNSF', 'LIFTED_IRK')
    for k in range(N + 1):
        x, u, pi, dl = pt[k]; B = Bl.ref(k, x, u, pt[k + 1][0] if k < N else None, p[k], pg, pi, dl)
        for n, b in B.items():
            g = np.asarray(S.get_from_qp_in(k, n)); b = np.asarray(b)
            if n in ('lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug'):
                if b.size and g.size == b.size: fin = np.abs(b.ravel()) < 1e9; ok &= ctx.close(g.ravel()[fin], b.ravel()[fin], f'{tag}-{n}', f'{n} of stage {k}', 1e-7 if irk else tol, 1e-7 if irk else tol)
                else: ok &= ctx.require(g.size == b.size, f'{tag}-{n}', f'{n} of stage {k}: size {g.size}, expected {b.size}')
                continue
            if b.size == 0 and g.size == 0: continue
            ok &= ctx.require(g.size == b.size, f'{tag}-{n}', f'{n} of stage {k}: shape {g.shape}, expected {b.shape}') and bool(ctx.close(np.tril(g) if n in 'QR' else g.reshape(b.shape), np.tril(b) if n in 'QR' else b, f'{tag}-{n}', f'{n} of stage {k}', 1e-6 if irk else tol, 1e-6 if irk else tol))
    return ok


def build(P, **kw):
    o = P.ocp(solverlib.name(), **kw); so = o.solver_options; so.nlp_solver_type = 'SQP_RTI'; so.globalization = 'FIXED_STEP'
    return solverlib.solver(o, o.name, save_p_global=True)


def step(S, P):
    S.options_set('rti_phase', 0); S.solve()


def k_lin(case, ctx):
    c = case['c']
    if not C01.valid(c): ctx.outcome('unsupported combination'); return
    s = C01.expand(c); P = ocpspec.Problem(s); S = build(P); R = ocpspec.Ref(P); Bl = Blocks(P, R); exact = (s['opts'] or {}).get('hessian_approx') == 'EXACT'; N = s['N']; ctx.state(sorted(c.items(), key=str))
    lifted = s['integ'] == 'LIFTED_IRK'; pg = P.d['pg'] + 0.0
    for seed in range(1 if lifted else 3):
        p = [P.d['p'] * (1 + 0.2 * k) + 0.1 * seed for k in range(N + 1)]; pt = install(S, P, R, 2.3 * seed, 1 if exact else 0)
        for k in range(N + 1): s['np'] and S.set(k, 'p', p[k])
        if seed and s['npg']: pg = P.d['pg'] * (1 + 0.3 * seed); S.set_p_global_and_precompute_dependencies(pg)
        if s['x0'] == 'x0': R.cons[0] = [[c_[0], c_[1], *(c_[2:])] for c_ in R.cons[0]]
        for rep in range(6 if lifted else 1): step(S, P); lifted and install(S, P, R, 2.3 * seed, 0)
        if lifted: step(S, P)
        ctx.trans(); ctx.trace(); compare(S, Bl, pt, p, pg, ctx, 'lin', 1e-5 if lifted else 1e-9)


class Pattern(ocpspec.Problem):
    """dynamics, constraints and residuals whose Jacobians have given sparsity patterns"""
    def __init__(self, s, m): self.m = m; super().__init__(s)

    def _rows(self, n, bits, o):
        v = [self.x[0], self.x[1], self.u[0]]; out = []
        for i in range(n): out.append(sum([(0.3 + 0.1 * j + 0.07 * i + o) * v[j] + 0.05 * (j + 1) * v[j] ** 2 + (0.1 * v[j] * self.p[0] if (i + j) % 2 else 0) for j in range(3) if bits >> (3 * i + j) & 1], self.S(1, 1)))
        return ca.vertcat(*out)

    def _exprs(self):
        super()._exprs(); m = self.m; rot = ((m << 2) | (m >> 4)) & 63; rev = int(bin(m)[2:].zfill(6)[::-1], 2); y = self._rows(2, rot, 0.2)
        self.f = self._rows(2, m, 0.0); self.disc = self.f
        self.c['h'] = self._rows(2, rev, 0.1); self.c['h_0'] = self._rows(2, m, 0.3); self.c['h_e'] = ca.substitute(self._rows(2, rot, 0.15), self.u, 0)
        self.y[''] = ca.vertcat(y, self.u[0]); self.y['_e'] = ca.substitute(self._rows(2, rev, 0.25), self.u, 0)


def k_pattern(case, ctx):
    ex = case['hess'] == 'EXACT'; s = ocpspec.spec(nx=2, nu=1, np=1, N=2, T=0.4, integ=case['integ'], bu=1, h=2, h0=2, he=2, cost='NLS', coste='NLS', opts=dict(hessian_approx=case['hess'])); P = Pattern(s, case['m']); S = build(P); R = ocpspec.Ref(P); Bl = Blocks(P, R); ctx.state(case['integ'], case['hess'], case['m']); lifted = case['integ'] == 'LIFTED_IRK'
    for seed in range(1 if lifted else 2):
        pt = install(S, P, R, 1.7 * seed, int(ex)); p = [P.d['p'] + 0.1 * k for k in range(3)]
        for k in range(3): S.set(k, 'p', p[k])
        for rep in range(6 if lifted else 0): step(S, P); install(S, P, R, 1.7 * seed, 0)
        step(S, P); ctx.trans(); ctx.trace(); compare(S, Bl, pt, p, P.d['pg'], ctx, 'pattern', 1e-5 if lifted else 1e-9)


# ---------------------------------------------------------------- parameter updates
def pops(s):
    N = s['N']; ops = []
    if s['np']:
        ops += [('set', k, o) for k in range(N + 1) for o in (0.1, -0.2)]; sub = [i for r in range(1, s['np'] + 1) for i in itertools.permutations(range(s['np']), r)]
        ops += [('sparse', k, list(i)) for k in (0, 1, N) for i in sub]
    if s['npg']: ops += [('global', 0.1), ('global', -0.3)]
    if s['np']: ops += [('flat', 0.05), ('sparse', 1, [])]
    return ops + [('reset',), ('solve',)]


def apply(S, s, op, p, pg, n):
    v = lambda k, m: np.array([0.2 + 0.07 * k - 0.11 * i for i in range(k)]) + m + 0.013 * n
    if op[0] == 'set': p[op[1]] = v(s['np'], op[2]); S.set(op[1], 'p', p[op[1]].copy())
    elif op[0] == 'sparse': val = np.array([0.31 - 0.09 * j + 0.017 * n for j in range(len(op[2]))]); p[op[1]] = p[op[1]].copy(); p[op[1]][np.array(op[2], int)] = val; S.set_params_sparse(op[1], np.array(op[2], int), val)
    elif op[0] == 'global': pg = v(s['npg'], op[1]); S.set_p_global_and_precompute_dependencies(pg.copy())
    elif op[0] == 'flat': p = [v(s['np'], op[1]) + 0.03 * k for k in range(len(p))]; S.set_flat('p', np.concatenate(p))
    elif op[0] == 'reset': S.reset(reset_qp_solver_mem=1)
    elif op[0] == 'solve': S.solve()
    return p, pg


def k_param(case, ctx):
    c = case['c']; s = C01.expand(c); s['N'] = 2; P = ocpspec.Problem(s); S = build(P); R = ocpspec.Ref(P); Bl = Blocks(P, R); ops = pops(s); exact = (s['opts'] or {}).get('hessian_approx') == 'EXACT'; lifted = s['integ'] == 'LIFTED_IRK'; p0 = [P.d['p'].copy() for _ in range(3)]; pg0 = P.d['pg'].copy(); n = 0
    p, pg = p0, pg0
    for seq in mclib.sequences(ops, case['depth']):
        if len(seq) < case['depth']: continue
        for k in range(3): s['np'] and S.set(k, 'p', p0[k])
        if s['npg']: S.set_p_global_and_precompute_dependencies(pg0)
        p, pg = [a.copy() for a in p0], pg0.copy()
        for op in seq: n += 1; p, pg = apply(S, s, op, p, pg, n % 7); ctx.trans()
        pt = install(S, P, R, 0.4, int(exact))
        for rep in range(5 if lifted else 0): step(S, P); install(S, P, R, 0.4, 0)
        step(S, P); ctx.trace(); ctx.state(repr(seq))
        if not compare(S, Bl, pt, p, pg, ctx, 'param', 1e-5 if lifted else 1e-9): ctx.viol('param-seq', f'after {seq}'); return
        for k in range(3):
            if s['np']: ctx.require(np.array_equal(S.get(k, 'p'), p[k]), 'param-get', f'p of stage {k} after {seq}: {S.get(k, "p")}, {p[k]} set')


def k_pinvalid(case, ctx):
    c = case['c']; s = C01.expand(c); s['N'] = 2; P = ocpspec.Problem(s); S = build(P); R = ocpspec.Ref(P); Bl = Blocks(P, R); n = s['np']; exact = (s['opts'] or {}).get('hessian_approx') == 'EXACT'; lifted = s['integ'] == 'LIFTED_IRK'; p = [P.d['p'] * (1 + k) for k in range(3)]
    for k in range(3): n and S.set(k, 'p', p[k])
    Z = np.zeros; bad = [lambda k=k, i=i: S.set_params_sparse(k, np.array([i]), Z(1)) for k in range(3) for i in (-1, n, n + 1, 1000)] + [lambda i=i, v=v: S.set_params_sparse(1, np.array(i, int), Z(v)) for i, v in (([0], 2), ([0, 1], 1), ([], 1))] + \
        [lambda k=k: S.set_params_sparse(k, np.array([0]), Z(1)) for k in (-1, 3, 1000)] + [lambda k=k: S.set(k, 'p', Z(n)) for k in (-1, 3)] + [lambda k=k, m=m: S.set(k, 'p', Z(m)) for k in range(3) for m in (n - 1, n + 1) if m >= 0] + [lambda m=m: S.set_p_global_and_precompute_dependencies(Z(m)) for m in (s['npg'] - 1, s['npg'] + 1) if m >= 0] + \
        [lambda: S.set_params_sparse(0, np.array([0]), [1.0]), lambda: S.set_params_sparse(0, np.array([0]), np.array([1])), lambda: S.set_p_global_and_precompute_dependencies([0.0] * s['npg']), lambda: S.set_p_global_and_precompute_dependencies(Z((1, max(1, s['npg'])))), lambda: S.set_flat('p', Z(3 * n + 1))] + ([lambda: S.set_params_sparse(0, np.array([0, n]), Z(2)), lambda: S.set_flat('p', Z(3 * n - 1))] if n else [])
    for f in bad:
        ctx.trans(); ctx.rejects(f, 'invalid', 'invalid parameter update accepted'); pt = install(S, P, R, 0.4, int(exact))
        for rep in range(5 if lifted else 0): step(S, P); install(S, P, R, 0.4, 0)
        step(S, P); ctx.trace(); compare(S, Bl, pt, p, P.d['pg'], ctx, 'invalid-changed', 1e-5 if lifted else 1e-9)


if __name__ == '__main__': sys.exit(mclib.main(sys.modules[__name__], timeout=200, chunk=4))
