"""A small family of optimal control problems described by a plain feature dictionary, with (a) a builder that enters it
through the public acados_template classes the way a user would and (b) an independent reference of what it means."""
import itertools
import numpy as np, casadi as ca

INF = 1e10

DEFAULT = dict(sym='SX', N=3, grid='uniform', T=0.6, nx=2, nu=2, nz=0, np=0, npg=0, t=0, dyn='nl', integ='ERK', stages=2, steps=1, colloc='GL',
               cost0=None, cost='NLS', coste='NLS', x0='x0', bu=1, bx=0, bxe=0, g=0, ge=0, h=0, h0=0, he=0, phi=0, phi0=0, phie=0,
               soft=(), rev=0, scaling=None, cdisc='EULER', onesided=0, data=None, opts=None, tag='', nxn=0)


def spec(**kw):
    s = dict(DEFAULT); bad = set(kw) - set(s)
    if bad: raise KeyError(bad)
    s.update(kw); return s


def grid_of(s):
    N, T = s['N'], s['T']
    if s['grid'] == 'uniform': return np.full(N, T / N)
    w = 1.0 + 0.5 * np.arange(N); return T * w / w.sum()


def _rk_nodes(s):
    return butcher(s['integ'], s['stages'], s['colloc'])


def butcher(integ, n, colloc='GL'):
    """Runge-Kutta tables from their defining order/collocation conditions"""
    if integ == 'ERK':
        A = np.zeros((n, n))
        if n == 1: b = np.array([1.]); c = np.array([0.])
        elif n == 2: A[1, 0] = .5; b = np.array([0., 1.]); c = np.array([0., .5])
        elif n == 3: A[1, 0] = .5; A[2, 0] = -1; A[2, 1] = 2; b = np.array([1, 4, 1]) / 6; c = np.array([0, .5, 1])
        else: A[1, 0] = .5; A[2, 1] = .5; A[3, 2] = 1; b = np.array([1, 2, 2, 1]) / 6; c = np.array([0, .5, .5, 1])
        return A, b, c
    from numpy.polynomial import legendre as L, polynomial as P
    if colloc == 'GL': c = (np.sort(L.legroots([0] * n + [1])) + 1) / 2
    else:  # Radau IIA: roots of P_n - P_{n-1} on [-1,1], right end included
        p = np.zeros(n + 1); p[n] = 1; p[n - 1] = -1
        c = (np.sort(np.real(L.legroots(p))) + 1) / 2; c[-1] = 1.0
    A = np.zeros((n, n)); b = np.zeros(n)
    for j in range(n):
        pol = np.array([1.0])
        for m in range(n):
            if m != j: pol = P.polymul(pol, [-c[m], 1.0]) / (c[j] - c[m])
        ip = P.polyint(pol)
        b[j] = P.polyval(1.0, ip)
        for i in range(n): A[i, j] = P.polyval(c[i], ip)
    return A, b, c


class Problem:
    def __init__(self, s, pg=None):
        s = dict(DEFAULT, **s); self.s = s
        S = self.S = ca.SX if s['sym'] == 'SX' else ca.MX
        nx, nu, nz = s['nx'], s['nu'], s['nz']
        self.x = S.sym('x', nx); self.u = S.sym('u', nu); self.z = S.sym('z', nz); self.xdot = S.sym('xdot', nx)
        self.p = S.sym('p', s['np']); self.pg = S.sym('pg', s['npg']) if pg is None else pg; self.t = S.sym('t')
        self._dynamics(); self._data(); self._exprs()

    # ---- expressions as a user would write them
    def _dynamics(self):
        s, x, u, z, p, pg = self.s, self.x, self.u, self.z, self.p, self.pg
        P = lambda i: p[i] if s['np'] > i else 0.0
        G = lambda i: pg[i] if s['npg'] > i else 0.0
        nx, nu = s['nx'], s['nu']
        u0 = u[0] if nu > 0 else 0.0
        u1 = u[1] if nu > 1 else 0.0
        zz = z[0] if s['nz'] > 0 else 0.0
        tt = 0.4 * ca.sin(2 * self.t) if s['t'] and s['integ'] == 'IRK' else 0.0
        f = []
        if s['dyn'] == 'nl':
            f = [(x[1] if nx > 1 else -0.5 * x[0]) + 0.3 * u1 + (u0 if nx == 1 else 0) + 0.2 * zz + P(1) * 0.3,
                 -ca.sin(x[0]) - 0.2 * (x[1] if nx > 1 else 0) + u0 + 0.5 * P(0) + 0.3 * G(0) * x[0] + tt, -0.7 * (x[2] if nx > 2 else 0) + x[0]][:nx]
            if nx == 1: f[0] += 0.5 * P(0) + 0.3 * G(0) * x[0] + tt
        else:
            f = [(x[1] if nx > 1 else -0.5 * x[0]) + 0.3 * u1 + (u0 if nx == 1 else 0) + 0.2 * zz, -x[0] - 0.2 * (x[1] if nx > 1 else 0) + u0 + 0.5 * P(0) + tt,
                 -0.7 * (x[2] if nx > 2 else 0) + x[0]][:nx]
        self.f = ca.vertcat(*f)
        self.galg = ca.vertcat(*[[zz + 0.1 * zz ** 3 - x[0] - 0.5 * u0, (z[1] if s['nz'] > 1 else 0) - x[-1] * u0][i] for i in range(s['nz'])]) if s['dyn'] == 'nl' else \
            ca.vertcat(*[[zz - x[0] - 0.5 * u0, (z[1] if s['nz'] > 1 else 0) - x[-1] + u0][i] for i in range(s['nz'])])
        if s['integ'] == 'DISCRETE':
            h = s['T'] / s['N']; self.disc = x + h * self.f + 0.5 * h * h * ca.vertcat(*[x[nx - 1 - i] * 0.3 for i in range(nx)])
            if s['nxn']: self.disc = ca.vertcat(*[self.disc[i] if i < nx else 0.5 * x[0] + 0.3 * u0 + 0.1 * i for i in range(s['nxn'])])       # transition to another state dimension

    def _data(self):
        """every number of the problem, under the name acados uses"""
        s = self.s; nx, nu, nz = s['nx'], s['nu'], s['nz']; d = {}
        I1 = INF if s['onesided'] else None
        d['x0'] = np.array([0.6, -0.4, 0.3][:nx])
        if s['x0'] == 'partial': d['idxbx_0'] = np.array([nx - 1]); d['lbx_0'] = np.array([-0.35]); d['ubx_0'] = np.array([0.45])
        if s['x0'] == 'eqpart': d['idxbx_0'] = np.array([nx - 1] + ([0] if nx > 1 else [])); d['lbx_0'] = np.array([-0.35] + ([0.5] if nx > 1 else [])); d['ubx_0'] = np.array([-0.35] + ([0.7] if nx > 1 else [])); d['idxbxe_0'] = np.array([0])
        if s['x0'] == 'box': d['idxbx_0'] = np.arange(nx)[::-1].copy(); d['lbx_0'] = (d['x0'] - 0.05)[::-1].copy(); d['ubx_0'] = (d['x0'] + 0.1)[::-1].copy()
        nbu = min(s['bu'], nu)
        if nbu: d['idxbu'] = np.arange(nu)[::-1][:nbu].copy(); d['lbu'] = np.array([-0.9, -1.5][:nbu]); d['ubu'] = np.array([0.7, 1.2][:nbu])
        nbx = min(s['bx'], nx)
        if nbx: d['idxbx'] = np.arange(nx)[::-1][:nbx].copy(); d['lbx'] = np.array([-0.45, -1.2, -2.][:nbx]); d['ubx'] = np.array([0.5, 0.58, 2.][:nbx])
        nbxe = min(s['bxe'], nx)
        if nbxe: d['idxbx_e'] = np.arange(nx)[:nbxe].copy(); d['lbx_e'] = np.array([-0.1, -0.45, -2.][:nbxe]); d['ubx_e'] = np.array([0.4, 0.2, 2.][:nbxe])
        if s['g']:
            d['C'] = np.array([[1.0, 0.5, 0.2], [0.2, -1.0, 0.1]])[:s['g'], :nx].copy(); d['D'] = np.array([[0.4, 0.1], [-0.3, 0.6]])[:s['g'], :nu].copy()
            d['lg'] = np.array([-1.0, -0.3])[:s['g']].copy(); d['ug'] = np.array([0.42, 0.9])[:s['g']].copy()
        if s['ge']: d['C_e'] = np.array([[1.0, 1.0, 0.3], [0.2, -1.0, 0.0]])[:s['ge'], :nx].copy(); d['lg_e'] = np.array([-1.0, -0.4])[:s['ge']].copy(); d['ug_e'] = np.array([0.3, 0.8])[:s['ge']].copy()
        for key, suf in (('h', ''), ('h0', '_0'), ('he', '_e')):
            if s[key]: d['lh' + suf] = np.array([-0.4, -1.0])[:s[key]].copy(); d['uh' + suf] = np.array({'': [0.33, .35], '_0': [0.5, .3], '_e': [0.45, .4]}[suf])[:s[key]].copy()
        for key, suf in (('phi', ''), ('phi0', '_0'), ('phie', '_e')):
            if s[key]: d['lphi' + suf] = np.array([-INF]) if I1 else np.array([-5.0]); d['uphi' + suf] = np.array([{'': 0.45, '_0': 0.8, '_e': 0.3}[suf]])
        if s['onesided']:
            for nm, i, v in (('lbu', 0, -INF), ('ubx', 0, INF), ('lg', 0, -INF), ('uh', 0, INF), ('lh_e', 0, -INF), ('ubx_e', 0, INF), ('lg_e', 0, -INF)):
                if nm in d: d[nm] = d[nm].copy(); d[nm][i] = v
        # slacks: soft is a list like ('bx','h','he',...) ; every constraint of that group at index 0 (and 1 if present and '2' suffix) is softened
        soft = list(s['soft'])
        self.softgroups = soft
        def sidx(group, n): return [i for i in ([0] if group + '*' not in soft else list(range(n))) if i < n] if (group in soft or group + '*' in soft) else []
        n = dict(bu=nbu, bx=nbx, g=s['g'], h=s['h'], phi=s['phi'], h_0=s['h0'], phi_0=s['phi0'], bx_e=nbxe, g_e=s['ge'], h_e=s['he'], phi_e=s['phie'])
        self.ncon = n
        self.sidx = {k: sidx(k, v) for k, v in n.items()}
        order = {'': ['bu', 'bx', 'g', 'h', 'phi'], '_0': ['bu', 'g', 'h_0', 'phi_0'], '_e': ['bx_e', 'g_e', 'h_e', 'phi_e']}
        self.n0 = {'bx_0': len(d.get('idxbx_0', [])) if s['x0'] != 'x0' else nx}
        if s['x0'] == 'none': self.n0['bx_0'] = 0
        self.ns = {suf: sum(len(self.sidx[g]) for g in order[suf]) for suf in order}
        for suf in order:
            m = self.ns[suf]
            if s['rev']:
                full = {'': ['bu', 'bx', 'g', 'h', 'phi'], '_0': ['bu', 'bx_0', 'g', 'h_0', 'phi_0'], '_e': ['bx_e', 'g_e', 'h_e', 'phi_e']}[suf]
                rev, ctr = [], 0
                for g in full:
                    nn = self.n0['bx_0'] if g == 'bx_0' else n[g]
                    for i in range(nn):
                        if g in self.sidx and i in self.sidx[g]: rev.append(0 if s['rev'] == 2 else ctr); ctr += 1     # rev==2: all soft constraints share slack 0
                        else: rev.append(-1)
                m = (1 if ctr else 0) if s['rev'] == 2 else ctr
                if m or self.ns[suf]: d['idxs_rev' + suf] = np.array(rev, int)
                self.ns[suf] = m
                if m and s['rev']:
                    d['ls' + suf] = np.zeros(m); d['us' + suf] = np.zeros(m)
            base = {'': 0.0, '_0': 0.4, '_e': 0.8}[suf]
            d['zl' + suf] = base + np.array([0.5, 0.7, 0.9, 1.1, 1.3, 1.5, 1.7, 1.9])[:m]; d['zu' + suf] = base + np.array([0.3, 0.2, 0.6, 0.4, 0.5, 0.8, 0.7, 0.35])[:m]
            d['Zl' + suf] = base + np.array([1.0, 2.0, 1.5, 2.5, 3.0, 1.2, 1.4, 1.6])[:m]; d['Zu' + suf] = base + np.array([2.0, 1.0, 2.5, 1.5, 0.5, 1.1, 1.6, 1.8])[:m]
        # cost
        ny, nye = nx + nu, nx
        W = np.diag([2.0, 1.0, 0.6][:nx] + [0.3, 0.5][:nu]); W[0, -1] = W[-1, 0] = 0.1
        if nx + nu == 1: W = np.array([[2.0]])
        for suf, m in (('', ny), ('_0', ny), ('_e', nye)):
            typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[suf]
            if suf == '_0' and typ is None: continue
            f = {'': 1.0, '_0': 1.7, '_e': 3.0}[suf]
            if typ in ('LLS', 'NLS'): d['W' + suf] = f * W[:m, :m]
            if typ in ('LLS', 'NLS', 'CONL'): d['yref' + suf] = np.array([0.1, -0.05, 0.02, 0.03, -0.1])[:m] * {'': 1, '_0': -1, '_e': 2}[suf]
            if typ == 'LLS':
                V = np.zeros((m, nx)); V[:nx, :nx] = np.eye(nx) + 0.1 * np.eye(nx, k=1); d['Vx' + suf] = V
                if suf != '_e':
                    Vu = np.zeros((m, nu)); Vu[nx:, :] = np.eye(nu); Vu[0, 0:1] = 0.2; d['Vu' + suf] = Vu
                    if nz: Vz = np.zeros((m, nz)); Vz[-1, 0] = 0.3; d['Vz' + suf] = Vz
        d['p'] = np.array([0.3, -0.2, 0.15])[:s['np']].copy(); d['pg'] = np.array([0.25, 0.5])[:s['npg']].copy()
        d['dt'] = grid_of(s)
        if s['scaling'] == 'custom': d['cost_scaling'] = np.linspace(0.5, 1.5, s['N'] + 1)
        if s['scaling'] == 'ones': d['cost_scaling'] = np.ones(s['N'] + 1)
        for k, v in (s['data'] or {}).items(): d[k] = np.array(v, float)
        self.d = d

    def _yexpr(self, suf):
        s, x, u, z, p, pg = self.s, self.x, self.u, self.z, self.p, self.pg
        P = lambda i: p[i] if s['np'] > i else 0.0
        rows = [x[0] + 0.1 * x[0] ** 2 + 0.2 * P(0)] + [x[i] + 0.05 * x[0] * x[i] for i in range(1, s['nx'])]
        if suf != '_e':
            if s['nz']: rows[0] += 0.2 * z[0]
            rows += [u[i] + 0.1 * x[0] * u[i] for i in range(s['nu'])]
            if s['t']: rows[0] += 0.1 * ca.cos(self.t)
        if s['npg']: rows[-1] += 0.2 * pg[0]
        return ca.vertcat(*rows)

    def _exprs(self):
        s, x, u, z, p, pg, S = self.s, self.x, self.u, self.z, self.p, self.pg, self.S
        P = lambda i: p[i] if s['np'] > i else 0.0
        self.y, self.ext, self.r_in_psi, self.psi = {}, {}, {}, {}
        for suf in ('', '_0', '_e'):
            typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[suf]
            if typ in ('NLS', 'CONL'): self.y[suf] = self._yexpr(suf) * (1.2 if suf == '_0' else 1)
            if typ == 'CONL':
                r = S.sym('r', self.y[suf].shape[0]); self.r_in_psi[suf] = r
                w = np.arange(1., r.shape[0] + 1)
                self.psi[suf] = 0.5 * ca.dot(w * r, r) + 0.3 * ca.sum1(ca.log(1 + ca.exp(r))) + (0.1 * P(0) * r[0] if s['np'] else 0)
            if typ == 'EXT':
                y = self._yexpr(suf); w = np.arange(1., y.shape[0] + 1) * {'': 1, '_0': 1.5, '_e': 2}[suf]
                self.ext[suf] = 0.5 * ca.dot(w * y, y) + 0.05 * x[0] ** 4 + 0.1 * x[-1]
        c = {}
        u0 = u[0] if s['nu'] else 0.0
        zz = z[0] if s['nz'] else 0.0
        if s['h']: c['h'] = ca.vertcat(*[x[0] ** 2 + 0.3 * u0 + 0.2 * P(1), x[-1] * u0 + 0.5 * x[0] + 0.2 * zz][:s['h']])
        if s['h0']: c['h_0'] = ca.vertcat(*[x[0] ** 2 + 0.5 * u0 + 0.1 * P(0), x[-1] + u0 ** 2][:s['h0']])
        if s['he']: c['h_e'] = ca.vertcat(*[x[0] ** 2 + x[-1] + 0.2 * P(0), x[0] * x[-1]][:s['he']])
        self.c = c; self.phi = {}
        for suf, key in (('', 'phi'), ('_0', 'phi0'), ('_e', 'phie')):
            if s[key]:
                r = S.sym('rphi', 2); rex = ca.vertcat(x[0] + 0.2 * (u0 if suf != '_e' else 0), x[-1] * (1.2 if suf == '' else 0.8) + 0.1 * x[0] ** 2)
                self.phi[suf] = (r, rex, ca.vertcat(r[0] ** 2 + 0.5 * r[1] ** 2 + 0.1 * r[0] * (P(0) if s['np'] else 1)))

    # ---- through the acados classes
    def model(self, name):
        from acados_template import AcadosModel
        s = self.s; m = AcadosModel(); m.name = name; m.x, m.u = self.x, self.u
        if s['nz']: m.z = self.z
        if s['np']: m.p = self.p
        if s['npg']: m.p_global = self.pg
        if s['t']: m.t = self.t
        if s['integ'] == 'DISCRETE': m.disc_dyn_expr = self.disc
        else:
            m.xdot = self.xdot
            if not s['nz']: m.f_expl_expr = self.f
            m.f_impl_expr = ca.vertcat(self.xdot - self.f, self.galg) if s['nz'] else self.xdot - self.f
        return m

    def ocp(self, name='mc', **opts):
        from acados_template import AcadosOcp
        s, d = self.s, self.d; o = AcadosOcp(); o.model = m = self.model(name)
        T = dict(LLS='LINEAR_LS', NLS='NONLINEAR_LS', CONL='CONVEX_OVER_NONLINEAR', EXT='EXTERNAL')
        o.parameter_values = d['p'].copy(); o.p_global_values = d['pg'].copy()
        for suf in ('', '_0', '_e'):
            typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[suf]
            if typ is None: continue
            setattr(o.cost, 'cost_type' + suf, T[typ])
            if suf in self.y: setattr(m, 'cost_y_expr' + suf, self.y[suf])
            if suf in self.psi: setattr(m, 'cost_psi_expr' + suf, self.psi[suf]); setattr(m, 'cost_r_in_psi_expr' + suf, self.r_in_psi[suf])
            if suf in self.ext: setattr(m, 'cost_expr_ext_cost' + suf, self.ext[suf])
            for k in ('W', 'yref', 'Vx', 'Vu', 'Vz'):
                if k + suf in d: setattr(o.cost, k + suf, d[k + suf].copy())
        c = o.constraints
        if s['x0'] == 'x0': c.x0 = d['x0'].copy()
        for k in ('lbu', 'ubu', 'idxbu', 'lbx', 'ubx', 'idxbx', 'lbx_e', 'ubx_e', 'idxbx_e', 'C', 'D', 'lg', 'ug', 'C_e', 'lg_e', 'ug_e', 'lh', 'uh', 'lh_0', 'uh_0', 'lh_e', 'uh_e',
                  'lphi', 'uphi', 'lphi_0', 'uphi_0', 'lphi_e', 'uphi_e', 'idxs_rev', 'idxs_rev_0', 'idxs_rev_e', 'ls', 'us', 'ls_0', 'us_0', 'ls_e', 'us_e', 'lbx_0', 'ubx_0', 'idxbx_0', 'idxbxe_0'):
            if k in d and not (s['x0'] == 'x0' and k in ('lbx_0', 'ubx_0', 'idxbx_0', 'idxbxe_0')):
                setattr(c, k, (d[k].astype(int) if k.startswith('idx') else d[k]).copy())
        for suf, key in (('', 'h'), ('_0', 'h_0'), ('_e', 'h_e')):
            if key in self.c: setattr(m, 'con_h_expr' + suf, self.c[key])
        for suf, (r, rex, phi) in self.phi.items():
            setattr(m, 'con_phi_expr' + suf, phi); setattr(m, 'con_r_expr' + suf, rex); setattr(m, 'con_r_in_phi' + suf, r)
            setattr(c, 'constr_type' + suf, 'BGP')
        if not s['rev']:
            for g, name_ in (('bu', 'idxsbu'), ('bx', 'idxsbx'), ('g', 'idxsg'), ('h', 'idxsh'), ('phi', 'idxsphi'), ('h_0', 'idxsh_0'), ('phi_0', 'idxsphi_0'),
                             ('bx_e', 'idxsbx_e'), ('g_e', 'idxsg_e'), ('h_e', 'idxsh_e'), ('phi_e', 'idxsphi_e')):
                if self.sidx[g]: setattr(c, name_, np.array(self.sidx[g], int))
        for suf in ('', '_0', '_e'):
            if self.ns[suf] or suf != '_0' or s['rev']:
                for k in ('zl', 'zu', 'Zl', 'Zu'): setattr(o.cost, k + suf, d[k + suf].copy())
            if not s['rev']:                                   # non-zero slack bounds given through data
                for nm in ('lsbu', 'usbu', 'lsbx', 'usbx', 'lsg', 'usg', 'lsh', 'ush', 'lsphi', 'usphi'):
                    if nm + suf in d and hasattr(c, nm + suf): setattr(c, nm + suf, d[nm + suf].copy())
        so = o.solver_options
        so.N_horizon = s['N']; so.tf = float(d['dt'].sum())
        if s['grid'] == 'steps': so.time_steps = d['dt'].copy()
        elif s['grid'] == 'nodes': so.shooting_nodes = np.concatenate(([0.], np.cumsum(d['dt'])))
        if s['grid'] in ('uniform',): so.tf = float(s['T'])
        if 'cost_scaling' in d: so.cost_scaling = d['cost_scaling'].copy()
        so.integrator_type = s['integ']
        if s['integ'] != 'DISCRETE':
            so.sim_method_num_stages = s['stages']; so.sim_method_num_steps = s['steps']
            so.collocation_type = {'GL': 'GAUSS_LEGENDRE', 'RADAU': 'GAUSS_RADAU_IIA'}[s['colloc']]
        so.cost_discretization = s['cdisc']
        so.nlp_solver_type = 'SQP'; so.qp_solver = 'PARTIAL_CONDENSING_HPIPM'; so.hessian_approx = 'GAUSS_NEWTON'
        so.nlp_solver_max_iter = 100; so.sim_method_newton_iter = 20 if s['integ'] != 'LIFTED_IRK' else 3
        if s['integ'] in ('IRK', 'GNSF'): so.sim_method_newton_tol = 1e-13
        for k, v in {**(s['opts'] or {}), **opts}.items(): setattr(so, k, np.array(v) if isinstance(v, list) and 'block_size' not in k else v)
        return o

    # ---- reference meaning
    def kinds(self): return ['_0'] + [''] * (self.s['N'] - 1) + ['_e']

    def args(self): return [self.x, self.u, self.z, self.p, self.pg, self.t]

    def cost_expr(self, suf):
        """unscaled cost without slacks as written down in the documentation"""
        s, d = self.s, self.d
        key = '' if suf == '_0' and s['cost0'] is None else suf
        typ = {'': s['cost'], '_0': s['cost0'], '_e': s['coste']}[key]
        if typ == 'EXT': return self.ext[key]
        if typ == 'LLS':
            y = ca.mtimes(d['Vx' + key], self.x)
            if key != '_e':
                if s['nu']: y = y + ca.mtimes(d['Vu' + key], self.u)
                if s['nz']: y = y + ca.mtimes(d['Vz' + key], self.z)
        else: y = self.y[key]
        r = y - d['yref' + key]
        if typ == 'CONL': return ca.substitute(self.psi[key], self.r_in_psi[key], r)
        return 0.5 * ca.bilin(ca.DM(d['W' + key]), r, r)

    def constraints(self, suf):
        """list of (group, expression, lower, upper, slack index or -1) in the documented order bu bx g h phi, and slack data"""
        s, d, x, u = self.s, self.d, self.x, self.u; out = []; N = s['N']
        softpos = {}
        def add(g, i, e, lo, up): out.append([g, e, float(lo), float(up), -1, (g, i)])
        if suf != '_e':
            for i in range(self.ncon['bu']): add('bu', i, u[int(d['idxbu'][i])], d['lbu'][i], d['ubu'][i])
        if suf == '_0':
            if s['x0'] == 'x0':
                for i in range(s['nx']): add('bx_0', i, x[i], d['x0'][i], d['x0'][i])
            elif s['x0'] != 'none':
                for i in range(len(d['idxbx_0'])): add('bx_0', i, x[int(d['idxbx_0'][i])], d['lbx_0'][i], d['ubx_0'][i])
        bx = {'': 'bx', '_e': 'bx_e'}.get(suf)
        if bx:
            t = '_e' if suf == '_e' else ''
            for i in range(self.ncon[bx]): add(bx, i, x[int(d['idxbx' + t][i])], d['lbx' + t][i], d['ubx' + t][i])
        if suf == '_e':
            for i in range(s['ge']): add('g_e', i, ca.mtimes(d['C_e'][i:i + 1], x), d['lg_e'][i], d['ug_e'][i])
        else:
            for i in range(s['g']): add('g', i, ca.mtimes(d['C'][i:i + 1], x) + (ca.mtimes(d['D'][i:i + 1], u) if s['nu'] else 0), d['lg'][i], d['ug'][i])
        hk = 'h' + suf
        if hk in self.c:
            for i in range(self.c[hk].shape[0]): add(hk, i, self.c[hk][i], d['lh' + suf][i], d['uh' + suf][i])
        if suf in self.phi:
            r, rex, phi = self.phi[suf]; e = ca.substitute(phi, r, rex); add('phi' + suf, 0, e, d['lphi' + suf][0], d['uphi' + suf][0])
        ctr = 0
        for row in out:
            g, i = row[5]
            if i in self.sidx.get(g, []): row[4] = 0 if s['rev'] == 2 else ctr; ctr += 1
        return [r[:5] for r in out]

    def slack(self, suf):
        d = self.d; m = self.ns[suf]
        if suf == '_0' and not m: return (np.zeros(0),) * 6
        key = suf
        ls, us = np.zeros(m), np.zeros(m)
        if self.s['rev'] and m: ls, us = d['ls' + suf], d['us' + suf]
        elif m:
            o = 0
            for g in {'': ['bu', 'bx', 'g', 'h', 'phi'], '_0': ['bu', 'g', 'h_0', 'phi_0'], '_e': ['bx_e', 'g_e', 'h_e', 'phi_e']}[suf]:
                k = len(self.sidx[g]); base = g.split('_')[0]; t = '_' + g.split('_')[1] if '_' in g else ''
                for nm, arr in (('ls' + base + t, ls), ('us' + base + t, us)):
                    if nm in d and k: arr[o:o + k] = d[nm]
                o += k
        return d['zl' + key], d['zu' + key], d['Zl' + key], d['Zu' + key], ls, us

    def dt(self): return self.d['dt']

    def scaling(self):
        return self.d['cost_scaling'] if 'cost_scaling' in self.d else np.append(self.d['dt'], 1.0)

    def sim_fun(self, h, num_steps=None, stages=None, with_cost=None):
        """MX Function (x,u,p,pg,t0) -> (x_next, z at the start[, integrated quantity]) of one shooting interval of length h"""
        s = self.s; nx, nz = s['nx'], s['nz']
        x, u, p, pg, t0 = ca.MX.sym('x', nx), ca.MX.sym('u', s['nu']), ca.MX.sym('p', s['np']), ca.MX.sym('pg', s['npg']), ca.MX.sym('t0')
        if s['integ'] == 'DISCRETE':
            F = ca.Function('disc', self.args(), [self.disc]); xn = F(x, u, ca.MX(0, 1), p, pg, t0)
            return ca.Function('phi', [x, u, p, pg, t0], [xn, ca.MX(0, 1)])
        ns_, st = num_steps or s['steps'], stages or s['stages']
        A, b, c = butcher('ERK' if s['integ'] == 'ERK' else 'IRK', st, s['colloc']); dt = h / ns_
        f = ca.Function('f', self.args(), [self.f]); g = ca.Function('g', self.args(), [self.galg])
        q = ca.Function('q', self.args(), [with_cost]) if with_cost is not None else None
        X, Z0, Q = x, None, 0
        if s['integ'] != 'ERK':
            w = ca.MX.sym('w', (nx + nz) * st); par = ca.vertcat(*(pp := [ca.MX.sym('xx', nx), u, p, pg, ca.MX.sym('tt')]))
            pv = ca.MX.sym('par', par.shape[0]); sp = ca.vertsplit(pv, np.cumsum([0, nx, s['nu'], s['np'], s['npg'], 1]).tolist())
            K = [w[i * (nx + nz):i * (nx + nz) + nx] for i in range(st)]; Zs = [w[i * (nx + nz) + nx:(i + 1) * (nx + nz)] for i in range(st)]
            res = []
            for i in range(st):
                xi = sp[0] + dt * sum(A[i, j] * K[j] for j in range(st)); a = (xi, sp[1], Zs[i], sp[2], sp[3], sp[4] + c[i] * dt)
                res += [K[i] - f(*a), g(*a)]
            rf = ca.rootfinder('rf', 'newton', dict(x=w, p=pv, g=ca.vertcat(*res)), dict(abstol=1e-14, max_iter=50, error_on_fail=False))
        for k in range(ns_):
            tk = t0 + k * dt
            if s['integ'] == 'ERK':
                Ks = []
                for i in range(st):
                    xi = X + dt * sum((A[i, j] * Ks[j] for j in range(i)), ca.MX.zeros(nx)); Ks.append(f(xi, u, ca.MX(0, 1), p, pg, tk + c[i] * dt))
                    if q is not None: Q = Q + dt * b[i] * q(xi, u, ca.MX(0, 1), p, pg, tk + c[i] * dt)
                X = X + dt * sum(b[i] * Ks[i] for i in range(st))
            else:
                sol = rf(np.zeros((nx + nz) * st), ca.vertcat(X, u, p, pg, tk))
                Ks = [sol[i * (nx + nz):i * (nx + nz) + nx] for i in range(st)]; Zv = [sol[i * (nx + nz) + nx:(i + 1) * (nx + nz)] for i in range(st)]
                if k == 0 and nz:
                    Z0 = 0
                    for i in range(st):
                        l = 1.0
                        for j in range(st):
                            if j != i: l *= -c[j] / (c[i] - c[j])
                        Z0 = Z0 + l * Zv[i]
                if q is not None:
                    for i in range(st):
                        xi = X + dt * sum(A[i, j] * Ks[j] for j in range(st)); Q = Q + dt * b[i] * q(xi, u, Zv[i], p, pg, tk + c[i] * dt)
                X = X + dt * sum(b[i] * Ks[i] for i in range(st))
        outs = [X, Z0 if Z0 is not None else ca.MX(0, 1)] + ([Q] if q is not None else [])
        return ca.Function('phi', [x, u, p, pg, t0], outs)


class Ref:
    """numeric reference of a Problem: cost, constraint values, Lagrangian gradient, KKT residuals"""
    def __init__(self, P, N_list=None):
        """P: Problem, or a list of Problems (one per phase) with the number of intervals of each phase; grid and scaling are those of the first"""
        Ps = P if isinstance(P, list) else [P]; N_list = N_list or [Ps[0].s['N']]
        assert len(Ps) == len(N_list)
        self.N = sum(N_list); self.dt = Ps[0].dt(); self.sc = Ps[0].scaling(); assert len(self.dt) == self.N
        self.Pk = [q for q, n in zip(Ps, N_list) for _ in range(n)] + [Ps[-1]]; self.P = Ps[0]
        self.kinds = self.P.kinds() if not isinstance(P, list) else ['_0'] + [''] * (self.N - 1) + ['_e']
        self.t0 = np.zeros(self.N + 1)   # documented: time starts at 0 on every shooting interval
        self.cons = [q.constraints(kd) for q, kd in zip(self.Pk, self.kinds)]; self.slk = [q.slack(kd) for q, kd in zip(self.Pk, self.kinds)]
        self.F = []; cache = {}
        for k in range(self.N + 1):
            kind = self.kinds[k]; h = round(float(self.dt[k]), 15) if k < self.N else None; key = (id(self.Pk[k]), kind, h)
            if key not in cache: cache[key] = self._stage(self.Pk[k], kind, h, self.Pk[k].s['cdisc'] == 'INTEGRATOR', self.cons[k])
            self.F.append(cache[key])

    def _stage(self, P, kind, h, integ, cons):
        s = P.s
        x, u, p, pg, t = ca.MX.sym('x', s['nx']), ca.MX.sym('u', s['nu'] if kind != '_e' else 0), ca.MX.sym('p', s['np']), ca.MX.sym('pg', s['npg']), ca.MX.sym('t')
        ce = P.cost_expr(kind)
        cexpr = ca.vertcat(*[c[1] for c in cons]) if cons else P.S(0, 1)
        base = ca.Function('b', P.args(), [ce, cexpr])
        if kind == '_e':
            l, c = base(x, ca.MX.zeros(s['nu']), ca.MX.zeros(s['nz']), p, pg, t); xn = ca.MX(0, 1); z = ca.MX(0, 1)
        else:
            phi = P.sim_fun(h, with_cost=ce if integ else None)
            r = phi(x, u, p, pg, t); xn, z = r[0], r[1]
            l, c = base(x, u, z, p, pg, t)
            if integ: l = r[2] / h
        w = ca.vertcat(u, x); nc = c.shape[0]
        f = ca.Function('stage', [x, u, p, pg, t], [xn, z, l, c, ca.jacobian(xn, w), ca.jacobian(l, w), ca.jacobian(c, w)])
        pi, lam = ca.MX.sym('pi', xn.shape[0]), ca.MX.sym('lam', nc); sc = ca.MX.sym('sc')
        hes = ca.hessian(sc * l + (ca.dot(pi, xn) if kind != '_e' else 0) + ca.dot(lam, c), w)[0]
        return dict(f=f, hess=ca.Function('lag_hess', [x, u, p, pg, t, pi, lam, sc], [hes]), kind=kind)

    def eval(self, k, x, u, p=None, pg=None):
        P = self.Pk[k]; d = P.d; p = d['p'] if p is None else p; pg = d['pg'] if pg is None else pg
        r = self.F[k]['f'](x, u if k < self.N else np.zeros(0), p, pg, self.t0[k])
        xn, z, l, c, A, gl, gc = [np.array(v.full()) for v in r]
        return dict(xn=xn.ravel(), z=z.ravel(), l=float(l), c=c.ravel(), A=A, gl=gl.ravel(), gc=gc.reshape(c.size, len(x) + (P.s['nu'] if k < self.N else 0)))

    def cost(self, X, U, SL, SU, ps=None, pg=None):
        tot = 0.0; sc = self.sc
        for k in range(self.N + 1):
            e = self.eval(k, X[k], U[k] if k < self.N else None, None if ps is None else ps[k], pg)
            zl, zu, Zl, Zu, _, _ = self.slk[k]
            sl, su = np.asarray(SL[k]), np.asarray(SU[k])
            tot += sc[k] * (e['l'] + zl @ sl + zu @ su + 0.5 * Zl @ sl ** 2 + 0.5 * Zu @ su ** 2)
        return tot

    def kkt(self, X, U, SL, SU, PI, LAM, ps=None, pg=None):
        """residuals in the acados convention; lam = [lower constraints, upper constraints, lower slack bounds, upper slack bounds]"""
        sc = self.sc; N = self.N
        R = dict(stat=0.0, eq=0.0, ineq=0.0, comp=0.0, sign=0.0, cost=0.0); where = {}
        def upd(k, v, w):
            if v > R[k]: R[k] = v; where[k] = w
        for k in range(N + 1):
            m = self.Pk[k].s['nu'] if k < N else 0
            e = self.eval(k, X[k], U[k] if k < N else None, None if ps is None else ps[k], pg)
            cons = self.cons[k]; nc = len(cons); zl, zu, Zl, Zu, ls, us = self.slk[k]; ns = len(zl)
            lam = np.asarray(LAM[k]); sl, su = np.asarray(SL[k]), np.asarray(SU[k])
            if lam.size != 2 * (nc + ns) or sl.size != ns or su.size != ns:
                R['dims'] = f'stage {k}: lam {lam.size} expected {2 * (nc + ns)}, slacks {sl.size}, {su.size} expected {ns}'; R['ok'] = False; return R
            ll, lu, lsl, lsu = lam[:nc], lam[nc:2 * nc], lam[2 * nc:2 * nc + ns], lam[2 * nc + ns:]
            g = sc[k] * e['gl'] + e['gc'].T @ (lu - ll)
            if k < N: g = g + e['A'].T @ PI[k]; upd('eq', np.abs(e['xn'] - X[k + 1]).max(), f'dynamics {k}')
            if k > 0: g[m:] -= PI[k - 1]
            if g.size: upd('stat', np.abs(g).max(), f'stage {k}: {g}')
            gsl = sc[k] * (zl + Zl * sl) - lsl; gsu = sc[k] * (zu + Zu * su) - lsu
            low, upp = np.zeros(nc), np.zeros(nc)
            for i, (grp, _, lo, up, si) in enumerate(cons):
                vl, vu = e['c'][i] - lo, up - e['c'][i]
                if si >= 0: vl += sl[si]; vu += su[si]; gsl[si] -= ll[i]; gsu[si] -= lu[i]
                if lo > -INF: upd('ineq', max(0.0, -vl), f'stage {k} {grp} lower'); upd('comp', abs(vl * ll[i]), f'stage {k} {grp} lower')
                else: upd('sign', abs(ll[i]), f'stage {k} {grp} multiplier of infinite lower bound')
                if up < INF: upd('ineq', max(0.0, -vu), f'stage {k} {grp} upper'); upd('comp', abs(vu * lu[i]), f'stage {k} {grp} upper')
                else: upd('sign', abs(lu[i]), f'stage {k} {grp} multiplier of infinite upper bound')
            if ns:
                upd('stat', max(np.abs(gsl).max(), np.abs(gsu).max()), f'slack stage {k}: {gsl} {gsu}')
                upd('ineq', max(0.0, (ls - sl).max(), (us - su).max()), f'slack bounds stage {k}')
                upd('comp', max(np.abs((sl - ls) * lsl).max(), np.abs((su - us) * lsu).max()), f'slack stage {k}')
            if lam.size: upd('sign', max(0.0, -lam.min()), f'stage {k}')
        R['where'] = where; R['ok'] = True; R['cost'] = self.cost(X, U, SL, SU, ps, pg)
        return R
