"""Independent meaning of the cost stored in an AcadosOcp (or any object with .model and .cost): numeric functions of (x,u,z,p,pg,t)."""
import numpy as np, casadi as ca
import mclib


def empty(v):
    if v is None: return True
    if isinstance(v, (list, tuple)): return len(v) == 0
    return 0 in np.shape(v) if isinstance(v, np.ndarray) else (v.is_empty() if hasattr(v, 'is_empty') else False)


def args(m):
    S = type(m.x) if isinstance(m.x, (ca.SX, ca.MX)) else ca.SX
    g = lambda v, n: v if isinstance(v, (ca.SX, ca.MX)) else S(0, 1)
    return [g(m.x, 0), g(m.u, 0), g(m.z, 0), g(m.p, 0), g(m.p_global, 0), m.t if isinstance(m.t, (ca.SX, ca.MX)) and not empty(m.t) else S.sym('t_unused')]


def expr(o, suf):
    """symbolic stage cost as stored (without slacks and scaling)"""
    m, c = o.model, o.cost; typ = getattr(c, 'cost_type' + suf)
    x, u, z = args(m)[:3]
    S = type(x)
    if typ == 'EXTERNAL': return getattr(m, 'cost_expr_ext_cost' + suf)
    num = lambda v: S(ca.DM(np.atleast_1d(v))) if isinstance(v, np.ndarray) else v
    yr = getattr(c, 'yref' + suf); yr = num(np.array(yr).reshape(-1, 1)) if isinstance(yr, np.ndarray) else yr
    if typ == 'LINEAR_LS':
        W = getattr(c, 'W' + suf); V = getattr(c, 'Vx' + suf)
        if empty(W): return S(0)
        y = ca.mtimes(ca.DM(V), x)
        if suf != '_e':
            if not empty(getattr(c, 'Vu' + suf)): y = y + ca.mtimes(ca.DM(getattr(c, 'Vu' + suf)), u)
            if not empty(getattr(c, 'Vz' + suf)): y = y + ca.mtimes(ca.DM(getattr(c, 'Vz' + suf)), z)
        r = y - yr
    else:
        y = getattr(m, 'cost_y_expr' + suf)
        if empty(y): return S(0)
        r = y - yr
        if typ == 'CONVEX_OVER_NONLINEAR': return ca.substitute(getattr(m, 'cost_psi_expr' + suf), getattr(m, 'cost_r_in_psi_expr' + suf), r)
        W = getattr(c, 'W' + suf)
    W = num(W)
    return 0.5 * ca.mtimes([r.T, W, r])


def fun(m, e, w_terminal=False):
    """Function (x,u,z,p,pg,t) -> value, gradient wrt (x,u,z)"""
    a = args(m)
    e = e if isinstance(e, (ca.SX, ca.MX)) else type(a[0])(e)
    if isinstance(a[0], ca.MX) and isinstance(e, ca.SX): e = ca.MX(ca.DM(e))
    return ca.Function('cost', a, [e, ca.gradient(e, ca.vertcat(a[0], a[1], a[2]))], dict(allow_free=False))


def grid(*sizes, vals=(-0.7, 0.0, 0.9), limit=40):
    """a fixed set of points per block size: all corners/centers of small grids, deterministic"""
    import itertools
    n = sum(sizes); pts = []
    if len(vals) ** n <= limit: pts = list(itertools.product(vals, repeat=n))
    else:
        pts = [[vals[(i * (k + 1) + k + (i * i if k % 2 else 0)) % len(vals)] * (1 + 0.13 * i) for i in range(n)] for k in range(limit // 2)]
        pts += [[v * ((-1) ** i if j else 1) for i in range(n)] for v in vals for j in (0, 1)]
        pts += [[0.8 * (i == j) - 0.3 * (i != j) for i in range(n)] for j in range(n)]
    out = []
    for q in pts:
        q = np.array(q, float); o = []; k = 0
        for s in sizes: o.append(q[k:k + s]); k += s
        out.append(o)
    return out
