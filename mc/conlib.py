"""Independent meaning of the constraints stored in an AcadosOcp: rows (group, expression, lower, upper) per stage type."""
import numpy as np, casadi as ca
from costlib import empty, args


def _np(v): return np.array(v, float).reshape(-1) if not empty(v) else np.zeros(0)


def rows(o, suf):
    m, c = o.model, o.constraints; x, u = args(m)[:2]; out = []
    def bounds(g, idx, lo, up, var):
        idx, lo, up = _np(idx), _np(lo), _np(up)
        assert len(idx) == len(lo) == len(up), (g, idx, lo, up)
        for i, a, b in zip(idx, lo, up): out.append((g, var[int(i)], a, b))
    if suf != '_e': bounds('bu', c.idxbu, c.lbu, c.ubu, u)
    if suf == '_0': bounds('bx', c.idxbx_0, c.lbx_0, c.ubx_0, x)
    elif suf == '': bounds('bx', c.idxbx, c.lbx, c.ubx, x)
    else: bounds('bx', c.idxbx_e, c.lbx_e, c.ubx_e, x)
    t = '_e' if suf == '_e' else ''
    C = getattr(c, 'C' + t); lg, ug = _np(getattr(c, 'lg' + t)), _np(getattr(c, 'ug' + t))
    C = np.array(C) if not empty(C) else np.zeros((0, x.shape[0]))
    D = np.zeros((C.shape[0], u.shape[0])) if t or empty(c.D) else np.array(c.D)
    assert C.shape[0] == len(lg) == len(ug) == D.shape[0], ('g', C.shape, D.shape, lg, ug)
    for i in range(C.shape[0]):
        e = ca.mtimes(ca.DM(C[i:i + 1]), x)
        if u.shape[0] and not t: e = e + ca.mtimes(ca.DM(D[i:i + 1]), u)
        out.append(('g', e, lg[i], ug[i]))
    h = getattr(m, 'con_h_expr' + suf); lh, uh = _np(getattr(c, 'lh' + suf)), _np(getattr(c, 'uh' + suf))
    n = 0 if empty(h) else h.shape[0]; assert n == len(lh) == len(uh), ('h' + suf, n, lh, uh)
    for i in range(n): out.append(('h', h[i], lh[i], uh[i]))
    phi = getattr(m, 'con_phi_expr' + suf); lp, up = _np(getattr(c, 'lphi' + suf)), _np(getattr(c, 'uphi' + suf))
    if not empty(phi):
        e = ca.substitute(phi, getattr(m, 'con_r_in_phi' + suf), getattr(m, 'con_r_expr' + suf))
        for i in range(e.shape[0]): out.append(('phi', e[i], lp[i], up[i]))
    return out


def fun(o, suf, drop=()):
    """numeric function -> (values, lower, upper, groups)"""
    r = [q for q in rows(o, suf) if q[0] not in drop]
    S = type(args(o.model)[0])
    f = ca.Function('con', args(o.model), [ca.vertcat(*[S(q[1]) for q in r]) if r else S(0, 1)])
    return f, np.array([q[2] for q in r]), np.array([q[3] for q in r]), [q[0] for q in r]


def margins(rows_, a, F=None):
    """smallest slack of the constraint set at a point (negative: infeasible); rows_ from fun()"""
    f, lo, up, _ = rows_
    v = f(*a).full().ravel()
    return min([1e30] + list(v - lo) + list(up - v)) if v.size else 1e30
