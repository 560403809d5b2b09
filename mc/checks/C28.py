"""All small selection matrices, slack maps, weighting matrices, array shapes and nested formulation dictionaries of the
stated sizes are enumerated and the helper's answer is compared with its definition."""
import itertools, os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np, casadi as ca
import mclib
from acados_template.utils import J_to_idx_slack, is_column
from acados_template import AcadosOcp, J_to_idx, is_empty, casadi_length, make_object_json_dumpable, AcadosOcpConstraints
from acados_template import utils as U

PID = 'C28'
ASSUME = ['selection matrices up to 3x3 (4x2) with entries 0,1,2,-1; index vectors up to length 4; weights up to 3x3 over a small integer alphabet']

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def cases(tier):
    for s in SHAPES:
        if s == (3, 3):
            for first in itertools.product((0, 1, 2), repeat=3): yield dict(kind='J', shape=s, first=first)
        else: yield dict(kind='J', shape=s, first=None)
    yield dict(kind='J', shape=(4, 2), first=None)
    yield dict(kind='J', shape=(4, 3) if tier == 'thorough' else (3, 1), first=None)
    yield dict(kind='setters')
    for n in range(0, 5): yield dict(kind='idxs_rev', n=n)
    for n in (1, 2, 3): yield dict(kind='weight', n=n, thorough=tier == 'thorough')
    for k in ('shapes', 'status', 'json', 'classdict', 'square', 'tera'): yield dict(kind=k)
    for i in range(len(VALUES)): yield dict(kind='compare', i=i)
    yield dict(kind='hash')


def j_def(J):
    out = []
    for r in J:
        nz = [j for j, v in enumerate(r) if v != 0]
        if len(nz) != 1 or r[nz[0]] != 1: return None
        out.append(nz[0])
    return out


def js_def(J):
    """column j -> the row holding its 1; rows without entries are hard constraints"""
    J = np.asarray(J)
    if not np.isin(J, (0, 1)).all() or (J.sum(0) != 1).any() or (J.sum(1) > 1).any(): return None
    return [int(np.nonzero(J[:, j])[0][0]) for j in range(J.shape[1])]


def run(case, ctx):
    warnings.simplefilter('ignore')
    globals()['k_' + case['kind']](case, ctx)


def verdict(ctx, fn, exp, key, tag):
    if exp is None: ctx.rejects(fn, key + '-accepts-invalid', f'{tag} is invalid'); ctx.outcome(key + ':invalid')
    else:
        got = ctx.accepts(fn, key + '-rejects-valid', f'{tag}')
        ctx.outcome(key + ':valid')
        if got is not None: ctx.require(np.asarray(got).tolist() == exp, key, lambda: f'{tag}: got {np.asarray(got).tolist()}, expected {exp}')


def k_J(case, ctx):
    m, n = case['shape']; alpha = (0, 1, 2) if m * n > 4 else (0, 1, 2, -1)
    it = itertools.product(alpha, repeat=m * n) if case['first'] is None else (tuple(case['first']) + t for t in itertools.product(alpha, repeat=m * n - 3))
    for flat in it:
        J = np.array(flat, float).reshape(m, n); tag = J.tolist()
        verdict(ctx, lambda: J_to_idx(J.copy()), j_def(J), 'J_to_idx', tag)
        verdict(ctx, lambda: J_to_idx_slack(J.copy()), js_def(J), 'J_to_idx_slack', tag)
        ctx.state(m, n, flat); ctx.trace()
        if ctx.viols: return
    ctx.sample(f'J={tag}')


def k_setters(case, ctx):
    con_names = ('Jbx_0', 'Jbx', 'Jbx_e', 'Jbu')
    sl_names = ('Jsbx', 'Jsbu', 'Jsbx_e', 'Jsg', 'Jsh', 'Jsphi', 'Jsg_e', 'Jsh_0', 'Jsphi_0', 'Jsh_e', 'Jsphi_e')
    perms = [p for k in (1, 2, 3) for p in itertools.permutations(range(3), k)]
    probe = AcadosOcpConstraints()
    for nm in con_names + sl_names:
        idx = 'idx' + nm[1:]
        others = [a for a in dir(probe) if a.startswith('idx') and a != idx]
        for p in perms:
            J = np.zeros((len(p), 3))
            for r, c in enumerate(p): J[r, c] = 1
            if nm in sl_names: J = J.T.copy()
            c = AcadosOcpConstraints(); base = {a: np.asarray(getattr(c, a)).tolist() for a in others}
            setattr(c, nm, J)
            ctx.require(np.asarray(getattr(c, idx)).tolist() == list(p), 'setter', lambda: f'{nm}={J.tolist()} gives {idx}={np.asarray(getattr(c, idx)).tolist()} expected {list(p)}')
            now = {a: np.asarray(getattr(c, a)).tolist() for a in others}
            ctx.require(now == base, 'setter-side-effect', lambda: f'{nm} changed {[a for a in others if now[a] != base[a]]}')
            ctx.trace(); ctx.state(nm, p)
        ctx.rejects(lambda: setattr(AcadosOcpConstraints(), nm, np.array([[1., 1.], [0., 1.]])), 'setter-invalid', f'{nm} with two ones in a row')
        ctx.rejects(lambda: setattr(AcadosOcpConstraints(), nm, np.array([1., 0.])), 'setter-invalid', f'{nm} one-dimensional')


def k_idxs_rev(case, ctx):
    for v in itertools.product((-1, 0, 1, 2, 3), repeat=case['n']):
        pos = sorted({i for i in v if i >= 0})
        exp = (max(pos) + 1 if pos else 0) if pos == list(range(len(pos))) else None
        for conv in (np.array(v, int), np.array(v, float)):
            f = lambda: U.ns_from_idxs_rev(conv)
            if exp is None: ctx.rejects(f, 'ns_from_idxs_rev', f'{v}')
            else: ctx.require(f() == exp, 'ns_from_idxs_rev', lambda: f'{v}: got {f()} expected {exp}')
        ctx.state('idxs_rev', v); ctx.trace()


def k_weight(case, ctx):
    n = case['n']
    alpha = (-1, 0, 1, 2) if n < 3 else ((-1, 0, 2) if case['thorough'] else (0, 2))
    import fractions
    def pd(A):   # leading principal minors, exact
        A = [[fractions.Fraction(int(x)) for x in r] for r in A]
        k = len(A)
        for i in range(k):
            if A[i][i] <= 0: return False
            for r in range(i + 1, k):
                f = A[r][i] / A[i][i]
                A[r] = [a - f * b for a, b in zip(A[r], A[i])]
        return True
    for flat in itertools.product(alpha, repeat=n * n):
        A = np.array(flat, float).reshape(n, n)
        if (A != A.T).any(): ok = False
        elif (A == np.diag(np.diag(A))).all(): ok = bool((np.diag(A) >= 0).all())
        else: ok = pd(A)
        f = lambda: (U.verify_weighting_matrix(A.copy(), 'W'), True)
        if ok: ctx.accepts(f, 'weight-rejects-valid', f'W={A.tolist()}')
        else: ctx.rejects(f, 'weight-accepts-invalid', f'W={A.tolist()}')
        ctx.outcome(f'weight {ok}'); ctx.state('w', n, flat); ctx.trace()
        if ctx.viols: return
    for bad in ([[1.0]], np.ones(3), np.ones((2, 3)), np.ones((3, 2)), np.ones((1, 1, 1)), None):
        ctx.rejects(lambda: U.verify_weighting_matrix(bad, 'W'), 'weight-accepts-invalid', f'{bad!r}')


def k_shapes(case, ctx):
    shp = [(), (0,), (1,), (3,), (0, 0), (0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 2), (1, 1, 3), (2, 2, 2)]
    for s in shp:
        n = int(np.prod(s)); v = np.arange(1., n + 1).reshape(s); tag = f'shape {s}'
        for form in ('array', 'list', 'tuple'):
            w = v if form == 'array' else (v.tolist() if form == 'list' else (tuple(v.tolist()) if isinstance(v.tolist(), list) else v.tolist()))
            eff = np.asarray(w).shape
            sq = [k for k in eff if k != 1]
            f = lambda: U.cast_to_1d_nparray(w, 'n')
            if len(sq) > 1: ctx.rejects(f, 'cast1d', tag + form)
            else:
                r = ctx.accepts(f, 'cast1d', tag + form)
                if r is not None: ctx.require(isinstance(r, np.ndarray) and r.shape == (n,) and r.tolist() == v.reshape(-1).tolist(), 'cast1d', f'{tag} {form}: {r!r}')
            f = lambda: U.cast_to_2d_nparray(w, 'n')
            if len(eff) != 2: ctx.rejects(f, 'cast2d', tag + form)
            else:
                r = ctx.accepts(f, 'cast2d', tag + form)
                if r is not None: ctx.require(isinstance(r, np.ndarray) and r.shape == tuple(eff) and np.array_equal(r, np.asarray(w)), 'cast2d', f'{tag} {form}: {r!r}')
            ctx.state(s, form); ctx.trace()
        ctx.require(U.check_if_nparray_and_flatten(v, 'n').tolist() == v.reshape(-1).tolist(), 'flatten', tag)
        r = U.check_if_nparray_or_casadi_symbolic_and_flatten(v, 'n'); ctx.require(r.tolist() == v.reshape(-1).tolist(), 'flatten', tag)
        ctx.rejects(lambda: U.check_if_nparray_and_flatten(v.tolist(), 'n'), 'flatten', tag + ' list')
        if len(s) == 2: ctx.accepts(lambda: (U.check_if_2d_nparray(v, 'n'), U.check_if_2d_nparray_or_casadi_symbolic(v, 'n')), 'check2d', tag)
        else:
            ctx.rejects(lambda: U.check_if_2d_nparray(v, 'n'), 'check2d', tag)
            ctx.rejects(lambda: U.check_if_2d_nparray_or_casadi_symbolic(v, 'n'), 'check2d', tag)
        ctx.require(bool(is_empty(v)) == (n == 0), 'is_empty', tag)
        if len(s) in (1, 2): ctx.require(bool(is_column(v)) == (len(s) == 1 or s[1] == 1), 'is_column', tag)
    for S in (ca.SX, ca.MX):
        for s in [(0, 0), (0, 1), (1, 0), (1, 1), (3, 1), (1, 3), (2, 2), (2, 3)]:
            v = S.sym('v', *s); n = s[0] * s[1]; tag = f'{S.__name__}{s}'
            ctx.require(bool(is_empty(v)) == (n == 0), 'is_empty', tag); ctx.require(casadi_length(v) == n, 'casadi_length', tag)
            ctx.require(bool(is_column(v)) == (s[1] == 1 or s == (0, 0)), 'is_column', tag)
            r = U.check_if_nparray_or_casadi_symbolic_and_flatten(v, 'n')
            if n:
                val = np.arange(1., n + 1).reshape(s)
                ctx.close(ca.Function('f', [v], [r])(val).full(), val.flatten('F'), 'flatten', tag); ctx.require(r.shape == (n, 1), 'flatten', tag)
            f = lambda: U.cast_to_1d_nparray_or_casadi_symbolic(v, 'n')
            if 1 in s: ctx.require(f().shape == s, 'cast1d-sym', tag)
            elif n > 1: ctx.rejects(f, 'cast1d-sym', tag)
            ctx.require(U.cast_to_2d_nparray_or_casadi_symbolic(v, 'n').shape == s, 'cast2d-sym', tag)
            ctx.require(U.is_casadi_SX(v) == (S is ca.SX), 'is_SX', tag); ctx.state(tag); ctx.trace()
    for v, e in ((None, True), ([], True), ([0], False), ('', True), ('a', False), (set(), True), ({1}, False), (0, False), (0.0, False), (3, False)):
        ctx.require(bool(is_empty(v)) == e, 'is_empty', repr(v))
    for v, e in ((None, True), ([], True), ([1], False), (0, False), ('', False)):
        ctx.require(bool(U.is_none_or_empty_list(v)) == e, 'is_none_or_empty_list', repr(v))
    ctx.require(casadi_length(None) == 0 and casadi_length([1, 2]) == 2, 'casadi_length', 'None/list')
    for v, e in ((1, True), (np.int64(2), True), (1.0, False), (np.float64(1), False), ([1], False), (np.array([1]), False), ('1', False)):
        ctx.require(bool(U.is_scalar_integer(v)) == e, 'is_scalar_integer', repr(v))
    ctx.require(U.use_int_or_cast_to_1d_nparray(4, 'n') == 4, 'use_int', '4')
    ctx.require(U.use_int_or_cast_to_1d_nparray([4, 5], 'n').tolist() == [4, 5], 'use_int', '[4,5]')
    ctx.rejects(lambda: U.use_int_or_cast_to_1d_nparray(np.ones((2, 2)), 'n'), 'use_int', '2x2', TypeError)


def k_square(case, ctx):
    for s in itertools.product(range(4), repeat=2):
        f = lambda: U.check_if_square(np.zeros(s), 'M')
        (ctx.rejects(f, 'check_if_square', s) if s[0] != s[1] else ctx.accepts(lambda: (f(), 1), 'check_if_square', s)); ctx.state(s); ctx.trace()


def k_status(case, ctx):
    import subprocess
    names = [(i, U.status_to_str(i)) for i in range(-1, 10)]
    src = '#include "acados/utils/types.h"\n#include <stdio.h>\nint main(){' + ''.join(f'printf("%d ", (int) {n});' for _, n in names) + '}'
    open('s.c', 'w').write(src)
    p = subprocess.run(['gcc', '-w', '-I' + mclib.REPO, 's.c', '-o', 's'], capture_output=True, text=True)
    if ctx.require(p.returncode == 0, 'status', lambda: f'a status name of the Python layer does not exist in C: {p.stderr[:500]}'):
        got = [int(k) for k in subprocess.run(['./s'], capture_output=True, text=True).stdout.split()]
        for (i, n), g in zip(names, got): ctx.require(g == i, 'status', f'{n} is {g} in the C library, {i} in Python'); ctx.state(n); ctx.trace()
    ctx.require(U.status_to_str(12345) == 'UNKNOWN_STATUS', 'status', '12345')
    for s, e in dict(Solve_Succeeded=0, Solved_To_Acceptable_Level=0, Maximum_Iterations_Exceeded=2, Search_Direction_Becomes_Too_Small=3,
                     Diverging_Iterates=6, Infeasible_Problem_Detected=9, Whatever=-1).items():
        ctx.require(U.str_to_status_ipopt(s) == e, 'ipopt-status', s)


def k_json(case, ctx):
    import json
    for v in (np.arange(6.).reshape(2, 3), np.array([]), np.zeros((0, 3)), np.array([1, 2]), np.int64(5), np.int32(-3), ca.DM([[1, 2], [3, 4]]), np.array([[True, False]])):
        e = v.full().tolist() if isinstance(v, ca.DM) else np.asarray(v).tolist()
        ctx.require(json.loads(json.dumps({'a': v}, default=make_object_json_dumpable))['a'] == e, 'json', repr(v)); ctx.state(repr(v)); ctx.trace()
    for v in (ca.SX.sym('x'), object(), ca.MX.sym('y')):
        ctx.rejects(lambda: json.dumps({'a': v}, default=make_object_json_dumpable), 'json', repr(v), TypeError)


def k_classdict(case, ctx):
    class A:
        def __init__(s): s.__x = 1; s.y = {'_A__z': 2, 'w': {'_B__v': [3]}}; s._q = 4
    d = U.format_class_dict(A().__dict__)
    ctx.require(d == {'x': 1, 'y': {'z': 2, 'w': {'v': [3]}}, '_q': 4}, 'classdict', f'{d}'); ctx.trace(); ctx.state(1)
    e = U.casadi_expr_to_string(ca.vertcat(ca.SX.sym('a'), ca.SX.sym('b')))
    ctx.require(e == 'a\nb\n', 'expr-string', repr(e))


def k_tera(case, ctx):
    d = ctx.tmp
    for ver, req in itertools.product(('0.1.9', '0.2.0', '0.2.1', '0.10.0', '1.0.0'), repeat=2):
        p = os.path.join(d, 't'); open(p, 'w').write(f'#!/bin/sh\necho "t_renderer {ver}"\n'); os.chmod(p, 0o755)
        e = [int(k) for k in ver.split('.')] >= [int(k) for k in req.split('.')]
        ctx.require(bool(U.is_tera_version_sufficient(p, req)) == e, 'tera-version', f'{ver} >= {req}'); ctx.trace(); ctx.state(ver, req)
    for body in ('exit 3', 'echo nonsense', 'true'):
        p = os.path.join(d, 't'); open(p, 'w').write(f'#!/bin/sh\n{body}\n'); os.chmod(p, 0o755)
        ctx.require(not U.is_tera_version_sufficient(p, '0.2.0'), 'tera-version', body)
    ctx.require(not U.is_tera_version_sufficient(os.path.join(d, 'missing'), '0.2.0'), 'tera-version', 'missing')


VALUES = [1, 2.5, 'a', None, True, [], [1, 2], [1, 3], [[1.0], [2.0]], {'k': 1}, {'k': 2}, {'k': 1, 'l': None}, {}]
ARRAYS = [np.array([1., 2.]), np.array([1., 2.0005]), np.array([1., 2.2]), np.array([[1., 2.]]), np.array([1.]), np.array([]), np.eye(2)]


class Stub:
    def __init__(self, d): self.d = d; self.n = 0
    def make_consistent(self): self.n += 1
    def to_dict(self):
        import copy; return copy.deepcopy(self.d)


def k_compare(case, ctx):
    v = VALUES[case['i']]
    def same(a, b, tol):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray): return a.shape == b.shape and bool((np.abs(a - b) <= tol).all())
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): return False
        return a == b
    for tol in (0.0, 1e-3):
        for w in VALUES:
            for wrap in (lambda t: {'f': t}, lambda t: {'g': {'h': t}, 'z': 1}, lambda t: {'g': [{'h': t}, 3]}):
                if v in (None, []) and w in (None, []): continue      # both say "not given": a formulation loaded from json has one for the other
                got = U.compare_ocp_formulations(Stub(wrap(v)), Stub(wrap(w)), tol)
                ctx.require((len(got) == 0) == (same(v, w, tol)), 'compare', lambda: f'{wrap(v)} vs {wrap(w)} tol {tol}: mismatches {got}')
                ctx.state(case['i'], repr(w), tol, repr(wrap(0))); ctx.trace()
        for a in ARRAYS:
            for b in ARRAYS:
                got = U.compare_ocp_formulations(Stub({'v': v, 'c': {'a': a}}), Stub({'v': v, 'c': {'a': b}}), tol)
                ctx.require(got == ([] if same(a, b, tol) else ['c.a']), 'compare-array', lambda: f'{a} vs {b} tol {tol}: {got}')
                got = U.compare_ocp_formulations(Stub({'c': {'a': ca.DM(a)}}), Stub({'c': {'a': ca.DM(b)}}), tol)
                A, B = ca.DM(a).full(), ca.DM(b).full()
                ctx.require(got == ([] if same(A, B, tol) else ['c.a']), 'compare-DM', lambda: f'{a} vs {b} tol {tol}: {got}')
                ctx.trace()
    for ign in (('external_function_files_model',), ('external_function_files_ocp',), ('json_loaded',), ('dims', 'n_global_data')):
        d1, d2 = {'dims': {'nx': 1}}, {'dims': {'nx': 1}}
        for d, val in ((d1, 1), (d2, 2)):
            c = d
            for k in ign[:-1]: c = c.setdefault(k, {})
            c[ign[-1]] = val
        ctx.require(U.compare_ocp_formulations(Stub(d1), Stub(d2), 0.) == [], 'compare-ignored', f'{ign}')
    ctx.require(U.compare_ocp_formulations(Stub({'a': v}), Stub({'a': v, 'b': 1}), 0.) == ['b'], 'compare', 'additional field')
    ctx.require(U.compare_ocp_formulations(Stub({'a': v, 'b': None}), Stub({'a': v}), 0.) == ['b'], 'compare', 'missing field')


def k_hash(case, ctx):
    base = {'a': 1, 'b': np.array([1., 2.]), 'dims': {'nx': 2, 'n_global_data': 5}, 's': 'x', 'l': [1, {'q': 2}], 'json_loaded': True}
    import copy
    H = lambda d: U.hash_class_instance(copy.deepcopy(d))
    h0 = H(base)
    perm = dict(reversed(list(base.items())))
    ctx.require(H(perm) == h0, 'hash', 'depends on key order')
    seen = {h0}
    for path, val in ((('a',), 2), (('b',), np.array([1., 2.0000001])), (('b',), np.array([2., 1.])), (('dims', 'nx'), 3), (('s',), 'y'), (('l',), [1, {'q': 3}]), (('l',), [{'q': 2}, 1])):
        d = copy.deepcopy(base); c = d
        for k in path[:-1]: c = c[k]
        c[path[-1]] = val; h = H(d)
        ctx.require(h not in seen, 'hash', f'{path}={val} not distinguished'); seen.add(h); ctx.trace(); ctx.state(path, repr(val))
    for path in (('json_loaded',), ('dims', 'n_global_data')):
        d = copy.deepcopy(base); c = d
        for k in path[:-1]: c = c[k]
        c[path[-1]] = 77
        ctx.require(H(d) == h0, 'hash', f'ignored field {path} changes the hash')


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], chunk=4))
