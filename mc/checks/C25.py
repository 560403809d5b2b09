"""Every assignment of small per-stage dimensions (including empty stages) to the seven iterate fields for small horizons is
enumerated; conversions, comparison, arithmetic and batch indexing are compared with plain list operations."""
import itertools, json, os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import mclib
from acados_template.acados_ocp_iterate import AcadosOcpIterate, AcadosOcpIterates, AcadosOcpFlattenedIterate, AcadosOcpFlattenedBatchIterate

PID = 'C25'
ASSUME = ['horizons 1..3 and 8..11 and 99/100 (name padding), field dimensions 0..3, batches up to 4']
F = ('x', 'u', 'z', 'sl', 'su', 'pi', 'lam')
NT = {'x': 1, 'u': 0, 'z': 0, 'sl': 1, 'su': 1, 'pi': 0, 'lam': 1}      # field has a terminal entry


def cases(tier):
    for N in (1, 2):
        yield dict(kind='dims', N=N, alpha=[0, 1, 2] if tier == 'thorough' or N == 1 else [0, 2])
    for N in (3, 8, 9, 10, 11, 99, 100): yield dict(kind='long', N=N)
    for pat in range(6): yield dict(kind='flat', pat=pat)
    for pat in range(4): yield dict(kind='batch', pat=pat, depth=3 if tier == 'thorough' else 2)
    yield dict(kind='iterates'); yield dict(kind='ctor')


def make(dims, base=0.0):
    """dims: field -> list of stage dimensions; every entry gets a distinct value"""
    c = itertools.count(1); out = {}
    for f in F: out[f] = [np.array([base + 0.5 * next(c) * (-1) ** i for i in range(d)]) for d in dims[f]]
    return out


def flat_of(d): return {f: np.concatenate([np.asarray(v, float) for v in d[f]] + [np.zeros(0)]) for f in F}


def special(dims):
    """contents a shortcut could confuse with 'nothing there'"""
    d = make(dims)
    yield {f: [0 * v for v in d[f]] for f in F}
    for g in F:
        for val in (0.0, -1.0, 1e-300, 1e300):
            yield dict(d, **{g: [np.full(v.shape, val) for v in d[g]]})
        yield {f: [(v if f == g else 0 * v) for v in d[f]] for f in F}
    for k in range(len(d['x'])): yield {f: [(0 * v if i == k else v) for i, v in enumerate(d[f])] for f in F}


def same_lists(a, b):
    return len(a) == len(b) and all(np.asarray(p).shape == np.asarray(q).shape and np.array_equal(p, q) for p, q in zip(a, b))


def check_iterate(d, ctx, tag):
    it = AcadosOcpIterate(**{f: [v.copy() for v in d[f]] for f in F})
    fl, ref = it.flatten(), flat_of(d)
    for f in F: ctx.close(getattr(fl, f), ref[f], f'flatten', lambda: f'{tag}: flatten().{f}', 0, 0)
    js = it.to_json(); js2 = it.to_json(indent=None, sort_keys=False)
    ctx.require(json.loads(js) == json.loads(js2), 'json-format', tag)
    for src in (dict(json_data=json.loads(js)), None):
        if src is None: open('it.json', 'w').write(js2); src = dict(filename='it.json')
        back = AcadosOcpIterate.from_json(**src)
        for f in F: ctx.require(same_lists(getattr(back, f), d[f]), 'json-roundtrip', lambda: f'{tag}: {f}: {[v.tolist() for v in getattr(back, f)]} instead of {[v.tolist() for v in d[f]]}')
        ctx.require(back.to_json() == js, 'json-roundtrip', f'{tag}: second dump differs')
    data = json.loads(js)
    exp = {}
    N = len(d['x']) - 1; w = len(str(N + 1))
    for f in F:
        for k, v in enumerate(d[f]):
            if v.size: exp[f'{f}_{k:0{w}d}'] = v.tolist()
    ctx.require(data == exp, 'json-content', lambda: f'{tag}: {data} expected {exp}')
    for f in F: ctx.require(same_lists(getattr(it, f), d[f]), 'mutated', f'{tag}: conversion changed {f}')
    ctx.trace()


def run(case, ctx):
    warnings.simplefilter('ignore')
    globals()['k_' + case['kind']](case, ctx)


def k_dims(case, ctx):
    N, al = case['N'], case['alpha']
    # x is never empty at stage 0..N together with others; enumerate (u,z,pi) and (sl,su,lam) stage dimensions independently with x
    for nx in itertools.product((1, 2), repeat=N + 1):
        for pick in (('u', 'z', 'pi'), ('sl', 'su', 'lam')):
            lens = [N + NT[f] for f in pick]
            for vec in itertools.product(al, repeat=sum(lens)) if N == 1 or sum(lens) <= 6 else itertools.product(al[:1] + al[-1:], repeat=sum(lens)):
                dims = {f: [1] * (N + NT[f]) for f in F}; dims['x'] = list(nx); o = 0
                for f, l in zip(pick, lens): dims[f] = list(vec[o:o + l]); o += l
                ctx.state(sorted(dims.items())); check_iterate(make(dims), ctx, f'dims {dims}')
                if ctx.viols: return
    ctx.sample(dims)


def k_long(case, ctx):
    N = case['N']
    for pat in range(4):
        dims = {f: [(1 + (k + i + pat) % 3) if f == 'x' or pat else 1 for k in range(N + NT[f])] for i, f in enumerate(F)}
        if pat == 2: dims['z'] = [0] * N; dims['sl'] = [0] * (N + 1)
        if pat == 3: dims['u'][-1] = 0; dims['pi'] = [0] * N; dims['lam'][0] = 0
        ctx.state(N, pat); check_iterate(make(dims), ctx, f'N={N} pattern {pat}')
        if N == 3:
            for j, d in enumerate(special(dims)): ctx.state(N, pat, j); check_iterate(d, ctx, f'N={N} pattern {pat} special content {j}')


def fl(dims, base): return AcadosOcpFlattenedIterate(**flat_of(make(dims, base)))


PATS = [{f: [2] * (2 + NT[f]) for f in F}, {f: [(i + k) % 3 for k in range(2 + NT[f])] for i, f in enumerate(F)}, dict({f: [1] * (1 + NT[f]) for f in F}, z=[0]),
        dict({f: [0] * (1 + NT[f]) for f in F}, x=[1, 1]), dict({f: [3] * (3 + NT[f]) for f in F}, sl=[0, 0, 0, 0]), dict({f: [1] * (1 + NT[f]) for f in F}, u=[0], pi=[0])]


def k_flat(case, ctx):
    dims = PATS[case['pat']]
    a, b = fl(dims, 0.25), fl(dims, -3.0)
    for nm, op in (('__add__', lambda p, q: p + q), ('__sub__', lambda p, q: p - q)):
        r = op(a, b)
        ctx.require(isinstance(r, AcadosOcpFlattenedIterate), 'arith-type', nm)
        for f in F: ctx.close(getattr(r, f), op(getattr(a, f), getattr(b, f)), 'arith', lambda: f'{nm} field {f}', 0, 0)
        for other in (1.0, None, make(dims)): ctx.rejects(lambda: op(a, other), 'arith-type', f'{nm} with {type(other)}', TypeError)
    for f in F: ctx.close(getattr(a, f), flat_of(make(dims, 0.25))[f], 'mutated', f, 0, 0)
    it = lambda base: AcadosOcpIterate(**make(dims, base))
    ctx.require(a.allclose(fl(dims, 0.25)) and it(.25).allclose(it(.25)), 'allclose', 'equal iterates')
    ctx.rejects(lambda: a.allclose(it(.25)), 'allclose-type', '', TypeError); ctx.rejects(lambda: it(.25).allclose(a), 'allclose-type', '', TypeError)
    ctx.require(a.inf_norm() == max(np.abs(getattr(a, f)).max() for f in F if getattr(a, f).size), 'inf_norm', 'inf_norm')
    for f in F:
        n = getattr(a, f).size
        for i in range(n):
            for rtol, atol in ((0, 1e-3), (1e-2, 0), (1e-5, 1e-6)):
                for sgn in (1, -1):
                    for fac in (0.5, 3.0):
                        c = fl(dims, 0.25); v = getattr(c, f); e = fac * (atol + rtol * abs(v[i])); v[i] += sgn * e
                        exp = fac < 1
                        if exp and rtol > 0 and False: continue
                        ctx.require(c.allclose(a, rtol=rtol, atol=atol) == exp, 'allclose', lambda: f'{f}[{i}] off by {sgn * e}, rtol {rtol} atol {atol}: should be {exp}')
                        d, o = make(dims, .25), 0
                        for vv in d[f]:
                            if i - o in range(vv.size): vv[i - o] += sgn * e
                            o += vv.size
                        ctx.require(AcadosOcpIterate(**d).allclose(it(.25), rtol=rtol, atol=atol) == exp, 'allclose', lambda: f'iterate {f}[{i}] off by {sgn * e}')
                        ctx.state(case['pat'], f, i, rtol, sgn, fac); ctx.trace()
            c = fl(dims, 0.0); getattr(c, f)[i] = -1e6; ctx.require(c.inf_norm() == 1e6, 'inf_norm', f'{f}[{i}]')
            c = fl(dims, 0.0); getattr(c, f)[i] = np.nan; ctx.require(not c.allclose(fl(dims, 0.0)), 'allclose-nan', f'{f}[{i}] NaN')


def k_batch(case, ctx):
    dims = PATS[case['pat']]; B = 4; n = {f: flat_of(make(dims))[f].size for f in F}
    items = [flat_of(make(dims, 10. * k)) for k in range(B + 3)]
    # special contents: all zero, one single field zero / negative / constant / infinite, everything equal to item 0
    items.append({f: 0 * items[0][f] for f in F}); items.append({f: items[0][f].copy() for f in F})
    for f in F:
        for val in (0.0, -1.0, 1e300, np.inf, 1e-300): items.append(dict(items[B], **{f: np.full(n[f], val)}))
        items.append(dict({g: 0 * items[0][g] for g in F}, **{f: items[B][f]}))
    def fresh(): return AcadosOcpFlattenedBatchIterate(**{f: np.stack([items[k][f] for k in range(B)]) for f in F}, N_batch=B)
    for j in range(B + 2, len(items)):
        for i in range(B):
            for first in (None, 0, B):                                          # the slot may have been written before
                batch = fresh(); exp = [items[k] for k in range(B)]
                if first is not None: batch[i] = AcadosOcpFlattenedIterate(**{f: items[first][f].copy() for f in F})
                batch[i] = AcadosOcpFlattenedIterate(**{f: items[j][f].copy() for f in F}); exp[i] = items[j]
                for k in range(B):
                    for f in F: ctx.close(getattr(batch, f)[k], exp[k][f], 'batch-value', lambda: f'batch[{i}] = item {j} (after {first}): {f} of item {k}', 0, 0)
                ctx.trace(); ctx.state(case['pat'], j, i, first)
                if ctx.viols: return
    ops = [('set', i, j) for i in range(B) for j in (B, B + 1)] + [('copy', 0, 3), ('copy', 2, 1), ('get', -1, 0)]
    for seq in mclib.sequences(ops, case['depth']):
        batch = AcadosOcpFlattenedBatchIterate(**{f: np.stack([items[k][f] for k in range(B)]) for f in F}, N_batch=B)
        model = [{f: items[k][f].copy() for f in F} for k in range(B)]
        for op in seq:
            if op[0] == 'set': batch[op[1]] = AcadosOcpFlattenedIterate(**{f: items[op[2]][f].copy() for f in F}); model[op[1]] = {f: items[op[2]][f] for f in F}
            elif op[0] == 'copy': batch[op[1]] = batch[op[2]]; model[op[1]] = dict(model[op[2]])
            else:
                g = batch[-1]; [ctx.close(getattr(g, f), model[-1][f], 'getitem', f'batch[-1].{f}', 0, 0) for f in F]
        for k in range(B):
            g = batch[k]; ctx.require(isinstance(g, AcadosOcpFlattenedIterate), 'getitem-type', '')
            for f in F: ctx.close(getattr(g, f), model[k][f], 'batch', lambda: f'{seq}: batch[{k}].{f}', 0, 0)
        ctx.require(batch.N_batch == B, 'N_batch', ''); ctx.trace(); ctx.state(case['pat'], seq)
        if ctx.viols: return
    for bad in (slice(0, 2), '0', 1.0, (0, 1), None): ctx.rejects(lambda: batch[bad], 'getitem-invalid', repr(bad))
    ctx.rejects(lambda: batch[B], 'getitem-invalid', 'out of range')


def k_iterates(case, ctx):
    for n_it in (1, 2, 3):
        for N in (1, 2, 3):
            dims = {f: [2 + i % 2] * (N + NT[f]) for i, f in enumerate(F)}
            ds = [make(dims, 100. * k) for k in range(n_it)]
            its = AcadosOcpIterates([AcadosOcpIterate(**d) for d in ds])
            for f in F:
                a = its.as_array(f); e = np.array([[v.tolist() for v in d[f]] for d in ds])
                ctx.require(a.shape == e.shape and np.array_equal(a, e), 'as_array', lambda: f'{f}: {a.tolist()} expected {e.tolist()}'); ctx.trace(); ctx.state(n_it, N, f)
            for bad in ('X', 'p', '', 'lambda'): ctx.rejects(lambda: its.as_array(bad), 'as_array-field', bad, ValueError)
            if N > 1:
                d2 = make(dict(dims, x=[1] + [2] * N)); ctx.rejects(lambda: AcadosOcpIterates([AcadosOcpIterate(**d2)]).as_array('x'), 'as_array-varying', 'varying nx', ValueError)


def k_ctor(case, ctx):
    d = make(PATS[0])
    for f in F:
        ctx.rejects(lambda: AcadosOcpIterate(**{g: d[g] for g in F if g != f}), 'ctor', f'missing {f}', ValueError)
        kw = {g: d[g] for g in F if g != f}; kw[f + '_traj'] = d[f]
        it = AcadosOcpIterate(**kw)
        for g in F:
            ctx.require(same_lists(getattr(it, g), d[g]), 'ctor-deprecated', f'{f}_traj -> {g}')
            ctx.require(same_lists(getattr(it, g + '_traj'), d[g]), 'property-deprecated', f'{g}_traj')
        ctx.trace(); ctx.state(f)
    ctx.rejects(lambda: AcadosOcpIterate.from_json(), 'from_json', 'no source', ValueError)


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__], chunk=4))
