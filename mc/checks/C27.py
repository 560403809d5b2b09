"""Every sequence of set_value / horizon changes up to the depth bound is executed on the real AcadosParamManager and on a
plain dictionary model; after each sequence every getter is compared for every name and stage."""
import itertools, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np, casadi as ca
import mclib
from acados_template import AcadosParamManager, AcadosParam

PID = 'C27'
ASSUME = ['parameter shapes: scalar, vector, 1x2 row, 2x2 and 3x2 matrices; horizons 0..4; values drawn from a fixed pool']

LAYOUTS = {
    'vec_mat': [('a', np.array([[1.], [2.]])), ('M', np.array([[3., 4.], [5., 6.]]))],
    'scal_row_mat': [('s', np.array([[7.]])), ('r', np.array([[8., 9.]])), ('T', np.arange(10., 16.).reshape(3, 2))],
    'one': [('q', np.array([[0.5]]))],
}
NEW = lambda shape, k: (100. * (k + 1) + np.arange(float(np.prod(shape)))).reshape(shape)


def as2d(v):
    v = np.asarray(v, float)
    return v.reshape(-1, 1) if v.ndim == 1 else v


def ops_for(layout, depth):
    names = [n for n, _ in LAYOUTS[layout]]
    ops = [('N', n) for n in (0, 1, 2, 3)]
    for nm in names[:2]:
        for st in (0, 1, 2, 3): ops.append(('set', nm, st))
    return ops


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for layout in LAYOUTS:
        for N0 in (0, 2):
            for SX in (True, False):
                d = depth if (SX or tier == 'thorough') else 2
                ops = ops_for(layout, d)
                for first in ops:
                    yield dict(kind='seq', layout=layout, N0=N0, SX=SX, first=first, depth=d)
    for layout in LAYOUTS:
        yield dict(kind='static', layout=layout)


def apply(pm, model, op, k, ctx, layout, tag):
    shapes = {n: as2d(v).shape for n, v in LAYOUTS[layout]}
    if op[0] == 'N':
        pm.N_horizon = op[1]; old = model['N']
        for n in range(old + 1, op[1] + 1): model['v'][n] = dict(model['def'])
        for n in list(model['v']):
            if n > op[1]: del model['v'][n]
        model['N'] = op[1]
    else:
        _, nm, st = op; val = NEW(shapes[nm], k)
        if st > model['N']:
            ctx.rejects(lambda: pm.set_value(nm, val, st), 'stage-range', f'{tag}: set_value at stage {st} > N={model["N"]}', IndexError)
        else:
            pm.set_value(nm, val.copy(), st); model['v'][st] = dict(model['v'][st]); model['v'][st][nm] = val


def observe(pm, model, layout, ctx, tag):
    names = [n for n, _ in LAYOUTS[layout]]; N = model['N']
    ctx.require(pm.N_horizon == N, 'N_horizon', lambda: f'{tag}: N_horizon reads {pm.N_horizon}, expected {N}')
    flat = []
    for st in range(N + 1):
        for nm in names:
            got = np.asarray(pm.get_value(nm, st)); exp = model['v'][st][nm]
            ctx.require(got.shape == exp.shape and np.array_equal(got, exp), 'get_value', lambda: f'{tag}: get_value({nm},{st}) = {got.tolist()} expected {exp.tolist()}')
        p = np.concatenate([model['v'][st][nm].flatten('F') for nm in names]); flat.append(p)
        ctx.close(pm.get_p_stagewise_values(st), p, 'stagewise', lambda: f'{tag}: get_p_stagewise_values({st})', 0, 0)
    ctx.close(pm.get_p_stagewise_values_flat(), np.concatenate(flat), 'flat', lambda: f'{tag}: flattened vector', 0, 0)
    for st in (-1, N + 1):
        for nm, f in (('get_value', lambda: pm.get_value(names[0], st)), ('stagewise', lambda: pm.get_p_stagewise_values(st)),
                      ('set_value', lambda: pm.set_value(names[0], LAYOUTS[layout][0][1], st))):
            ctx.rejects(f, 'stage-range', f'{tag}: {nm} at stage {st} with N={N}', IndexError)
    ctx.state(layout, N, [sorted((k, v.tolist()) for k, v in model['v'][s].items()) for s in range(N + 1)])


def run(case, ctx):
    layout = case['layout']
    if case['kind'] == 'static': return static(layout, ctx)
    mk = lambda: [AcadosParam(n, v.copy()) for n, v in LAYOUTS[layout]]
    ops = ops_for(layout, case['depth'])
    for rest in mclib.sequences(ops, case['depth'] - 1):
        seq = (tuple(case['first']),) + rest
        pm = AcadosParamManager(mk(), N_horizon=case['N0'], use_SX=case['SX'])
        d = {n: as2d(v) for n, v in LAYOUTS[layout]}
        model = {'N': case['N0'], 'def': d, 'v': {n: dict(d) for n in range(case['N0'] + 1)}}
        tag = f'N0={case["N0"]} {seq}'
        for k, op in enumerate(seq): apply(pm, model, op, k, ctx, layout, tag)
        observe(pm, model, layout, ctx, tag); ctx.trace()
        if ctx.viols: return
    ctx.sample(tag)


def static(layout, ctx):
    """position of every symbolic entry in the stage vector = position of its value; defaults not shared with the caller"""
    for SX in (True, False):
        for N in (0, 1, 3):
            params = [AcadosParam(n, v.copy()) for n, v in LAYOUTS[layout]]
            pm = AcadosParamManager(params, N_horizon=N, use_SX=SX)
            p = pm.get_p_stagewise_expression()
            ctx.require(isinstance(p, ca.SX if SX else ca.MX), 'symbolics', 'expression has the wrong symbolic type')
            exprs = [pm.get_expression(n) for n, _ in LAYOUTS[layout]]
            f = ca.Function('f', exprs, [p])
            for st in range(N + 1):
                vals = []
                for k, (n, v) in enumerate(LAYOUTS[layout]):
                    val = NEW(as2d(v).shape, k + 10 * st); pm.set_value(n, val, st); vals.append(val)
                    e = pm.get_expression(n)
                    ctx.require(tuple(e.shape) == as2d(v).shape, 'expr-shape', f'{n}: expression shape {e.shape}')
                ctx.close(f(*vals).full(), pm.get_p_stagewise_values(st), 'expr-position', f'{layout} stage {st}: symbolic and numeric parameter vectors', 0, 0)
                ctx.trace(); ctx.state(layout, SX, N, st)
            for bad in (-1, 1.5, '3'):
                ctx.rejects(lambda: setattr(pm, 'N_horizon', bad), 'N-type', f'N_horizon={bad!r}')
                ctx.require(pm.N_horizon == N, 'N-type', 'rejected horizon changed the value')
            # in-place edit of a stage's value stays at that stage, also for stages added later
            n0, v0 = LAYOUTS[layout][0]
            orig = as2d(v0).copy(); pm.N_horizon = N + 2
            for st in (N + 1, N + 2):
                ctx.close(pm.get_value(n0, st), as2d(v0), 'new-stage-default', f'default of added stage {st}', 0, 0)
            pm.get_value(n0, N + 1)[0, 0] = -77.
            ctx.close(pm.get_value(n0, N + 2), as2d(v0), 'stage-aliasing', 'editing one added stage changed the next one', 0, 0)
            pm.N_horizon = N + 3
            ctx.close(pm.get_value(n0, N + 3), as2d(v0), 'stage-aliasing', 'editing an added stage changed the default', 0, 0)


if __name__ == '__main__':
    sys.exit(mclib.main(sys.modules[__name__]))
