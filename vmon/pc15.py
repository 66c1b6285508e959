"""C15: the simulator evaluates costs and Jacobians of all cost functions."""
import numpy as np

from . import costs, gen
from .costs import Skip
from .lean import lean
from .ref import fd_checked, fd_grad

PROPERTY = 'C15'
RULE = ('Simulators with 1-3 solvers (each with its own transfer function, '
        'amplitude function, noise or dissipation) and 1-4 cost functions '
        '(sharing solvers, scalar and vector valued), evaluated in random '
        'histories of costs / Jacobians / numeric gradients at changing '
        'pulses; oracle: concatenated reference costs and their sixth order '
        'differences by the optimization parameters; bookkeeping of the '
        'evaluation times counted by a shadow counter.')
ASSUMES = ['all solvers accept the same optimization parameters']


def group(rng, n, smooth=True):
    """Costs which accept the same parameter array."""
    n_t = int(rng.integers(1, 4))
    first = None
    out = []
    for _ in range(40):
        kind = costs.KINDS[rng.integers(len(costs.KINDS))]
        c = costs.make(rng, kind, n_t=n_t,
                       n_ctrl=int(rng.integers(1, 3)),
                       tf='random' if rng.random() < .7 else None,
                       amp='random' if rng.random() < .7 else 'none')
        if first is None:
            if c.p.rtf.n_ctrl * n_t > 10 or c.p.n_x > 12:
                continue
            first = c.p.rtf.n_ctrl
        if c.p.rtf.n_ctrl != first or c.p.n_x > 12:
            continue
        out.append(c)
        if len(out) == n:
            break
    return out


def wired(rng, n_solvers):
    from qopt import cost_functions as cf
    cs = group(rng, n_solvers)
    solvers, funcs, refs = [], [], []
    for c in cs:
        s, f = c.build()
        solvers.append(s)
        f.label = [f'{c.kind} {len(funcs)}']
        funcs.append(f)
        refs.append((c, s))
    # another cost function on an existing solver
    if rng.random() < .5:
        k = int(rng.integers(len(cs)))
        c = cs[k]
        if c.kind in ('state', 'operation', 'leakage'):
            class Twice(cf.CostFunction):
                """User defined vector valued cost function."""
                def __init__(self, inner):
                    super().__init__(solver=inner.solver,
                                     label=['twice', 'minus'])
                    self.inner = inner

                def costs(self):
                    v = self.inner.costs()
                    return np.array([2 * v, -v])

                def grad(self):
                    g = self.inner.grad()
                    return np.stack([2 * g, -g], axis=1)
            funcs.append(Twice(funcs[k]))
            refs.append((c, solvers[k], np.array([2., -1.])))
    order = rng.permutation(len(funcs))
    funcs = [funcs[i] for i in order]
    refs = [refs[i] for i in order]
    so = [solvers[i] for i in rng.permutation(len(solvers))]

    def value(y):
        out = []
        for r in refs:
            c, s = r[:2]
            x = c.p.transferred(y)
            v = c.value(c.p.u_of(x), x, c.samples(s))
            out += list(v * r[2]) if len(r) == 3 else [v]
        return np.array(out)
    return cs, so, funcs, value


def history(mon, rng, idx):
    from qopt.simulator import Simulator
    cs, solvers, funcs, value = wired(rng, 1 + idx % 3)
    if not cs:
        return
    p = cs[0].p
    stats = bool(rng.random() < .6)
    ps = [c.p for c in cs]
    y0 = gen.tame(ps, rng.normal(size=(p.n_t, p.rtf.n_ctrl)))
    late = bool(rng.random() < .3)
    sim = lean(rng, Simulator, solvers=solvers, cost_funcs=funcs,
                    optimization_parameters=None if late else y0.copy(),
                    record_performance_statistics=stats)
    if late:
        mon.check('no_pulse', sim.pulse is None)
        sim.pulse = y0.copy()
    note = ' || '.join(c.note for c in cs)
    mon.describe(costs=[c.kind for c in cs], problem=note)
    labels = []
    for f in funcs:
        labels += f.label
    mon.check('labels', list(sim.cost_indices) == labels, note)
    cur = y0
    n_cost = n_grad = 0
    kinds = []
    cached = {}

    def jac(y):
        k = y.tobytes()
        if k not in cached:
            j, err = fd_checked(value, y)
            cached[k] = np.moveaxis(j, 2, 1), err
        return cached[k]
    try:
        for s in solvers:
            if hasattr(s, 'noise_trace_generator'):
                s.noise_trace_generator.noise_samples
        for step in range(int(rng.integers(3, 7))):
            k = ['cost', 'jac', 'cost_stored', 'jac_stored', 'pulse'][
                rng.integers(5)]
            kinds.append(k)
            if k == 'pulse':
                cur = gen.tame(ps, rng.normal(size=y0.shape))
                sim.pulse = cur.copy()
                continue
            stored = k.endswith('stored')
            y = cur if stored else gen.tame(
                    ps, rng.normal(size=y0.shape))
            arg = None if stored else y.copy()
            if k.startswith('cost'):
                got = sim.wrapped_cost_functions(arg) if not stored else \
                    sim.wrapped_cost_functions()
                mon.close('costs', got, value(y), 0, 1e-7, note)
                mon.check('shape', np.shape(got) == (len(labels),), note)
                n_cost += 1
            else:
                got = sim.wrapped_jac_function(arg) if not stored else \
                    sim.wrapped_jac_function()
                n_grad += 1
                want, err = jac(y)
                if err > 1e-2:
                    mon.event('skipped_steep')
                    continue
                mon.close('jacobian', got, want, 1e-5, 1e-5 + err, note)
            if arg is not None:
                mon.check('parameters_unchanged', np.array_equal(arg, y))
            mon.check('pulse_kept', np.array_equal(sim.pulse, cur), note)
    except Skip:
        mon.event('skipped_rank_deficient')
        return
    if stats:
        a = sim.stats.cost_func_eval_times
        b = sim.stats.grad_func_eval_times
        mon.check('statistics', len(a) == n_cost and len(b) == n_grad
                  and all(len(r) == len(funcs) for r in a + b)
                  and all(t >= 0 for r in a + b for t in r),
                  f'{len(a)} {n_cost} {len(b)} {n_grad}')
    else:
        mon.check('no_statistics', sim.stats is None)
    mon.sig('history', *kinds, *[c.kind for c in cs], note)


def numeric(mon, rng, idx):
    """The built-in difference quotients."""
    from qopt.simulator import Simulator
    cs, solvers, funcs, value = wired(rng, 1 + idx % 2)
    if not cs:
        return
    p = cs[0].p
    y = gen.tame([c.p for c in cs], rng.normal(size=(p.n_t, p.rtf.n_ctrl)))
    note = ' || '.join(c.note for c in cs)
    mon.describe(costs=[c.kind for c in cs], problem=note)
    for s in solvers:
        if hasattr(s, 'noise_trace_generator'):
            s.noise_trace_generator.noise_samples
    try:
        want = np.moveaxis(fd_grad(value, y), 2, 1)
    except Skip:
        return
    scale = max(1., np.max(np.abs(want)))
    # curvature may be large for steep transfer functions
    sec = max(np.max(np.abs(np.moveaxis(fd_grad(
        value, y, h=1e-4), 2, 1) - want)), 0)
    if scale > 20 or sec > 1e-6 * scale:
        mon.event('skipped_steep')
        return
    # the stored pulse is only used if no other is given
    stored = y.copy() if rng.random() < .5 else y + rng.normal(
        scale=.3, size=y.shape)
    sim = lean(rng, Simulator, solvers=solvers, cost_funcs=funcs,
                    optimization_parameters=stored.copy(),
                    numeric_jacobian=bool(idx % 3 == 0))
    for sym in (True, False):
        d = 1e-5 if sym else 1e-7
        tol = 1e-5 * scale if sym else 1e-4 * scale ** 2
        got = lean(
            rng, sim.numeric_gradient, y.copy(), delta_eps=d, symmetric=sym)
        mon.close('numeric_gradient', got, want, 1e-4, tol,
                  f'symmetric={sym} {note}')
        sim.pulse = y.copy()
        mon.close('numeric_gradient_stored', sim.numeric_gradient(
            delta_eps=d, symmetric=sym), got, 0, 1e-14 / d * scale)
        sim.pulse = stored.copy()
        ana = sim.wrapped_jac_function(y)
        mon.close('jacobian', ana, want, 1e-4, 1e-4 * scale ** 2,
                  f'{idx % 3} {note}')
        diff = np.linalg.norm(got - ana)
        n, r = lean(
            rng, sim.compare_numeric_to_analytic_gradient, y.copy(),
            delta_eps=d, symmetric=sym)
        mon.close('comparison', n, diff, 1e-6, 1e-10, note)
        nn = np.linalg.norm(got) + np.linalg.norm(ana)
        if nn > 1e-6:
            mon.close('comparison', r, 2 * diff / nn, 1e-6, 1e-10, note)
        # the state of the simulator after the numeric derivative
        mon.close('costs', sim.wrapped_cost_functions(y), value(y), 0, 1e-7,
                  note)
    # the difference really is taken at the requested distance
    if not y.any():
        return
    d = float(rng.choice([.05, -.05, .1, -.01]))
    sym = bool(rng.random() < .4)
    got = lean(
            rng, sim.numeric_gradient, y.copy(), delta_eps=d, symmetric=sym)
    c0 = value(y)
    w = np.zeros_like(got)
    try:
        for i in np.ndindex(*y.shape):
            z = y.copy()
            z[i] += d
            if sym:
                z2 = y.copy()
                z2[i] -= d
                w[i[0], :, i[1]] = (value(z) - value(z2)) / (2 * d)
            else:
                w[i[0], :, i[1]] = (value(z) - c0) / d
    except Skip:
        return
    mon.close('finite_distance', got, w, 1e-6, 1e-6,
              f'{d} symmetric={sym} {note}')
    mon.sig('numeric', note)


def integers(mon, rng, idx):
    """Parameters given as integers: refused or correct."""
    from qopt.simulator import Simulator
    cs, solvers, funcs, value = wired(rng, 1)
    if not cs:
        return
    p = cs[0].p
    y = rng.integers(-2, 3, size=(p.n_t, p.rtf.n_ctrl))
    sim = lean(rng, Simulator, solvers=solvers, cost_funcs=funcs,
                    optimization_parameters=y)
    for s in solvers:
        if hasattr(s, 'noise_trace_generator'):
            s.noise_trace_generator.noise_samples
    try:
        want, err = fd_checked(value, y.astype(float))
        want = np.moveaxis(want, 2, 1)
        v = value(y.astype(float))
    except Skip:
        return
    try:
        got = sim.wrapped_cost_functions(y)
    except TypeError:
        mon.event('integer_parameters')
        mon.sig('int refused', cs[0].note)
        return
    mon.close('integer_parameters', got, v, 0, 1e-7, cs[0].note)
    mon.close('integer_parameters', sim.wrapped_jac_function(y), want, 1e-5,
              1e-5 + err, cs[0].note)
    scale = max(1., np.max(np.abs(want)))
    if scale < 20 and np.max(err) < 1e-6:
        for sym in (True, False):
            mon.close('integer_numeric_gradient', sim.numeric_gradient(
                y.copy(), delta_eps=1e-5 if sym else 1e-7, symmetric=sym),
                want, 1e-4, (1e-5 if sym else 1e-4 * scale) * scale,
                f'symmetric={sym} {cs[0].note}')
    mon.sig('int', cs[0].note)


QUICK_SCALE = 2
WORKLOADS = dict(history=(history, 400, 6000), numeric=(numeric, 120, 2000),
                 integers=(integers, 60, 800))
REQUIRED = ['costs', 'jacobian', 'labels', 'statistics', 'no_statistics',
            'numeric_gradient', 'comparison', 'finite_distance',
            'parameters_unchanged', 'pulse_kept', 'integer_parameters']
