"""C22: simulated annealing stays on the allowed grid and returns the best
pulse it has visited."""
import random

import numpy as np
from scipy import stats

from . import opt, ref
from .ref import op

PROPERTY = 'C22'
RULE = ('Random discrete pulse optimizations (linear costs and real control '
        'problems, one or several cost functions, different step sizes and '
        'ratios, tight and wide bounds, hot, cold and cooling schedules, '
        'repeated runs). The simulator records every visited pulse; an '
        'offline checker judges the complete recorded trajectory. Distinct '
        'by shape, step size, step ratio, temperatures and steps.')
ASSUMES = ['random numbers of numpy are uniform and independent; '
           'statistical bounds have a false alarm probability below 1e-9 '
           'per run', 'the start lies within the bounds']


def moves(mon, rng, idx):
    """Single moves of the annealer."""
    from qopt.optimize import PulseAnnealer
    shape = (int(rng.integers(1, 6)), int(rng.integers(1, 4)))
    size = int(rng.integers(1, 5))
    ratio = [1., 1., 0., float(rng.uniform(.05, .95))][rng.integers(4)]
    wide = bool(rng.random() < .5)
    span = 10 ** 6 if wide else int(rng.integers(1, 4))
    mid = rng.integers(-5, 6, size=shape).astype(float)
    if rng.random() < .3:
        mid = mid.astype(int)
    lo = mid - rng.integers(0, span + 1, size=shape) - (span if wide else 0)
    hi = mid + rng.integers(0, span + 1, size=shape) + (span if wide else 0)
    bounds = np.array([lo, hi]) if rng.random() < .7 else [lo, hi]
    seen = []

    def energy(x):
        seen.append(np.array(x))
        return np.array([3., 4.]) if len(seen) % 2 else 7.
    note = f'{shape} size={size} ratio={ratio:.2f} wide={wide}'
    mon.describe(setup=note)
    a = PulseAnnealer(initial_state=mid.copy(), bounds=bounds,
                      energy_function=energy, step_size=size,
                      step_ratio=ratio, Tmax=1., Tmin=.1, steps=5, updates=0)
    n = 300
    diffs = []
    b0 = np.array(bounds).copy()
    for _ in range(n):
        before = a.state
        keep = before.copy()
        a.move()
        mon.check('state_not_overwritten', a.state is not before
                  and np.array_equal(before, keep), note)
        new = a.state
        if not mon.check('move_shape', np.shape(new) == shape, note):
            return
        mon.check('within_bounds', np.all(new >= lo) and np.all(new <= hi),
                  f'{new} {lo} {hi} {note}')
        d = new - keep
        mon.check('integer_step', np.array_equal(d, np.round(d))
                  and np.max(np.abs(d)) <= size, f'{d} {note}')
        diffs.append(d.copy())
    mon.check('bounds_unchanged', np.array_equal(np.array(bounds), b0), note)
    diffs = np.array(diffs).reshape(n, -1)
    if ratio == 0:
        mon.check('no_updates', not diffs.any(), note)
    elif wide:
        # every increment occurs with its probability
        m = diffs.size
        q = 1e-13
        for v in range(-size, size + 1):
            p = ratio / (2 * size + 1) + (0 if v else 1 - ratio)
            k = np.sum(diffs == v)
            ok = stats.binom.cdf(k, m, p) > q and \
                stats.binom.sf(k - 1, m, p) > q
            mon.check('increment_distribution', ok,
                      lambda: f'{v}: {k} of {m}, p={p} {note}')
        if diffs.shape[1] > 1:
            # elements move independently
            k = int(np.sum(diffs[:, 0] * diffs[:, 1] > 0))
            p = ratio * size / (2 * size + 1)
            p = 2 * p * p
            ok = stats.binom.cdf(k, n, p) > q and \
                stats.binom.sf(k - 1, n, p) > q
            mon.check('independent_elements', ok, f'{k} of {n}, p={p} '
                                                  f'{note}')
    elif ratio == 1 and np.all(hi - lo >= 1):
        mon.check('moves_at_bounds', diffs.any(axis=0).all(), note)
    x = a.state
    mon.close('energy_is_norm', a.energy(), 5., 1e-12, 0, note)
    mon.close('energy_is_norm', a.energy(), 7., 1e-12, 0, note)
    mon.close('energy_argument', seen[0], x.T.flatten(), 0, 0, note)
    for bad in (1.5, 2., '1', None):
        a.step_size = bad
        mon.raises('bad_step_refused', ValueError, a.move)
    a.step_size = 0
    mon.raises('bad_step_refused', ValueError, a.move)
    mon.sig('move', note)


def problem(rng):
    """sim kwargs, shape, exact cost vector."""
    if rng.random() < .75:
        pr = opt.AffineProblem(rng, 1)
        return pr.sim_kwargs(bool(rng.random() < .8)), (pr.n_t, pr.n_c), \
            pr.costs, pr.labels, 'affine'
    from qopt.cost_functions import OperationInfidelity, LeakageError
    from qopt.solver_algorithms import SchroedingerSolver
    d = int(rng.integers(2, 4))
    n_t, n_c = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    h0 = ref.herm(rng, d)
    hc = [ref.herm(rng, d, kind='full') for _ in range(n_c)]
    tgt = ref.unitary(rng, d)
    s = SchroedingerSolver(h_drift=[op(h0)], h_ctrl=[op(h) for h in hc],
                           tau=np.full(n_t, .3))
    comp = [0, 1][:d - 1]
    kw = dict(solvers=[s], cost_funcs=[OperationInfidelity(s, op(tgt)),
                                       LeakageError(s, comp)])

    def cost(y):
        u = np.eye(d)
        for r in y:
            u = ref.expm(-.3j * (h0 + sum(x * h for x, h in zip(r, hc)))) @ u
        v = u[np.ix_(comp, comp)]
        return np.array([
            1 - abs(np.trace(tgt.conj().T @ u)) ** 2 / d ** 2,
            1 - np.sum(np.abs(v) ** 2) / len(comp)])
    return kw, (n_t, n_c), cost, ['Operator Infidelity', 'Leakage Error'], \
        'control'


def run(mon, rng, idx):
    from qopt.optimize import SimulatedAnnealing
    kw, shape, cost, labels, kind = problem(rng)
    labels = [x for f in kw['cost_funcs'] for x in f.label]
    size = int(rng.integers(1, 4))
    ratio = 1. if rng.random() < .5 else float(rng.uniform(.2, .9))
    steps = int(rng.integers(1, 150))
    sched = ['cold', 'hot', 'cooling', 'default'][rng.integers(4)]
    temp = dict(cold=(1e-13, 1e-14), hot=(1e16, 1e15), cooling=(1e14, 1e-14),
                default=(1., 1e-6))[sched]
    half = int(rng.integers(1, 12))
    lo = -half + rng.integers(-2, 1, size=shape).astype(float)
    hi = half + rng.integers(0, 3, size=shape).astype(float)
    store = bool(rng.random() < .3)
    args = dict(bounds=np.array([lo, hi]), steps=steps,
                updates=[0, 1, 5, steps][rng.integers(4)],
                store_optimizer=store)
    if size != 1 or rng.random() < .5:
        args['step_size'] = size
    if ratio != 1. or rng.random() < .5:
        args['step_ratio'] = ratio
    if sched != 'default':
        args['initial_temperature'], args['final_temperature'] = temp
    sim = opt.recording(kw)
    o = SimulatedAnnealing(sim, **args)
    note = f'{kind} {shape} size={size} ratio={ratio:.2f} steps={steps} ' \
           f'{sched} half={half}'
    mon.describe(setup=note)
    for rnd in range(int(rng.integers(1, 4))):
        y0 = np.round(rng.uniform(lo, hi))
        if rng.random() < .2:
            # the grid is relative to the start
            y0 = np.clip(y0 + .25, lo, hi)
        given = y0.copy()
        n0 = len(sim.log.costs)
        r = o.run_optimization(given)
        ps, cs = sim.log.pulses[n0:], sim.log.costs[n0:]
        mon.check('start_unmodified', np.array_equal(given, y0), note)
        mon.close('init_parameters', r.init_parameters, y0, 0, 0, note)
        mon.check('number_of_steps', len(ps) == steps + 1,
                  f'{len(ps)} {note}')
        mon.close('starts_at_start', ps[0], y0, 0, 0, note)
        e = np.array([np.linalg.norm(c) for c in cs])
        for p, c in list(zip(ps, cs))[:20]:
            mon.close('costs_of_visited', c, cost(p), 1e-8, 1e-8, note)
        allp = np.array(ps)
        mon.check('visited_within_bounds', np.all(allp >= lo) and np.all(
            allp <= hi), note)
        best = int(np.argmin(e))
        mon.close('best_cost', r.final_cost, e[best], 1e-12, 0, note)
        mon.check('best_pulse', any(np.array_equal(r.final_parameters, p)
                                    for p, x in zip(ps, e) if x == e[best]),
                  note)
        mon.check('not_worse_than_start', r.final_cost <= e[0], note)
        # trajectory: which states may have been the current one?
        possible = {0}
        for k in range(1, len(ps)):
            near = {c for c in possible if np.max(np.abs(
                allp[k] - allp[c])) <= size and on_grid(
                allp[k], allp[c], lo, hi)}
            if not mon.check('step_from_current', near, f'step {k} {note}'):
                break
            t = temp[0] * (temp[1] / temp[0]) ** (k / steps)
            acc = set()
            for c in near:
                de = e[k] - e[c]
                if de <= 0 or de / t < 1e-13:
                    acc.add(k)
                elif de / t > 60:
                    acc.add(c)
                else:
                    acc |= {k, c}
            possible = acc
            mon.event('decided_transition', int(len(acc) == 1))
        mon.check('indices', list(r.indices) == labels, note)
        mon.check('stored_optimizer', (r.optimizer is o) == store, note)
        if sim.stats is not None:
            st = r.optimization_stats
            mon.check('statistics', st.start_t_opt <= st.end_t_opt
                      and len(st.cost_func_eval_times) == steps + 1, note)
        else:
            mon.check('statistics', r.optimization_stats is None, note)
        if rnd:
            mon.event('repeated_run')
    mon.sig(note, rnd)


def on_grid(new, old, lo, hi):
    d = new - old
    return np.all((d == np.round(d)) | (new == lo) | (new == hi))


def finds(mon, rng, idx):
    """A separable discrete problem is solved."""
    from qopt.optimize import SimulatedAnnealing
    from qopt.cost_functions import CostFunction
    from qopt.simulator import Simulator
    from qopt.solver_algorithms import SchroedingerSolver
    n_t, n_c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    s = SchroedingerSolver(h_drift=[op(np.zeros((1, 1)))],
                           h_ctrl=[op(np.ones((1, 1)))] * n_c,
                           tau=np.ones(n_t))
    best = rng.integers(-3, 4, size=(n_t, n_c)).astype(float)

    class Distance(CostFunction):
        def costs(self):
            return (self.solver.transferred_parameters - best).flatten()

        def grad(self):
            raise NotImplementedError
    sim = Simulator([s], [Distance(s, [f'{i}' for i in range(n_t * n_c)])])
    lim = np.array([np.full((n_t, n_c), -3.), np.full((n_t, n_c), 3.)])
    o = SimulatedAnnealing(sim, lim, steps=3000, updates=0,
                           initial_temperature=1., final_temperature=1e-2)
    y0 = rng.integers(-3, 4, size=(n_t, n_c)).astype(float)
    r = o.run_optimization(y0)
    mon.close('optimum_found', r.final_parameters, best, 0, 0)
    mon.close('optimum_found', r.final_cost, 0, 0, 0)
    mon.sig('finds', n_t, n_c, best.tolist())


def defaults(mon, rng, idx):
    """Documented defaults; the number of steps ends an annealing, however
    long it takes."""
    from qopt.optimize import SimulatedAnnealing
    from .pc16 import Clock
    pr = opt.AffineProblem(rng, 1, n_t=1, n_c=int(rng.integers(1, 3)))
    shape = (pr.n_t, pr.n_c)
    lim = np.array([np.full(shape, -4.), np.full(shape, 4.)])
    stats = bool(rng.random() < .5)
    explicit = dict(initial_temperature=1., final_temperature=1e-6,
                    step_size=1, step_ratio=1., steps=1000, updates=100,
                    store_optimizer=False)
    y0 = np.round(rng.uniform(-4, 4, size=shape))
    seed = int(rng.integers(2 ** 31))
    seen = []
    for kw in ({}, explicit, explicit):
        sim = opt.recording(pr.sim_kwargs(stats))
        o = SimulatedAnnealing(sim, lim, **kw)
        random.seed(seed)
        np.random.seed(seed % 2 ** 31)
        r = o.run_optimization(y0.copy())
        mon.check('default_steps', len(sim.log.costs) == 1001,
                  f'{kw} {len(sim.log.costs)}')
        seen.append((np.array(sim.log.pulses), np.array(
            r.final_parameters), r.final_cost, r.optimizer))
    def same(a, b):
        return a[0].shape == b[0].shape and np.array_equal(a[0], b[0]) \
            and np.array_equal(a[1], b[1]) and a[2] == b[2] \
            and a[3] is None and b[3] is None
    if same(*seen[1:]):
        # global seeds decide the run
        mon.check('documented_defaults', same(*seen[:2]), str(shape))
    n = int(rng.integers(2, 12))
    sim = opt.recording(pr.sim_kwargs(stats))
    o = SimulatedAnnealing(sim, lim, steps=n, updates=0)
    with Clock(float(rng.uniform(500, 3000))):
        r = o.run_optimization(y0.copy())
    mon.check('all_steps_however_slow', len(sim.log.costs) == n + 1,
              f'{len(sim.log.costs)} of {n + 1}')
    best = int(np.argmin([np.linalg.norm(c) for c in sim.log.costs]))
    mon.close('best_cost', r.final_cost, np.linalg.norm(
        sim.log.costs[best]), 1e-12, 0)
    mon.sig('defaults', shape, y0.tolist(), n)


WORKLOADS = dict(defaults=(defaults, 20, 200),
                 moves=(moves, 120, 1500), run=(run, 250, 3000),
                 finds=(finds, 16, 120))
REQUIRED = ['within_bounds', 'integer_step', 'increment_distribution',
            'independent_elements', 'no_updates', 'energy_is_norm',
            'energy_argument', 'bad_step_refused', 'best_cost',
            'best_pulse', 'step_from_current', 'costs_of_visited',
            'repeated_run', 'decided_transition', 'optimum_found', 'number_of_steps',
            'documented_defaults', 'all_steps_however_slow']
