"""C17: parallel optimization equals serial optimization."""
import copy
import os
import tempfile
import time

import numpy as np

from . import gen, ref
from .ref import op, size

PROPERTY = 'C17'
RULE = ('Random control problems (Schroedinger, Lindblad, Monte Carlo and '
        'control noise with stored noise; least squares and scalar optimizer, weights, bounds) '
        'optimized from 1-12 random starts with 1, 2, 3 or all processes '
        'and, independently, one after the other with fresh copies; the '
        'complete stored histories are compared run by run.')
ASSUMES = ['deterministic simulation (stored noise samples)',
           'time limits are not reached']


def setup(rng, idx):
    from qopt import cost_functions as cf, noise, optimize
    from qopt.simulator import Simulator
    from qopt.solver_algorithms import SchroedingerSolver, LindbladSolver, \
        SchroedingerSMonteCarlo, SchroedingerSMCControlNoise
    from qopt.transfer_function import OversamplingTF, ConvolutionTF, \
        IdentityTF
    kind = idx % 4
    d = 2
    n_t, n_c = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    tf = [None, IdentityTF(num_ctrls=n_c),
          OversamplingTF(num_ctrls=n_c, bound_type=None,
                         oversampling=2)][rng.integers(3)]
    n_x = 2 * n_t if isinstance(tf, OversamplingTF) and not isinstance(
        tf, IdentityTF) else n_t
    a = dict(h_drift=[op(ref.herm(rng, d))],
             h_ctrl=[op(ref.herm(rng, d, kind='full')) for _ in range(n_c)],
             tau=np.full(n_t, .7), transfer_function=tf)
    tgt = op(ref.unitary(rng, d))
    if kind == 0:
        s = SchroedingerSolver(**a)
        c = [cf.OperationInfidelity(s, tgt)]
    elif kind == 1:
        s = LindbladSolver(lindblad_operators=[op(.2 * ref.cplx(rng, d, d))],
                           **a)
        c = [cf.OperationInfidelity(s, tgt, super_operator_formalism=True)]
    elif kind == 3:
        g = noise.NTGQuasiStatic([.2] * n_c, n_x, 3,
                                 always_redraw_samples=False)
        s = SchroedingerSMCControlNoise(noise_trace_generator=g, **a)
        c = [cf.OperationInfidelity(s, tgt),
             cf.OperationNoiseInfidelity(s, None)]
    else:
        g = noise.NTGQuasiStatic([.2], n_x, 3, always_redraw_samples=False)
        s = SchroedingerSMonteCarlo(
            h_noise=[op(ref.herm(rng, d))], noise_trace_generator=g, **a)
        c = [cf.OperationInfidelity(s, tgt),
             cf.OperationNoiseInfidelity(s, None)]
    sim = Simulator(solvers=[s], cost_funcs=c)
    o = [optimize.LeastSquaresOptimizer, optimize.ScalarMinimizingOptimizer][
        rng.integers(2)]
    kw = {}
    if rng.random() < .4:
        kw['cost_func_weights'] = list(rng.uniform(.5, 2, size=len(c)))
    n = n_t * n_c
    if rng.random() < .4:
        kw['bounds'] = [[-3.] * n, [3.] * n] if \
            o is optimize.LeastSquaresOptimizer else [(-3., 3.)] * n
    saved = bool(rng.random() < .7)
    o = o(system_simulator=sim, save_intermediary_steps=saved,
          termination_cond=dict(max_iterations=int(rng.integers(2, 9))),
          **kw)
    return o, (n_t, n_c), f'kind{kind} {type(o).__name__} {sorted(kw)} ' \
        f'{type(tf).__name__} {n_t}x{n_c} saved={saved}'


def parallel(mon, rng, idx):
    from qopt.parallel import run_optimization_parallel
    o, shape, note = setup(rng, idx)
    n = size(rng, 1, 13, 40)
    procs = [1, 2, 3, None][rng.integers(4)]
    starts = rng.uniform(-2, 2, size=(n,) + shape)
    if rng.random() < .2 and n > 1:
        starts[-1] = starts[0]
    given = starts.copy() if rng.random() < .5 else list(starts.copy())
    note += f' n={n} processes={procs}'
    mon.describe(setup=note)
    pristine = copy.deepcopy(o)
    data = run_optimization_parallel(o, given, processes=procs)
    mon.check('starts_unchanged', np.array_equal(np.array(given), starts),
              note)
    mon.check('one_result_per_start', len(data) == n and len(
        data.final_costs) == len(data.final_parameters) == len(
        data.init_parameters) == len(data.status) == n, note)
    for i in range(n):
        r = copy.deepcopy(pristine).run_optimization(starts[i].copy())
        mon.close('order', data.init_parameters[i], starts[i], 0, 0, note)
        mon.close('final_parameters', data.final_parameters[i],
                  r.final_parameters, 1e-9, 1e-9, note)
        mon.close('final_costs', data.final_costs[i], r.final_cost, 1e-9,
                  1e-9, note)
        mon.check('status', data.status[i] == r.status, note)
        steps = [] if r.optim_summary is None else r.optim_summary.costs
        pars = [] if r.optim_summary is None else r.optim_summary.parameters
        mon.check('history_length', len(data.costs[i]) == len(steps)
                  and len(data.parameters[i]) == len(pars), note)
        if len(steps) and len(steps) == len(data.costs[i]):
            mon.close('history', np.array(data.costs[i]), np.array(steps),
                      1e-9, 1e-9, note)
            mon.close('history', np.array(data.parameters[i]),
                      np.array(pars), 1e-9, 1e-9, note)
        st = data.optimization_statistics[i]
        mon.check('statistics', st is not None
                  and st.end_t_opt >= st.start_t_opt
                  and len(st.cost_func_eval_times) == len(
                      r.optimization_stats.cost_func_eval_times), note)
    mon.check('indices', list(data.indices)
              == pristine.system_simulator.cost_indices, note)
    # the optimizer of the user is still usable and unused
    a = o.run_optimization(starts[0].copy())
    mon.close('optimizer_untouched', a.final_parameters,
              data.final_parameters[0], 1e-9, 1e-9, note)
    mon.sig(note)


class History:
    """A simulation with a state: every evaluation depends on the previous
    ones, as with redrawn noise or a warm start. Runs are independent of each
    other when each starts from the state of the given optimizer."""

    def __init__(self, a, n_f, statistics):
        from qopt.performance_statistics import PerformanceStatistics
        self.a = a
        self.n_f = n_f
        self.labels = [f'c{i}' for i in range(n_f)]
        self.stats = PerformanceStatistics() if statistics else None
        if statistics:
            self.stats.indices = list(self.labels)
        self.count = 0
        self.seen = np.zeros(a.shape[1:])

    @property
    def cost_indices(self):
        return self.labels

    def wrapped_cost_functions(self, pulse):
        self.count += 1
        self.seen += pulse
        r = np.einsum('ftc,tc->f', self.a, pulse - 1.) \
            + .05 * np.sin(self.count) + .01 * np.sum(np.cos(self.seen))
        return r ** 2 + .1

    def wrapped_jac_function(self, pulse):
        self.count += 1
        r = np.einsum('ftc,tc->f', self.a, pulse - 1.) \
            + .05 * np.sin(self.count)
        return np.transpose(2 * r[:, None, None] * self.a, (1, 0, 2))


def stateful(mon, rng, idx):
    """More runs than processes: no run sees the state another one left."""
    from qopt import optimize
    from qopt.parallel import run_optimization_parallel
    n_t, n_c = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    least = bool(rng.random() < .5)
    n_f = n_t * n_c + 1 if least else int(rng.integers(1, 4))
    sim = History(rng.normal(size=(n_f, n_t, n_c)), n_f,
                  bool(rng.random() < .7))
    cls = optimize.LeastSquaresOptimizer if least else \
        optimize.ScalarMinimizingOptimizer
    jac = bool(rng.random() < .7)
    o = cls(sim, use_jacobian_function=jac, termination_cond=dict(
        max_iterations=int(rng.integers(1, 5))))
    procs = [1, 2, 3][rng.integers(3)]
    n = size(rng, 2, 26, 80)
    starts = rng.uniform(-2, 2, size=(n, n_t, n_c))
    starts[n // 2:] = starts[0]
    note = f'{cls.__name__} n={n} processes={procs} jac={jac}'
    mon.describe(setup=note)
    pristine = copy.deepcopy(o)
    data = run_optimization_parallel(o, starts.copy(), processes=procs)
    mon.check('optimizer_state_untouched', sim.count == 0
              and not np.any(sim.seen)
              and (sim.stats is None
                   or sim.stats.cost_func_eval_times == []), note)
    for i in range(n):
        r = copy.deepcopy(pristine).run_optimization(starts[i].copy())
        mon.close('independent_runs', data.final_parameters[i],
                  r.final_parameters, 0, 1e-12, note)
        mon.close('independent_runs', data.final_costs[i], r.final_cost, 0,
                  1e-12, note)
        mon.close('independent_history', np.array(data.costs[i]),
                  np.array(r.optim_summary.costs), 0, 1e-12, note)
        st = data.optimization_statistics[i]
        if sim.stats is not None:
            mon.check('independent_statistics', len(
                st.cost_func_eval_times) == len(
                r.optimization_stats.cost_func_eval_times), note)
    mon.sig('stateful', note)


class Delayed(History):
    """Runs take different times; every evaluation is logged."""

    def __init__(self, *a, starts, delays, log):
        super().__init__(*a)
        self.starts, self.delays, self.log = starts, delays, log
        self.run = None

    def wrapped_cost_functions(self, pulse):
        if self.run is None:
            self.run = int(np.argmin(np.sum(np.abs(
                self.starts - pulse), axis=(1, 2))))
            time.sleep(self.delays[self.run])
        with open(self.log, 'a') as f:
            f.write(f'{self.run} {os.getpid()}\n')
        return super().wrapped_cost_functions(pulse)


def delayed(mon, rng, idx):
    """Results are in the order of the starts, however the runs overtake
    each other."""
    from qopt import optimize
    from qopt.parallel import run_optimization_parallel
    n_t, n_c = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(2, 10))
    procs = [2, 3, 4, None][rng.integers(4)]
    starts = rng.uniform(-2, 2, size=(n, n_t, n_c))
    delays = .06 * rng.permutation(n) / n if idx % 3 else \
        .06 * np.arange(n)[::-1] / n
    fd, log = tempfile.mkstemp()
    os.close(fd)
    try:
        sim = Delayed(rng.normal(size=(n_t * n_c + 1, n_t, n_c)),
                      n_t * n_c + 1, bool(rng.random() < .7), starts=starts,
                      delays=delays, log=log)
        cls = [optimize.LeastSquaresOptimizer,
               optimize.ScalarMinimizingOptimizer][rng.integers(2)]
        o = cls(sim, use_jacobian_function=True,
                termination_cond=dict(max_iterations=int(
                    rng.integers(1, 4))))
        pristine = copy.deepcopy(o)
        note = f'{cls.__name__} n={n} processes={procs}'
        data = run_optimization_parallel(
            o, starts.copy() if rng.random() < .5 else list(starts.copy()),
            processes=procs)
        with open(log) as f:
            lines = [tuple(map(int, x.split())) for x in f]
        pristine.system_simulator.delays = np.zeros(n)
        pristine.system_simulator.log = os.devnull
        for i in range(n):
            r = copy.deepcopy(pristine).run_optimization(starts[i].copy())
            mon.close('delayed_order', data.init_parameters[i], starts[i],
                      0, 0, note)
            mon.close('delayed_order', data.final_parameters[i],
                      r.final_parameters, 0, 1e-12, note)
            mon.close('delayed_order', np.array(data.costs[i]),
                      np.array(r.optim_summary.costs), 0, 1e-12, note)
    finally:
        os.unlink(log)
    last = {run: k for k, (run, pid) in enumerate(lines)}
    mon.check('each_start_once', sorted(last) == list(range(n)), note)
    done = sorted(last, key=last.get)
    mon.event('overtaken_runs', sum(a > b for a, b in zip(done, done[1:])))
    mon.event('worker_processes', len({pid for run, pid in lines}))
    mon.describe(setup=note, finished_in_order=done)
    mon.sig('delayed', *done)


class Broken(History):
    """A simulation which fails for some of the starts."""

    def wrapped_cost_functions(self, pulse):
        out = super().wrapped_cost_functions(pulse)
        if pulse[0, 0] > 1:
            out = out + [np.nan, np.inf][int(pulse[0, 0] > 1.5)]
        return out


def unfinished(mon, rng, idx):
    """Runs which end without valid costs keep their place."""
    from qopt import optimize
    from qopt.parallel import run_optimization_parallel
    n_t, n_c = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = int(rng.integers(2, 12))
    n_f = int(rng.integers(1, 4))
    at_once = bool(idx % 3 == 0)
    # without any evaluation, or failing for some of the starts
    sim = (History if at_once else Broken)(
        rng.normal(size=(n_f, n_t, n_c)), n_f, True)
    o = optimize.ScalarMinimizingOptimizer(
        sim, use_jacobian_function=False, termination_cond=dict(
            max_iterations=2, **({'max_wall_time': -1.} if at_once else {})))
    starts = rng.uniform(-2, 2, size=(n, n_t, n_c))
    procs = [1, 2, 3, None][rng.integers(4)]
    note = f'n={n} n_f={n_f} processes={procs} at_once={at_once}'
    mon.describe(setup=note)
    pristine = copy.deepcopy(o)
    with np.errstate(all='ignore'):
        data = run_optimization_parallel(o, starts.copy(), processes=procs)
        serial = [copy.deepcopy(pristine).run_optimization(s.copy())
                  for s in starts]
    same = [np.array(v) for v in data.init_parameters]
    mon.check('unfinished_kept', len(data) == n == len(same)
              and all(np.array_equal(a, b) for a, b in zip(same, starts)),
              note)
    if len(same) != n:
        return

    def alike(a, b):
        if a is None or b is None:
            return a is b
        return np.shape(a) == np.shape(b) and np.allclose(
            np.asarray(a, dtype=float), np.asarray(b, dtype=float),
            rtol=0, atol=1e-12, equal_nan=True)
    for i, r in enumerate(serial):
        bad = r.final_parameters is None or not np.all(np.isfinite(
            np.asarray(r.final_cost, dtype=float)))
        mon.event('run_without_valid_costs', int(bad))
        mon.check('unfinished_same', alike(data.final_costs[i], r.final_cost)
                  and alike(data.final_parameters[i], r.final_parameters)
                  and data.status[i] == r.status, note)
        mon.check('unfinished_same', len(data.costs[i]) == len(
            r.optim_summary.costs) and all(
            alike(a, b) for a, b in zip(data.costs[i],
                                        r.optim_summary.costs)), note)
    mon.sig('unfinished', note)


def same_for_all_processes(mon, rng, idx):
    from qopt.parallel import run_optimization_parallel
    o, shape, note = setup(rng, idx)
    starts = rng.uniform(-2, 2, size=(5,) + shape)
    first = None
    for procs in (1, 2, 4):
        d = run_optimization_parallel(o, starts, processes=procs)
        got = np.array(d.final_parameters)
        if first is None:
            first = got
        mon.close('process_independent', got, first, 0, 1e-9, note)
    mon.sig('procs', note)


def failure(mon, rng, idx):
    """An error in a worker is not swallowed."""
    from qopt.parallel import run_optimization_parallel
    o, shape, note = setup(rng, idx)
    bad = [rng.normal(size=shape), rng.normal(size=(shape[0] + 1,
                                                    shape[1]))]
    mon.raises('error_reported', Exception, run_optimization_parallel, o,
               bad, processes=2)
    mon.sig('failure', note)


WORKLOADS = dict(parallel=(parallel, 60, 700),
                 stateful=(stateful, 40, 500),
                 delayed=(delayed, 30, 400),
                 unfinished=(unfinished, 30, 300),
                 same_for_all_processes=(same_for_all_processes, 12, 120),
                 failure=(failure, 6, 40))
REQUIRED = ['one_result_per_start', 'order', 'final_parameters',
            'final_costs', 'history', 'status', 'optimizer_untouched',
            'process_independent', 'independent_runs',
            'delayed_order', 'unfinished_kept', 'unfinished_same',
            'independent_history', 'error_reported']
