"""C27: reported results of complete optimizations describe the evolution."""
import copy
import io
import os
import pickle
import shutil
import tempfile
import types
from multiprocessing.reduction import ForkingPickler

import numpy as np

from . import gen
from .costs import Skip
from .lean import lean
from .pc15 import wired

PROPERTY = 'C27'
RULE = ('Complete runs without any recording or replaced part: random '
        'control problems (Schroedinger, Lindblad, Monte Carlo; transfer '
        'and amplitude functions; several cost functions and solvers) are '
        'optimized by all the optimizers, serially or in parallel, gathered '
        'in a data container, stored, loaded and analysed; oracle: the '
        'reference evolution under the pulses found in the stored data.')
ASSUMES = ['noise samples are stored, not redrawn',
           'the time limit is not reached']

KINDS = ['lsq', 'L-BFGS-B', 'SLSQP', 'Nelder-Mead', 'anneal', 'lsq']


# Local functions and classes of the harness, which are known to the forked
# processes. A user would define them at the top of a module.
TABLE = []


def lookup(i):
    return TABLE[i]


def by_reference(self, x):
    if isinstance(x, (types.FunctionType, type)) and '<' in getattr(
            x, '__qualname__', '') and x.__module__.startswith('vmon'):
        for i, y in enumerate(TABLE):
            if y is x:
                return lookup, (i,)
        raise pickle.PicklingError('function unknown to the process')
    return NotImplemented


class Collector(pickle.Pickler):
    """Collects the local functions below an object."""

    def reducer_override(self, x):
        if isinstance(x, (types.FunctionType, type)) \
                and '<' in x.__qualname__ \
                and x.__module__.startswith('vmon'):
            TABLE.append(x)
            return lookup, (0,)
        return NotImplemented


def collect(o):
    del TABLE[:]
    Collector(io.BytesIO()).dump(o)
    ForkingPickler.reducer_override = by_reference


def quiet_value(value, y):
    try:
        return value(y)
    except Skip:
        return None


def run(mon, rng, idx):
    from qopt import optimize
    from qopt.analyser import Analyser
    from qopt.data_container import DataContainer
    from qopt.parallel import run_optimization_parallel
    from qopt.simulator import Simulator
    kind = KINDS[idx % len(KINDS)]
    cs, solvers, funcs, value = wired(rng, 1 + int(rng.random() < .4))
    if not cs or (kind not in ('lsq', 'anneal')
                  and any(r.label == ['twice', 'minus'] for r in funcs)):
        return
    # the same noise whatever is copied or forked
    for s in solvers:
        if hasattr(s, 'noise_trace_generator'):
            s.noise_trace_generator.noise_samples
    ps = [c.p for c in cs]
    shape = (ps[0].n_t, ps[0].rtf.n_ctrl)
    labels = [x for f in funcs for x in f.label]
    stats = bool(rng.random() < .7)
    sim = Simulator(solvers=solvers, cost_funcs=funcs,
                    record_performance_statistics=stats)
    n = int(rng.integers(1, 4))
    starts = [gen.tame(ps, rng.normal(size=shape)) for _ in range(n)]
    lo, hi = np.full(shape, -np.inf), np.full(shape, np.inf)
    if rng.random() < .5 or kind == 'anneal':
        lo = np.minimum.reduce(starts) - rng.uniform(.01, .5, size=shape)
        hi = np.maximum.reduce(starts) + rng.uniform(.01, .5, size=shape)
    w = rng.uniform(.3, 3, size=len(labels))
    saved = bool(rng.random() < .8) and kind != 'anneal'
    use_jac = bool(rng.random() < .7)
    store = bool(rng.random() < .3)
    cond = dict(max_iterations=int(rng.integers(1, 7)))
    finite = np.all(np.isfinite(lo))
    if kind == 'anneal':
        starts = [np.round(s) for s in starts]
        lo, hi = np.floor(lo) - 1, np.ceil(hi) + 1
        w = None
        o = lean(
            rng, optimize.SimulatedAnnealing,
            sim, np.stack([lo, hi]), store_optimizer=store, step_size=1,
            step_ratio=.7, steps=8, updates=0)
    else:
        if rng.random() < .4:
            w = None
        kw = dict(system_simulator=sim, termination_cond=cond,
                  save_intermediary_steps=saved, cost_func_weights=w,
                  use_jacobian_function=use_jac, store_optimizer=store)
        flat = (lo.T.flatten(), hi.T.flatten())
        if kind == 'lsq':
            if finite:
                kw['bounds'] = [flat[0], flat[1]]
            o = lean(rng, optimize.LeastSquaresOptimizer, **kw)
        else:
            if finite:
                kw['bounds'] = list(zip(*flat))
            o = lean(
                rng, optimize.ScalarMinimizingOptimizer, method=kind, **kw)
    serial = bool(rng.random() < .75) or kind == 'anneal'
    note = (f'{kind} n={n} serial={serial} saved={saved} jac={use_jac} '
            + ' || '.join(c.note for c in cs))
    mon.describe(optimizer=kind, costs=[c.kind for c in cs], runs=n,
                 serial=serial)
    if serial:
        data = DataContainer()
        for y in starts:
            data.append_optim_result(o.run_optimization(y.copy()))
    else:
        collect(o)
        data = run_optimization_parallel(
            o, [y.copy() for y in starts], processes=2)
        mon.event('parallel')
    ww = np.ones(len(labels)) if w is None else w

    def scalar(c):
        """What the optimizer reports for the costs c."""
        if kind == 'lsq':
            return c * ww
        if kind == 'anneal':
            return np.linalg.norm(c)
        return np.sum(c * ww)

    def judge(data, note):
        mon.check('runs', len(data) == n, note)
        mon.check('labels', list(data.indices) == labels, note)
        for i in range(n):
            mon.close('start', data.init_parameters[i], starts[i], 0, 0,
                      note)
            y = np.array(data.final_parameters[i])
            mon.check('bounds', np.all(y >= lo - 1e-12)
                      and np.all(y <= hi + 1e-12), note)
            if any(np.max(np.abs(c.p.amps(y))) > 30 for c in cs):
                mon.event('skipped_steep')
                continue
            v = quiet_value(value, y)
            if v is None:
                mon.event('skipped_rank_deficient')
                continue
            mon.close('final_cost', data.final_costs[i], scalar(v), 0, 1e-6,
                      note)
            first = quiet_value(value, starts[i])
            if first is not None and kind != 'anneal' and not (
                    kind == 'SLSQP'):
                a, b = scalar(v), scalar(first)
                if kind == 'lsq':
                    a, b = np.sum(a ** 2), np.sum(b ** 2)
                mon.check('not_worse_than_start', a <= b + 1e-6,
                          f'{a} {b} {note}')
            if not saved:
                mon.check('no_steps', len(data.costs[i]) == 0, note)
                continue
            steps, pulses = data.costs[i], data.parameters[i]
            mon.check('steps', len(steps) == len(pulses) > 0, note)
            mon.close('first_step', pulses[0], starts[i], 0, 1e-12, note)
            for k in sorted({0, len(steps) - 1,
                             int(rng.integers(len(steps)))}):
                q = np.array(pulses[k])
                if any(np.max(np.abs(c.p.amps(q))) > 30 for c in cs):
                    continue
                v = quiet_value(value, q)
                if v is not None:
                    mon.close('step_cost', steps[k], v, 0, 1e-6,
                              f'step {k} {note}')
        if saved:
            an = Analyser(data)
            c = an.absolute_costs()
            for i in range(n):
                mon.close('analysed', c[i, :len(data.costs[i])], [
                    np.sqrt(np.sum(np.square(x))) for x in data.costs[i]],
                    1e-10, 1e-12, note)
        if stats and saved:
            for i in range(n):
                st = data.optimization_statistics[i]
                mon.check('statistics', len(st.cost_func_eval_times) == len(
                    data.costs[i]) and st.end_t_opt >= st.start_t_opt, note)
    judge(data, note)
    # the live objects are at some evaluated pulse; a fresh evaluation of the
    # found pulse agrees with what was reported
    y = np.array(data.final_parameters[-1])
    if all(np.max(np.abs(c.p.amps(y))) <= 30 for c in cs):
        mon.close('live_simulator', scalar(np.array(
            sim.wrapped_cost_functions(y))), data.final_costs[-1], 0, 1e-8,
            note)
    tmp = tempfile.mkdtemp(prefix='vmon-c27-')
    try:
        f = os.path.join(tmp, 'run')
        data.to_pickle(f)
        judge(DataContainer.from_pickle(f), 'stored ' + note)
    finally:
        shutil.rmtree(tmp)
    judge(copy.deepcopy(data), 'copied ' + note)
    mon.sig(note)


WORKLOADS = dict(run=(run, 150, 2500))
REQUIRED = ['final_cost', 'step_cost', 'bounds', 'not_worse_than_start',
            'live_simulator', 'analysed', 'statistics', 'start',
            'first_step', 'parallel']
