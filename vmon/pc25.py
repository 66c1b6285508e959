"""C25: the analysis of stored runs reports what happened in the runs."""
import time

import numpy as np

from . import opt
from .ref import size
from .pc19 import result

PROPERTY = 'C25'
RULE = ('Random stored histories of 1-6 runs with ragged lengths (scalar and '
        'vector costs, ties, runs without evaluation of gradients) and real '
        'optimizations with cost functions of known duration; every reported '
        'number and plotted curve is recomputed by explicit loops over the '
        'stored values. Distinct by numbers of runs, costs and steps.')
ASSUMES = ['performance statistics were recorded']


def steps(r):
    return [] if r.optim_summary is None else r.optim_summary.costs


def container(rng, n, n_cost, scalar=False):
    from qopt.data_container import DataContainer
    labels = [f'cost {i}' for i in range(n_cost)]
    c = DataContainer()
    rs = []
    while len(rs) < n:
        r = result(rng, labels, n_cost)
        if r.optim_summary is None or not r.optim_summary.costs:
            # a run without stored steps among others
            if rng.random() < .7:
                continue
        if r.optimization_stats is None:
            continue
        if not r.optimization_stats.grad_func_eval_times and \
                rng.random() < .5:
            continue
        r.final_cost = float(rng.normal()) if scalar else \
            rng.normal(size=n_cost) * 10 ** rng.uniform(-8, 0)
        # interrupted before the first evaluation, failed simulation
        w = rng.random()
        if w < .08:
            r.final_cost = np.inf
        elif w < .16:
            r.final_cost = np.nan if scalar else np.where(
                rng.random(n_cost) < .5, np.nan, 1.)
        st = r.optimization_stats
        if rng.random() < .5:
            # numbers of evaluations independent of each other and of the
            # number of stored steps
            st.cost_func_eval_times = rng.random((
                size(rng, 1, 8), n_cost)).tolist()
            st.grad_func_eval_times = rng.random((
                size(rng, 0, 8), n_cost)).tolist()
        # evaluations too fast for the resolution of the clock
        for ts in (st.cost_func_eval_times, st.grad_func_eval_times):
            for t in ts:
                if rng.random() < .2:
                    t[int(rng.integers(len(t)))] = 0.
        rs.append(r)
        c.append_optim_result(r)
    return c, rs, labels


def stored(mon, rng, idx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from qopt.analyser import Analyser
    n, n_cost = size(rng, 1, 7), size(rng, 1, 4, 12)
    scalar = n_cost == 1 and bool(rng.random() < .5)
    c, rs, labels = container(rng, n, n_cost, scalar)
    if n > 1 and rng.random() < .2:
        # the first one of two equal results
        c.final_costs[1] = rs[1].final_cost = rs[0].final_cost
    a = Analyser(c)
    note = f'n={n} n_cost={n_cost} scalar={scalar}'
    mon.describe(setup=note, lengths=[len(steps(r))
                                      for r in rs])
    best, arg = np.inf, 0
    for i, r in enumerate(rs):
        t = sum(float(v) ** 2 for v in np.ravel(r.final_cost))
        if t < best:
            best, arg = t, i
        mon.event('run_without_costs', int(not np.isfinite(t)))
        mon.event('run_without_steps', int(not steps(r)))
    got = a.n_least_square
    mon.check('best_run', got == arg and isinstance(got, (int, np.integer)),
              f'{got} instead of {arg} {note}')

    longest = max(len(steps(r)) for r in rs)
    want = np.full((n, longest), np.nan)
    for i, r in enumerate(rs):
        for j, v in enumerate(steps(r)):
            want[i, j] = sum(float(x) ** 2 for x in v) ** .5
    got = a.absolute_costs()
    mon.check('absolute_padding', got.shape == want.shape and np.array_equal(
        np.isnan(got), np.isnan(want)), note)
    if got.shape == want.shape:
        mon.close('absolute_costs', np.nan_to_num(got), np.nan_to_num(want),
                  1e-12, 0, note)

    plt.close('all')
    fig, ax = a.plot_absolute_costs()
    mon.check('absolute_lines', len(ax.get_lines()) == n
              and ax.get_yscale() == 'log' and ax.figure is fig, note)
    for line, w in zip(ax.get_lines(), want):
        y = np.asarray(line.get_ydata(), dtype=float)
        mon.check('absolute_plotted', y.shape == w.shape and np.allclose(
            y, w, rtol=1e-12, atol=0, equal_nan=True), note)
    for k in range(n):
        log_y = bool(rng.random() < .5)
        own = None
        if rng.random() < .5:
            _, own = plt.subplots()
        ax = a.plot_costs(n=k, log_y=log_y, ax=own) if k or own is not None \
            or not log_y else a.plot_costs()
        lines = ax.get_lines()
        if not steps(rs[k]):
            mon.check('no_cost_lines', not any(
                len(line.get_ydata()) for line in lines), note)
            continue
        mon.check('cost_lines', (own is None or ax is own)
                  and len(lines) == n_cost and [
            line.get_label() for line in lines] == labels
            and ax.get_yscale() == ('log' if ax is None or log_y
                                    else 'linear'), note)
        for j, line in enumerate(lines):
            mon.close('cost_plotted', line.get_ydata(), [
                v[j] for v in steps(rs[k])], 0, 0, note)
    plt.close('all')

    tot_c = tot_g = tot_t = 0.
    for k, r in enumerate(rs):
        st = r.optimization_stats
        for f, times, name in (
                (a.integral_cost_fkt_times, st.cost_func_eval_times, 'cost'),
                (a.integral_grad_fkt_times, st.grad_func_eval_times,
                 'grad')):
            got = f(k) if k or rng.random() < .5 else f()
            w = [sum(t[j] for t in times) for j in range(
                len(times[0]))] if times else 0.
            mon.close(name + '_times', got, w, 1e-12, 1e-300, note)
            if name == 'cost':
                tot_c += np.sum(w)
            else:
                tot_g += np.sum(w)
        tot_t += st.end_t_opt - st.start_t_opt
    mon.close('opt_times', a.opt_times(), [
        r.optimization_stats.end_t_opt - r.optimization_stats.start_t_opt
        for r in rs], 1e-12, 0, note)
    mon.close('total_times', a.total_cost_fkt_time(), tot_c, 1e-12, 1e-300,
              note)
    mon.close('total_times', a.total_grad_fkt_time(), tot_g, 1e-12, 1e-300,
              note)
    mon.close('time_share', a.time_share_cost_fkt(), tot_c / tot_t, 1e-10,
              1e-300, note)
    mon.close('time_share', a.time_share_grad_fkt(), tot_g / tot_t, 1e-10,
              1e-300, note)
    mon.check('data_unmodified', len(c) == n and all(
        np.array_equal(x, r.final_cost, equal_nan=True)
        for x, r in zip(c.final_costs, rs)), note)
    mon.sig(note, [len(steps(r)) for r in rs])


def measured(mon, rng, idx):
    """Cost functions of known duration."""
    from qopt.analyser import Analyser
    from qopt import optimize
    from qopt.data_container import DataContainer
    pr = opt.AffineProblem(rng, 1, n_f=int(rng.integers(3, 6)))
    kw = pr.sim_kwargs(True)
    n = len(kw['cost_funcs'])
    spent_c, spent_g = [], []

    def slow(f, where, i, d):
        def g():
            t0 = time.perf_counter()
            time.sleep(d)
            out = f()
            where[-1][i] += time.perf_counter() - t0
            return out
        return g
    for i, cf in enumerate(kw['cost_funcs']):
        cf.costs = slow(cf.costs, spent_c, i, .004 * i)
        cf.grad = slow(cf.grad, spent_g, i, .003 * (n - 1 - i))
    sim = opt.recording(kw)
    o = optimize.LeastSquaresOptimizer(
        sim, save_intermediary_steps=True,
        termination_cond=dict(max_iterations=3))
    c = DataContainer()
    n_runs = int(rng.integers(1, 3))
    walls = []
    for _ in range(n_runs):
        spent_c.append(np.zeros(n))
        spent_g.append(np.zeros(n))
        t0 = time.time()
        c.append_optim_result(o.run_optimization(
            rng.normal(size=(pr.n_t, pr.n_c))))
        walls.append(time.time() - t0)
    a = Analyser(c)
    note = f'{n} cost functions {n_runs} runs'
    # inner measurement <= recorded time <= wall time; the clocks differ, so
    # one millisecond of room per evaluation
    for k in range(n_runs):
        st = c.optimization_statistics[k]
        calls = len(st.cost_func_eval_times) + len(st.grad_func_eval_times)
        room = 1e-3 * calls
        ct, gt = a.integral_cost_fkt_times(k), a.integral_grad_fkt_times(k)
        mon.check('time_attribution', np.shape(ct) == np.shape(gt) == (n,)
                  and np.all(ct >= spent_c[k] - room)
                  and np.all(gt >= spent_g[k] - room),
                  f'{ct} {spent_c[k]} {gt} {spent_g[k]} {note}')
        t = a.opt_times()[k]
        mon.check('time_bounds', ct.sum() + gt.sum() <= t + room
                  and t <= walls[k] + 1e-3, f'{ct} {gt} {t} {walls[k]}')
    share = a.time_share_cost_fkt() + a.time_share_grad_fkt()
    mon.check('share_bounds', 0 < share <= 1.01, f'{share} {note}')
    mon.sig('measured', n, n_runs, pr.n_t, pr.n_c)


WORKLOADS = dict(stored=(stored, 150, 1500), measured=(measured, 24, 200))
REQUIRED = ['best_run', 'run_without_costs', 'run_without_steps',
            'no_cost_lines', 'absolute_costs', 'absolute_padding',
            'absolute_plotted', 'cost_plotted', 'cost_times', 'grad_times',
            'opt_times', 'total_times', 'time_share', 'time_attribution',
            'time_bounds']
