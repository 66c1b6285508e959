"""C16: optimizers report what they did, and obey bounds and conditions."""
import copy
import sys
import time

import numpy as np

from . import gen, opt, ref
from .lean import lean

PROPERTY = 'C16'
RULE = ('Runs of the least squares and scalar optimizers (analytic / numeric '
        'Jacobian, weights, bounds, every method, several runs per '
        'optimizer) on problems with known solution and on real control '
        'problems, with a simulator which records every evaluation '
        '(shadow history), with wall time faults injected at a chosen '
        'evaluation and with exceptions raised inside the simulation.')
ASSUMES = ['scipy.optimize is correct',
           'final cost and step records are unweighted / weighted as '
           'documented: records are taken before the weights are applied']

TIGHT = dict(min_cost_gain=1e-15, min_amplitude_change=1e-15,
             min_gradient_norm=1e-12)


def optimizer(kind, sim, rng, **kw):
    from qopt import optimize
    if kind == 'lsq':
        return lean(rng, optimize.LeastSquaresOptimizer,
                    system_simulator=sim, **kw)
    return lean(rng, optimize.ScalarMinimizingOptimizer,
                system_simulator=sim, method=kind, **kw)


def bounds_for(kind, lo, hi):
    lo, hi = lo.T.flatten(), hi.T.flatten()
    if kind == 'lsq':
        return [lo, hi]
    return list(zip(lo, hi))


def bookkeeping(mon, o, r, sim, y0, saved, labels, note, extra_jac=0):
    """Shadow history against the stored one."""
    log = sim.log
    s = r.optim_summary
    if saved:
        mon.check('steps_recorded', s is not None and s.iter_num == len(
            log.costs) == len(s.costs) == len(s.parameters), note)
        if s is not None and len(s.costs) == len(log.costs):
            for a, b in zip(s.costs, log.costs):
                mon.close('step_costs', a, b, 0, 1e-14, note)
            for a, b in zip(s.parameters, log.pulses):
                mon.close('step_parameters', a, b, 0, 1e-14, note)
            mon.check('step_gradients', len(s.gradients) == len(log.jacs)
                      and all(np.array_equal(a, b) for a, b in zip(
                          s.gradients, log.jacs)), note)
            mon.check('step_indices', list(s.indices) == labels, note)
    else:
        mon.check('steps_not_recorded', s is None or s.iter_num == 0, note)
    mon.check('result_indices', list(r.indices) == labels, note)
    mon.close('init_parameters', r.init_parameters, y0, 0, 0, note)
    if sim.stats is not None:
        st = r.optimization_stats
        mon.check('statistics', st is not None and st.start_t_opt
                  <= st.end_t_opt <= time.time() + 1 and list(st.indices)
                  == labels and len(st.cost_func_eval_times) == len(
                      log.costs) and len(st.grad_func_eval_times) == len(
                      log.jacs), note)
    else:
        mon.check('no_statistics', r.optimization_stats is None, note)
    for p in log.pulses:
        if p.shape != y0.shape:
            mon.fail('step_shape', note)
            break


def total(kind, c, w):
    return c * w if kind == 'lsq' else np.sum(c * w)


def known(mon, rng, idx):
    from qopt import optimize
    kind = ['lsq', 'L-BFGS-B', 'lsq', 'L-BFGS-B', 'Nelder-Mead', 'lsq',
            ['Powell', 'SLSQP', 'COBYLA'][rng.integers(3)]][idx % 7]
    pr = opt.AffineProblem(
        rng, power=1 if kind == 'lsq' else 2,
        **(dict(n_t=int(rng.integers(1, 3)), n_c=1)
           if kind not in ('lsq', 'L-BFGS-B') else {}))
    weights = rng.uniform(.2, 3, size=pr.n_f) if rng.random() < .5 else None
    w = np.ones(pr.n_f) if weights is None else weights
    saved = bool(rng.random() < .7)
    store = bool(rng.random() < .3)
    use_jac = bool(rng.random() < .7)
    stats = bool(rng.random() < .7)
    sol = pr.solution(w)
    lo = hi = None
    if rng.random() < .5 and kind != 'COBYLA':
        # some bounds are active, individually per parameter
        lo = sol - rng.uniform(.1, 2, size=sol.shape)
        hi = sol + rng.uniform(.1, 2, size=sol.shape)
        act = rng.random(sol.shape) < .3
        up = rng.random(sol.shape) < .5
        hi = np.where(act & up, sol - .05, hi)
        lo = np.where(act & up, sol - 1.5, lo)
        lo = np.where(act & ~up, sol + .05, lo)
        hi = np.where(act & ~up, sol + 1.5, hi)
        y0 = lo + (hi - lo) * rng.uniform(.2, .8, size=sol.shape)
    else:
        y0 = rng.normal(size=sol.shape)
        act = np.zeros(sol.shape, bool)
    kw = dict(termination_cond=dict(TIGHT), save_intermediary_steps=saved,
              cost_func_weights=None if weights is None else list(weights)
              if rng.random() < .5 else weights.copy(),
              use_jacobian_function=use_jac, store_optimizer=store)
    if lo is not None:
        kw['bounds'] = bounds_for(kind, lo, hi)
    method = 'trf'
    if kind == 'lsq':
        method = ['trf', 'dogbox', 'trf'][rng.integers(3)]
        if lo is None and pr.n_f >= sol.size and rng.random() < .3:
            method = 'lm'
        kw['method'] = method
    sim = opt.recording(pr.sim_kwargs(stats))
    defaults = copy.deepcopy(optimize.default_termination_conditions)
    o = optimizer(kind, sim, rng, **kw)
    note = (f'{kind} {method} t{pr.n_t} c{pr.n_c} f{pr.n_f} parts'
            f'{[len(p) for p in pr.parts]} weights={weights is not None} '
            f'saved={saved} jac={use_jac} bounds={lo is not None}')
    mon.describe(setup=note)
    runs = 1 + int(rng.random() < .3)
    first = None
    for run in range(runs):
        given = y0.copy()
        sim.log = opt.Log()
        r = o.run_optimization(given)
        mon.check('start_unchanged', np.array_equal(given, y0), note)
        given[...] = 77.
        log = sim.log
        bookkeeping(mon, o, r, sim, y0, saved, pr.labels, note)
        f = np.array(r.final_parameters)
        mon.check('final_shape', f.shape == y0.shape, note)
        mon.close('final_cost', r.final_cost, total(
            kind, pr.costs(f), w), 1e-9, 1e-12, note)
        if kind != 'COBYLA':
            c0 = np.linalg.norm(total(kind, pr.costs(y0), w))
            c1 = np.linalg.norm(r.final_cost)
            mon.check('not_worse_than_start', c1 <= c0 + 1e-12, note)
        for a, b in zip(log.pulses, log.costs):
            mon.close('evaluation', b, pr.costs(a), 1e-12, 1e-12)
        mon.check('started_at_start', len(log.pulses) > 0 and np.allclose(
            log.pulses[0], y0, atol=1e-12), note)
        if lo is not None:
            mon.check('bounds_final', np.all(f >= lo - 1e-12) and np.all(
                f <= hi + 1e-12), note)
            ev = np.array(log.pulses)
            slack = 1e-12
            mon.check('bounds_evaluations', np.all(ev >= lo - slack)
                      and np.all(ev <= hi + slack), note)
        if kind in ('lsq', 'L-BFGS-B'):
            if kind == 'L-BFGS-B' and r.status != 0:
                # scipy gave up (precision of the line search)
                mon.event('abnormal_termination')
            elif lo is None:
                mon.close('optimum', f, sol, 0, 1e-3, note)
            elif method == 'trf' and kind == 'lsq':
                # projected gradient vanishes
                g = np.einsum('f,ftc->tc', (
                    2 * w ** 2 if kind == 'lsq' else 2 * w) * (
                    np.einsum('ftc,tc->f', pr.a, f) - pr.b), pr.a)
                pg = f - np.clip(f - g, lo, hi)
                mon.close('constrained_optimum', pg, np.zeros(f.shape), 0,
                          5e-3, note)
            mon.check('uses_jacobian', (len(log.jacs) > 0) == use_jac, note)
            if use_jac and method != 'lm':
                mon.check('num_iter', r.num_iter == len(log.costs),
                          f'{r.num_iter} {len(log.costs)} {note}')
            mon.check('grad_norm', r.final_grad_norm >= 0, note)
            if kind == 'lsq' and lo is None or kind == 'L-BFGS-B':
                m = pr.a.reshape(pr.n_f, -1)
                res = m @ f.reshape(-1) - pr.b
                g = m.T @ (w ** 2 * res) if kind == 'lsq' else \
                    2 * m.T @ (w * res)
                mon.close('grad_norm', r.final_grad_norm,
                          np.linalg.norm(g), 1e-4, 1e-4, note)
        else:
            mon.check('num_iter', r.num_iter == len(log.costs),
                      f'{r.num_iter} {len(log.costs)} {note}')
        if kind == 'Nelder-Mead':
            mon.close('best_of_simplex', r.final_cost, min(
                np.sum(c * w) for c in log.costs), 1e-12, 1e-14, note)
        mon.check('termination', r.termination_reason is not None
                  and r.status is not None, note)
        mon.check('stored_optimizer', (r.optimizer is not None) == store,
                  note)
        mon.check('defaults_untouched', optimize
                  .default_termination_conditions == defaults, note)
        if run:
            # a second run does not depend on the first one
            mon.close('second_run', f, first, 0, 1e-12, note)
        else:
            first = f
            n_first = len(log.costs)
    mon.sig(note, *np.round(y0.reshape(-1)[:2], 1))


def wrappers(mon, rng, idx):
    """The functions handed to scipy fit together."""
    kind = ['lsq', 'L-BFGS-B'][idx % 2]
    pr = opt.AffineProblem(rng, power=1 + int(rng.random() < .5))
    w = rng.uniform(-1, 3, size=pr.n_f) if rng.random() < .7 else None
    sim = opt.recording(pr.sim_kwargs(False))
    o = optimizer(kind, sim, rng, cost_func_weights=w)
    y = rng.normal(size=(pr.n_t, pr.n_c))
    o.prepare_optimization(y)
    x = y.T.flatten()
    ww = np.ones(pr.n_f) if w is None else w
    mon.close('wrapped_costs', o.cost_func_wrapper(x.copy()),
              total(kind, pr.costs(y), ww), 1e-12, 1e-12, kind)

    def f(v):
        return total(kind, pr.costs(v.reshape(pr.n_c, pr.n_t).T), ww)
    want = ref.fd_grad(f, x)
    if kind == 'lsq':
        want = want.T
    mon.close('wrapped_jacobian', o.cost_jacobian_wrapper(x.copy()), want,
              1e-7, 1e-7, kind)
    mon.sig('wrappers', kind, pr.n_t, pr.n_c, pr.n_f, w is None,
            np.round(y[0, 0], 2))


def real(mon, rng, idx):
    """On control problems."""
    from .pc15 import wired
    kind = ['lsq', 'L-BFGS-B'][idx % 2]
    cs, solvers, funcs, value = wired(rng, 1 + int(rng.random() < .3))
    if not cs or any(c.kind == 'noise' or 'closest=True' in c.note
                     or 'rescale=True' in c.note for c in cs):
        return
    p = cs[0].p
    labels = [x for f in funcs for x in f.label]
    sim = opt.recording(dict(solvers=solvers, cost_funcs=funcs))
    y0 = gen.tame([c.p for c in cs], rng.normal(
        size=(p.n_t, p.rtf.n_ctrl)) * .5)
    w = rng.uniform(.5, 2, size=len(labels))
    use_jac = bool(rng.random() < .8)
    o = optimizer(kind, sim, rng, termination_cond=dict(max_iterations=int(
        rng.integers(2, 8))), cost_func_weights=w,
        use_jacobian_function=use_jac)
    r = o.run_optimization(y0.copy())
    note = kind + ' ' + ' || '.join(c.note for c in cs)
    mon.describe(costs=[c.kind for c in cs], optimizer=kind)
    bookkeeping(mon, o, r, sim, y0, True, labels, note)
    f = np.array(r.final_parameters)
    if any(np.max(np.abs(c.p.amps(f))) > 30 for c in cs):
        mon.event('skipped_steep')
        return
    mon.close('final_cost', r.final_cost, total(
        kind, value(f), w), 0, 1e-6, note)
    # objects with a negative cost function may drive the norm up
    c0 = total(kind, value(y0), w)
    if kind == 'lsq':
        c0, c1 = np.linalg.norm(c0), np.linalg.norm(r.final_cost)
    else:
        c1 = r.final_cost
    mon.check('not_worse_than_start', c1 <= c0 + 1e-9, f'{c0} {c1} {note}')
    mon.event('real_problem')
    mon.sig(note)


def faults(mon, rng, idx):
    """The wall time is exceeded at evaluation k; the best result so far is
    returned."""
    kind = ['lsq', 'L-BFGS-B', 'Nelder-Mead', 'Powell'][idx % 4]
    pr = opt.AffineProblem(rng, power=1 if kind == 'lsq' else 2, n_t=2,
                           n_c=int(rng.integers(1, 3)))
    k = int(rng.integers(1, 7)) if idx % 5 else 0
    use_jac = bool(rng.random() < .6)
    limit = .08 if k else 0.
    saved = bool(rng.random() < .6)
    w = rng.uniform(.2, 3, size=pr.n_f) if rng.random() < .5 else None
    store = bool(rng.random() < .5)
    sim = opt.recording(pr.sim_kwargs(True), delay_at=k, delay=.1)
    o = optimizer(kind, sim, rng, termination_cond=dict(
        TIGHT, max_wall_time=limit if k else -1.),
        save_intermediary_steps=saved, use_jacobian_function=use_jac,
        cost_func_weights=w, store_optimizer=store)
    y0 = rng.normal(size=(pr.n_t, pr.n_c)) * 4
    r = o.run_optimization(y0.copy())
    log = sim.log
    note = f'{kind} k={k} jac={use_jac} evaluations={len(log.costs)}'
    mon.describe(setup=note)
    if 'time' not in str(r.termination_reason).lower():
        # finished before
        mon.check('status_of_other_ends', r.status != 5, note)
        mon.check('limit_obeyed', k > len(log.costs) or k == len(log.costs),
                  note)
        mon.event('finished_in_time')
        return
    mon.check('limit_obeyed', len(log.costs) <= k, note)
    mon.check('status_of_timeout', r.status == 5, note)
    bookkeeping(mon, o, r, sim, y0, saved, pr.labels, note)
    mon.check('wall_iterations', r.num_iter == len(log.costs), note)
    mon.check('stored_optimizer', (r.optimizer is not None) == store, note)
    if not log.costs:
        mon.check('nothing_evaluated', r.final_parameters is None, note)
        mon.sig('fault none', kind, use_jac, saved)
        return
    norms = [np.linalg.norm(c) for c in log.costs]
    b = int(np.argmin(norms))
    mon.close('best_parameters', r.final_parameters, log.pulses[b], 0, 1e-14,
              note)
    mon.close('best_cost', r.final_cost, log.costs[b], 0, 1e-14, note)
    if use_jac:
        j = np.transpose(pr.a, (1, 0, 2))
        ww = np.ones(pr.n_f) if w is None else w
        if kind == 'lsq':
            g = np.linalg.norm(j * ww[None, :, None])
        else:
            res = np.einsum('ftc,tc->f', pr.a, log.pulses[b]) - pr.b
            g = np.linalg.norm(np.einsum('ftc,f->tc', pr.a, 2 * ww * res))
        mon.close('best_gradient', r.final_grad_norm, g, 1e-9, 1e-9, note)
    # the optimizer can be used again
    o.termination_conditions['max_wall_time'] = 100.
    sim.log = opt.Log()
    r2 = o.run_optimization(y0.copy())
    mon.check('usable_after_timeout', r2.status != 5 and 'wall'
              not in str(r2.termination_reason).lower(), note)
    bookkeeping(mon, o, r2, sim, y0, saved, pr.labels, note)
    mon.sig('fault', kind, k, use_jac, saved, w is None, len(log.costs))


class Clock:
    """Every look at any clock costs some time."""

    def __init__(self, step):
        self.step, self.now = step, 1e9

    def __enter__(self):
        real = [getattr(time, n) for n in ('time', 'perf_counter',
                                           'monotonic', 'process_time')]
        self.undo = []
        for m in [time] + [m for n, m in list(sys.modules.items())
                           if n.split('.')[0] == 'qopt']:
            for n, v in list(vars(m).items()):
                if any(v is x for x in real):
                    self.undo.append((m, n, v))
                    setattr(m, n, self)
        return self

    def __exit__(self, *_):
        for m, n, v in self.undo:
            setattr(m, n, v)

    def __call__(self):
        self.now += self.step
        return self.now


def slow(mon, rng, idx):
    """The documented limit of the wall time applies without further
    settings, in each run anew."""
    from qopt import optimize
    kind = ['lsq', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP'][idx % 4]
    pr = opt.AffineProblem(rng, power=1 if kind == 'lsq' else 2, n_t=2,
                           n_c=1)
    limit = optimize.default_termination_conditions['max_wall_time']
    w = rng.uniform(.2, 3, size=pr.n_f) if rng.random() < .5 else None
    saved = bool(rng.random() < .5)
    sim = opt.recording(pr.sim_kwargs(bool(rng.random() < .5)))
    cond = dict(TIGHT)
    if rng.random() < .5:
        cond['max_wall_time'] = limit = float(rng.uniform(100, 2000))
    o = optimizer(kind, sim, rng, termination_cond=cond, cost_func_weights=w,
                  save_intermediary_steps=saved)
    y0 = rng.normal(size=(pr.n_t, pr.n_c)) * 5
    for step in (limit * rng.uniform(1.01, 3), limit / 1e6,
                 limit / rng.integers(2, 12), limit * 2.):
        sim.log = opt.Log()
        with Clock(step) as clock:
            start = clock.now
            r = o.run_optimization(y0.copy())
            took = clock.now - start
        note = f'{kind} limit={limit} step={step} took={took} ' \
               f'{len(sim.log.costs)}'
        ended = 'time' in str(r.termination_reason).lower()
        if took <= limit:
            mon.check('not_ended_early', not ended and r.status != 5, note)
            mon.event('in_time')
        # a minimiser may end by itself in the evaluation before the last
        # look at the clock
        if step > limit:
            mon.check('default_limit', ended and r.status == 5
                      and len(sim.log.costs) <= 1, note)
        elif ended:
            mon.check('limit_needs_time', took > limit, note)
            mon.event('ended_by_clock')
            if sim.log.costs:
                b = int(np.argmin([np.linalg.norm(c)
                                   for c in sim.log.costs]))
                mon.close('best_parameters', r.final_parameters,
                          sim.log.pulses[b], 0, 1e-14, note)
        else:
            # nothing was evaluated long after the limit
            mon.check('ended_in_time', took <= limit + 25 * step, note)
    mon.sig('slow', kind, saved, w is None, pr.n_f)


def hostile(mon, rng, idx):
    """A minimiser which wanders around: the interrupted result is the best
    evaluation, wherever in the history it is."""
    kind = ['lsq', 'L-BFGS-B', 'Nelder-Mead'][idx % 3]
    pr = opt.AffineProblem(rng, power=1 if kind == 'lsq' else 2)
    use_jac = bool(rng.random() < .5)
    saved = bool(rng.random() < .7)
    w = rng.uniform(.2, 3, size=pr.n_f) if rng.random() < .5 else None
    sim = opt.recording(pr.sim_kwargs(bool(rng.random() < .5)))
    o = optimizer(kind, sim, rng, save_intermediary_steps=saved,
                  use_jacobian_function=use_jac, cost_func_weights=w)
    note = f'{kind} saved={saved} jac={use_jac} weights={w is not None}'
    for run in range(2):
        sim.log = log = opt.Log()
        n = int(rng.integers(1, 70))
        y0 = rng.normal(size=(pr.n_t, pr.n_c))
        o.prepare_optimization(y0.copy())
        best = int(rng.integers(n))
        sol = pr.solution(np.ones(pr.n_f))
        for i in range(n):
            y = sol + rng.normal(size=y0.shape) * (
                .01 if i == best else rng.uniform(.5, 9))
            if log.pulses and rng.random() < .1:
                y = log.pulses[rng.integers(len(log.pulses))]
            o.cost_func_wrapper(y.T.flatten())
            if use_jac and rng.random() < .4:
                o.cost_jacobian_wrapper(rng.normal(size=y.size))
        r = o.write_state_to_result()
        bookkeeping(mon, o, r, sim, y0, saved, pr.labels, note)
        b = int(np.argmin([np.linalg.norm(c) for c in log.costs]))
        mon.close('best_parameters', r.final_parameters, log.pulses[b], 0,
                  1e-14, note)
        mon.close('best_cost', r.final_cost, log.costs[b], 0, 1e-14, note)
        mon.check('wall_iterations', r.num_iter == n, note)
    mon.event('hostile_minimiser')
    mon.sig('hostile', note, n, best, pr.n_t, pr.n_c, pr.n_f)


def interrupted(mon, rng, idx):
    """An error in the simulation reaches the user; a later run works."""
    kind = ['lsq', 'L-BFGS-B', 'Nelder-Mead'][idx % 3]
    pr = opt.AffineProblem(rng, power=1 if kind == 'lsq' else 2, n_t=2,
                           n_c=1)
    k = int(rng.integers(0, 4))
    sim = opt.recording(pr.sim_kwargs(True), fail_at=k)
    o = optimizer(kind, sim, rng, termination_cond=dict(TIGHT))
    y0 = rng.normal(size=(pr.n_t, pr.n_c)) * 4
    try:
        o.run_optimization(y0.copy())
        n = len(sim.log.costs)
        mon.check('error_reported', n <= k, f'{n} {k}')
    except opt.Interrupted:
        mon.event('error_reported')
        mon.check('evaluations_before_error', len(sim.log.costs) == k)
    sim2 = opt.recording(pr.sim_kwargs(True))
    o.system_simulator = sim2
    r = o.run_optimization(y0.copy())
    bookkeeping(mon, o, r, sim2, y0, True, pr.labels, kind)
    mon.event('usable_after_error')
    mon.sig('interrupted', kind, k)


def conditions(mon, rng, idx):
    from qopt import optimize
    defaults = copy.deepcopy(optimize.default_termination_conditions)
    kind = ['lsq', 'L-BFGS-B', 'Nelder-Mead'][idx % 3]
    pr = opt.AffineProblem(rng, power=2, n_t=2, n_c=1)

    def run(**cond):
        given = dict(cond)
        sim = opt.recording(pr.sim_kwargs(False))
        o = optimizer(kind, sim, rng, termination_cond=given)
        mon.check('conditions_given_unchanged', given == cond)
        mon.check('conditions_merged', all(
            o.termination_conditions[k] == cond.get(k, v)
            for k, v in defaults.items()))
        o.termination_conditions['min_cost_gain'] = \
            o.termination_conditions['min_cost_gain']
        r = o.run_optimization(y0.copy())
        return r, sim, o
    y0 = pr.solution(np.ones(pr.n_f)) + rng.normal(size=(2, 1)) * 3
    a, sa, oa = run(**TIGHT)
    n = int(rng.integers(1, 4))
    b, sb, ob = run(max_iterations=n, **TIGHT)
    mon.check('max_iterations', len(sb.log.costs) <= len(sa.log.costs),
              kind)
    if kind == 'lsq':
        mon.check('max_iterations', b.num_iter <= n)
        mon.check('max_iterations_status', b.status == 0 or
                  b.num_iter < n + 1, kind)
    else:
        mon.check('max_iterations', len(sb.log.costs) <= 22 * (n + 1) + 3)
        if len(sa.log.costs) > 3 * len(sb.log.costs):
            mon.check('max_iterations_status', b.status != 0, kind)
    if kind != 'Nelder-Mead':
        # every tolerance alone is able to stop early
        for c in ('min_cost_gain', 'min_gradient_norm'):
            t = dict(TIGHT)
            t[c] = 1e12 if c == 'min_gradient_norm' else .9
            d, sd, od = run(**t)
            mon.check('tolerance_' + c, len(sd.log.costs) <= len(
                sa.log.costs), f'{c} {kind}')
            if c == 'min_gradient_norm':
                mon.check('tolerance_' + c, d.num_iter <= 2, kind)
        if kind == 'lsq':
            d, sd, od = run(**dict(TIGHT, min_amplitude_change=1e9))
            mon.check('tolerance_min_amplitude_change', d.num_iter <= 3,
                      kind)
    c, sc, oc = run(**TIGHT)
    mon.close('conditions_independent', c.final_parameters,
              a.final_parameters, 0, 1e-13)
    mon.check('defaults_untouched',
              optimize.default_termination_conditions == defaults)
    plain = optimizer(kind, opt.recording(pr.sim_kwargs(False)), rng)
    mon.check('defaults_used', rng, plain.termination_conditions == defaults)
    mon.sig('conditions', kind, n, np.round(y0[0, 0], 2))


def direct(mon, rng, idx):
    """The conditions reach the minimiser: the same steps as of a run of
    scipy with the conditions written out."""
    import scipy.optimize
    kind = ['lsq', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'Powell'][
        idx % 5 if idx % 2 else idx // 2 % 3]
    pr = opt.AffineProblem(rng, power=2, n_t=int(rng.integers(1, 4)),
                           n_c=int(rng.integers(1, 3)))
    cond = {}
    for name, lo, hi in (('min_cost_gain', -12, 0),
                         ('min_gradient_norm', -12, 2),
                         ('min_amplitude_change', -12, 0)):
        if rng.random() < .6:
            cond[name] = float(10 ** rng.uniform(lo, hi))
    if rng.random() < .6:
        cond['max_iterations'] = int(10 ** rng.uniform(.3, 2.5))
    w = rng.uniform(.2, 3, size=pr.n_f) if rng.random() < .5 else None
    use_jac = bool(rng.random() < .6)
    y0 = rng.normal(size=(pr.n_t, pr.n_c)) * 3
    kw = dict(termination_cond=cond, cost_func_weights=w,
              use_jacobian_function=use_jac,
              save_intermediary_steps=bool(rng.random() < .5))
    lo = hi = None
    if rng.random() < .4:
        lo, hi = y0 - rng.uniform(.1, 4, size=y0.shape), y0 + rng.uniform(
            .1, 4, size=y0.shape)
        kw['bounds'] = bounds_for(kind, lo, hi)
    method = 'trf'
    if kind == 'lsq':
        method = kw['method'] = ['trf', 'dogbox'][rng.integers(2)]
    sim = opt.recording(pr.sim_kwargs(False))
    r = optimizer(kind, sim, rng, **copy.deepcopy(kw)).run_optimization(y0.copy())
    note = f'{kind} {method} {cond} jac={use_jac} bounds={lo is not None}'
    mon.describe(setup=note)
    # the same functions as seen by the minimiser
    ref_sim = opt.recording(pr.sim_kwargs(False))
    o = optimizer(kind, ref_sim, rng, **copy.deepcopy(kw))
    o.prepare_optimization(y0.copy())
    c = dict(min_cost_gain=1e-7, min_gradient_norm=1e-7,
             min_amplitude_change=1e-8, max_iterations=10000)
    c.update(cond)
    x0 = y0.T.flatten()
    jac = o.cost_jacobian_wrapper if use_jac else None
    if kind == 'lsq':
        want = scipy.optimize.least_squares(
            o.cost_func_wrapper, x0, jac or '2-point',
            kw.get('bounds', (-np.inf, np.inf)), method,
            ftol=c['min_cost_gain'], gtol=c['min_gradient_norm'],
            xtol=c['min_amplitude_change'], max_nfev=c['max_iterations'])
    else:
        options = {'L-BFGS-B': dict(
            ftol=c['min_cost_gain'], gtol=c['min_gradient_norm'],
            maxiter=c['max_iterations']), 'Nelder-Mead': dict(
            maxiter=c['max_iterations'])}.get(kind)
        want = scipy.optimize.minimize(
            o.cost_func_wrapper, x0, method=kind, bounds=kw.get('bounds'),
            jac=jac if kind == 'L-BFGS-B' else None, options=options)
    # the simplex may take other ways after rounding errors
    n, m = len(sim.log.costs), len(ref_sim.log.costs)
    mon.check('evaluations', n == m if kind != 'Nelder-Mead' else
              abs(n - m) <= .2 * m, f'{n} {m} {note}')
    mon.close('same_minimum', r.final_parameters,
              want.x.reshape(y0.shape[::-1]).T, 0,
              1e-6 if kind == 'Nelder-Mead' else 1e-9, note)
    mon.check('same_status', r.status == want.status, note)
    mon.event('direct_' + kind)
    mon.sig('direct', note)


WORKLOADS = dict(wrappers=(wrappers, 120, 2000), direct=(direct, 150, 2500),
                 known=(known, 560, 9000), real=(real, 120, 1500),
                 faults=(faults, 160, 1200), slow=(slow, 60, 800),
                 hostile=(hostile, 150, 3000),
                 interrupted=(interrupted, 45, 400),
                 conditions=(conditions, 90, 1200))
REQUIRED = ['wrapped_costs', 'wrapped_jacobian', 'steps_recorded', 'step_costs', 'step_parameters',
            'step_gradients', 'statistics', 'final_cost',
            'not_worse_than_start', 'bounds_final', 'bounds_evaluations',
            'optimum', 'constrained_optimum', 'uses_jacobian', 'num_iter',
            'grad_norm', 'second_run', 'best_parameters', 'best_cost',
            'best_gradient', 'nothing_evaluated', 'usable_after_timeout',
            'error_reported', 'conditions_merged', 'max_iterations',
            'tolerance_min_gradient_norm', 'real_problem',
            'stored_optimizer', 'init_parameters', 'hostile_minimiser', 'default_limit',
            'evaluations', 'same_minimum', 'same_status', 'direct_Nelder-Mead',
            'not_ended_early', 'ended_by_clock', 'in_time']
