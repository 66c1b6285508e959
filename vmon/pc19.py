"""C19: stored optimization data are complete, ordered and survive storage."""
import copy
import os
import shutil
import tempfile

import numpy as np

from . import opt
from .ref import size

PROPERTY = 'C19'
RULE = ('Random histories of optimization results (with and without stored '
        'steps, statistics, scalar and vector costs, ragged lengths) and '
        'real optimization runs appended to containers, with storage to and '
        'loading from files, copies, rejected results and further appends '
        'interleaved. A shadow history kept by the harness is compared with '
        'the container after every operation. Distinct by the sequence of '
        'operations.')
ASSUMES = ['files are written into an existing directory']


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and \
            a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(
            equal(a[k], b[k]) for k in a)
    if hasattr(a, '__dict__'):
        return type(a) is type(b) and equal(a.__dict__, b.__dict__)
    return a == b and type(a) is type(b)


def result(rng, labels, n_cost):
    from qopt.optimization_data import OptimizationResult, \
        OptimizationSummary
    from qopt.performance_statistics import PerformanceStatistics
    n_t, n_c = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    k = size(rng, 0, 6)
    summ = st = None
    if rng.random() < .75:
        summ = OptimizationSummary(
            indices=list(labels), iter_num=k,
            costs=[rng.normal(size=n_cost) for _ in range(k)],
            gradients=[rng.normal(size=(n_t, n_cost, n_c))
                       for _ in range(k)],
            parameters=[rng.normal(size=(n_t, n_c)) for _ in range(k)])
    if rng.random() < .8:
        st = PerformanceStatistics()
        st.start_t_opt = float(rng.uniform(0, 10))
        st.end_t_opt = st.start_t_opt + float(rng.uniform(0, 10))
        st.indices = list(labels)
        st.cost_func_eval_times = rng.random((k, 2)).tolist()
        st.grad_func_eval_times = rng.random((k // 2, 2)).tolist()
    cost = rng.normal(size=n_cost)
    if n_cost == 1 and rng.random() < .5:
        cost = float(cost[0])
    return OptimizationResult(
        final_cost=cost, indices=list(labels),
        final_parameters=rng.normal(size=(n_t, n_c)),
        final_grad_norm=float(rng.random()),
        init_parameters=rng.normal(size=(n_t, n_c)), num_iter=k,
        termination_reason=['a', 'b'][rng.integers(2)],
        status=[None, -1, 0, 1, 2, 3, 4, 5][rng.integers(8)],
        optimization_stats=st, optim_summary=summ)


def scramble(rng, c):
    """Overwrite everything stored in a container in place."""
    for name in list(FIELDS) + ['costs', 'parameters']:
        entries = getattr(c, name)
        for e in entries:
            for a in e if isinstance(e, list) else [e]:
                if isinstance(a, np.ndarray):
                    a += 1.
            if isinstance(e, list):
                e.append(-1.)
            if hasattr(e, 'cost_func_eval_times'):
                e.start_t_opt = -5.
                e.cost_func_eval_times.append([0., 0.])
        how = rng.integers(3)
        if how == 0 and len(entries):
            entries[0] = None
        elif how == 1:
            entries.append('x')
    c.indices.append('x') if isinstance(c.indices, list) else None


FIELDS = dict(final_costs='final_cost', init_parameters='init_parameters',
              final_parameters='final_parameters', status='status',
              optimization_statistics='optimization_stats')


def compare(mon, c, shadow, labels, note):
    mon.check('length', len(c) == len(shadow), f'{len(c)} {note}')
    if shadow:
        mon.check('indices', list(c.indices) == labels
                  and list(c.index) == labels, note)
    for name, attr in FIELDS.items():
        got = getattr(c, name)
        mon.check('stored_' + name, equal(list(got), [getattr(
            r, attr) for r in shadow]), note)
    for name in ('costs', 'parameters'):
        want = [[] if r.optim_summary is None
                else getattr(r.optim_summary, name) for r in shadow]
        mon.check('stored_' + name, equal(list(getattr(c, name)), want),
                  note)


def history(mon, rng, idx):
    from qopt.data_container import DataContainer
    tmp = tempfile.mkdtemp(prefix='vmon-c19-')
    try:
        n_cost = size(rng, 1, 4, 12)
        labels = [f'cost {i}' for i in range(n_cost)]
        if n_cost > 1 and rng.random() < .2:
            # as the default label
            labels[1] = labels[0]
        split = bool(rng.random() < .5)
        path = dict(storage_path=tmp, file_name='data.pickle') if split else \
            dict(storage_path=os.path.join(tmp, 'data.pickle'),
                 file_name=None)
        if rng.random() < .5:
            path['append_time_to_path'] = bool(rng.random() < .5)
        c = DataContainer(**path)
        default = os.path.join(tmp, 'data.pickle')
        mon.check('empty', len(c) == 0 and os.listdir(tmp) == [])
        where = DataContainer().storage_path
        mon.check('default_path', os.path.isabs(where) and os.path.isdir(
            os.path.dirname(where)), where)
        shadow, ops = [], []
        files = {}
        olds = []
        for step in range(size(rng, 3, 14, 40)):
            w = ['append', 'append', 'append', 'save', 'save_as', 'load',
                 'copy', 'reject', 'dict'][rng.integers(9)]
            ops.append(w)
            note = ' '.join(ops)
            if w == 'append':
                r = result(rng, labels, n_cost)
                keep = copy.deepcopy(r)
                c.append_optim_result(r)
                mon.check('result_unmodified', equal(r, keep), note)
                shadow.append(keep)
            elif w == 'save':
                c.to_pickle()
                mon.check('default_file', os.path.isfile(default), note)
                files[default] = list(shadow)
            elif w == 'save_as':
                f = os.path.join(tmp, f'other{rng.integers(3)}')
                c.to_pickle(f)
                files[f] = list(shadow)
            elif w == 'load' and files:
                f = sorted(files)[rng.integers(len(files))]
                c = DataContainer.from_pickle(f)
                shadow = list(files[f])
                compare(mon, c, shadow, labels, note + ' loaded')
                mon.check('paths_kept', c.storage_path == path[
                    'storage_path'] and c.file_name == path['file_name']
                    and c.append_time_to_path == path.get(
                        'append_time_to_path', True), note)
                mon.event('loaded_nonempty', int(bool(shadow)))
            elif w == 'copy':
                # go on with either of the two
                d = copy.deepcopy(c)
                compare(mon, d, shadow, labels, note + ' copied')
                mon.check('paths_kept', (d.storage_path, d.file_name,
                                         d.append_time_to_path) == (
                    c.storage_path, c.file_name, c.append_time_to_path),
                    note)
                if rng.random() < .5:
                    c, d = d, c
                olds.append((d, list(shadow)))
            elif w == 'reject' and shadow:
                bad = result(rng, labels[::-1] if labels[::-1] !=
                             labels and rng.random() < .5 else labels + ['x'], n_cost)
                mon.raises('different_costs_refused', AssertionError,
                           c.append_optim_result, bad)
            elif w == 'dict' and hasattr(c, '_to_dict'):
                c = DataContainer._from_dict(c._to_dict())
            compare(mon, c, shadow, labels, note)
        # copies and files are independent of everything which came later
        scramble(rng, c)
        for d, s in olds:
            compare(mon, d, s, labels, 'old copy ' + ' '.join(ops))
            mon.event('copy_independent')
        for f, s in files.items():
            compare(mon, DataContainer.from_pickle(f), s, labels,
                    'file ' + ' '.join(ops))
        mon.check('no_other_files', sorted(os.path.join(
            tmp, f) for f in os.listdir(tmp)) == sorted(files), ' '.join(ops))
        mon.describe(operations=' '.join(ops), n_cost=n_cost)
        mon.sig(' '.join(ops), n_cost)
    finally:
        shutil.rmtree(tmp)


def runs(mon, rng, idx):
    """Real optimization runs, the optimizer is used repeatedly."""
    from qopt import optimize
    from qopt.data_container import DataContainer
    tmp = tempfile.mkdtemp(prefix='vmon-c19-')
    try:
        cls = [optimize.LeastSquaresOptimizer,
               optimize.ScalarMinimizingOptimizer][rng.integers(2)]
        pr = opt.AffineProblem(
            rng, 1 if cls is optimize.LeastSquaresOptimizer else 2)
        stats = bool(rng.random() < .8)
        sim = opt.recording(pr.sim_kwargs(stats))
        saved = bool(rng.random() < .8)
        o = cls(sim, save_intermediary_steps=saved, termination_cond=dict(
            max_iterations=int(rng.integers(2, 8))))
        c = DataContainer(storage_path=tmp, file_name='r')
        shadow, ops = [], []
        sep = bool(rng.random() < .5)
        for i in range(size(rng, 1, 5, 14)):
            y = rng.normal(size=(pr.n_t, pr.n_c))
            n0 = len(sim.log.costs)
            r = o.run_optimization(y.copy())
            shadow.append(copy.deepcopy(r))
            c.append_optim_result(r)
            note = f'{cls.__name__} run {i} saved={saved} stats={stats}'
            compare(mon, c, shadow, pr.labels, note)
            mon.close('start_recorded', c.init_parameters[-1], y, 0, 0, note)
            if saved:
                mon.check('steps_recorded', len(c.costs[-1]) == len(
                    c.parameters[-1]) > 0 and all(
                    any(np.array_equal(x, z) for z in sim.log.costs[n0:])
                    for x in c.costs[-1]), note)
            if sep:
                c.to_pickle()
                c = DataContainer.from_pickle(os.path.join(tmp, 'r'))
                compare(mon, c, shadow, pr.labels, note)
        mon.sig(cls.__name__, len(shadow), saved, stats, sep, pr.n_f)
    finally:
        shutil.rmtree(tmp)


def results(mon, rng, idx):
    from qopt.optimization_data import OptimizationResult, \
        OptimizationSummary
    n_cost = size(rng, 1, 4, 12)
    r = result(rng, [f'c{i}' for i in range(n_cost)], n_cost)
    if rng.random() < .3:
        r.optimizer = 'optimizer'
    keep = copy.deepcopy(r)
    d = r.to_dict()
    s = OptimizationResult.from_dict(d)
    mon.check('result_round_trip', equal(s, keep), lambda: f'{d}')
    mon.check('result_unmodified', equal(r, keep))
    mon.check('result_keys', set(d) == set(vars(r)), sorted(d))
    a, b = OptimizationResult(), OptimizationResult()
    mon.check('not_started', a.status is None
              and a.termination_reason == 'not started yet')
    mon.check('empty_round_trip', equal(
        OptimizationResult.from_dict(a.to_dict()), b))
    n = int(rng.integers(0, 5))
    given = dict(indices=['a', 'b'], iter_num=n,
                 costs=[rng.normal(size=2) for _ in range(n)],
                 gradients=[rng.normal(size=(3, 2, 1)) for _ in range(n)],
                 parameters=[rng.normal(size=(3, 1)) for _ in range(n)])
    full = OptimizationSummary(**copy.deepcopy(given))
    for k, v in given.items():
        part = OptimizationSummary(**{k: copy.deepcopy(v)})
        mon.check('summary_keeps', equal(getattr(full, k), v) and equal(
            getattr(part, k), v), k)
        for other in given:
            if other != k:
                mon.check('summary_empty', equal(
                    getattr(part, other),
                    getattr(OptimizationSummary(), other)), f'{k} {other}')
    p, q = OptimizationSummary(), OptimizationSummary()
    mon.check('summary_empty', p.costs == p.gradients == p.parameters == []
              and p.iter_num == 0 and p.indices is None)
    p.costs.append(1.)
    p.gradients.append(2.)
    p.parameters.append(3.)
    mon.check('summaries_independent', q.costs == q.gradients
              == q.parameters == [])
    mon.sig('result', n_cost, r.status, r.optim_summary is None)


def containers(mon, rng, idx):
    """New containers do not share data."""
    from qopt.data_container import DataContainer
    a, b = DataContainer(), DataContainer()
    mon.check('default_path', isinstance(a.storage_path, str)
              and a.file_name == 'Temp File')
    labels = ['u', 'v']
    r = result(rng, labels, 2)
    a.append_optim_result(r)
    compare(mon, b, [], labels, 'second container')
    d = DataContainer()
    compare(mon, d, [], labels, 'third container')
    compare(mon, a, [r], labels, 'first container')
    # data given at construction
    rs = [result(rng, labels, 2) for _ in range(int(rng.integers(1, 4)))]
    kw = dict(indices=labels,
              costs=[[] if r.optim_summary is None
                     else r.optim_summary.costs for r in rs],
              parameters=[[] if r.optim_summary is None
                          else r.optim_summary.parameters for r in rs])
    for name, attr in FIELDS.items():
        kw['optimization_stats' if name == 'optimization_statistics'
           else name] = [getattr(r, attr) for r in rs]
    c = DataContainer(**kw)
    compare(mon, c, rs, labels, 'constructed')
    x = result(rng, labels, 2)
    c.append_optim_result(x)
    compare(mon, c, rs + [x], labels, 'constructed and appended')
    mon.sig('containers', len(rs))


WORKLOADS = dict(history=(history, 250, 4000), runs=(runs, 80, 1000),
                 results=(results, 100, 1000),
                 containers=(containers, 40, 400))
REQUIRED = ['length', 'summary_keeps', 'summary_empty', 'indices', 'stored_final_costs', 'stored_costs',
            'stored_parameters', 'stored_status',
            'stored_optimization_statistics', 'default_file',
            'loaded_nonempty', 'different_costs_refused',
            'copy_independent', 'paths_kept', 'result_round_trip',
            'start_recorded', 'steps_recorded']
