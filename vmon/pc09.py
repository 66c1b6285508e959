"""C09: Monte Carlo solvers propagate each noise trace correctly."""
import os
import tempfile
import time

import numpy as np

from . import gen, ref
from .ref import dat, op

PROPERTY = 'C09'
RULE = ('Random noisy control problems with a noise generator which records '
        'every draw (and with the built-in generators): each trace is '
        'compared with the reference solution of the Hamiltonian assembled '
        'from the recorded draw, noise amplitude functions see exactly the '
        'documented arguments, repeated reads belong to one draw, results '
        'do not depend on the number of processes, noise on the controls '
        'equals a shifted pulse.')
ASSUMES = ['one noise sample per (transferred) time step',
           'derivatives with more than one process are documented as not '
           'implemented']


def compare(mon, p, s, y, samples, note, derivs=False):
    u, t = p.amps(y), p.times()
    sol = [gen.solve(h, t, p.start(), p.d) for h in p.noisy_hams(y, samples)]
    mon.check('number_of_traces', len(s.propagators_noise) == p.n_traces,
              note)
    mon.close('trace_propagators', dat(s.propagators_noise),
              np.array([x[0] for x in sol]), 1e-8, 1e-8, note)
    mon.close('trace_forward', dat(s.forward_propagators_noise),
              np.array([x[1] for x in sol]), 1e-8, 1e-8, note)
    mon.close('trace_reversed', dat(s.reversed_propagators_noise),
              np.array([x[2] for x in sol]), 1e-8, 1e-8, note)
    # the unperturbed solution is available as well
    q = p.solve(u, t)
    mon.close('unperturbed', dat(s.forward_propagators), np.array(q[1]),
              1e-8, 1e-8, note)
    mon.close('unperturbed', dat(s.reversed_propagators), np.array(q[2]),
              1e-8, 1e-8, note)
    mon.close('unperturbed', dat(s.propagators), np.array(q[0]),
              1e-8, 1e-8, note)


def traces(mon, rng, idx):
    p = gen.MonteCarloProblem(rng, tf='random' if rng.random() < .6 else
                              None, n_t=int(rng.integers(1, 5)),
                              nonherm=bool(rng.random() < .2))
    mon.event('non_hermitian', int(p.nonherm))
    m = gen.METHODS[rng.integers(3)]
    seen = []
    kw = dict(exponential_method=m)
    if p.naf:
        def naf(**k):
            seen.append({a: np.array(b) for a, b in k.items()})
            return p.naf_values(
                k['noise_samples'], k['transferred_parameters'],
                k['control_amplitudes'], k['optimization_parameters'])
        kw['noise_amplitude_function'] = naf
    s = p.monte_carlo(**kw)
    g = s.noise_trace_generator
    note = f'{p.name()} {m}'
    mon.describe(problem=p.name(), method=m)
    reads = ['propagators_noise', 'forward_propagators_noise',
             'reversed_propagators_noise', 'propagators',
             'forward_propagators', 'reversed_propagators']
    if rng.random() < .3:
        reads += ['frechet_deriv_propagators_noise',
                  'frechet_deriv_propagators']
    inputs = list(s.h_noise) + list(s.h_ctrl) + list(s.h_drift)
    with mon.guard('inputs_unchanged', *inputs):
        y = None
        for rnd in range(int(rng.integers(1, 4))):
            y, old = p.params(rng), y
            if np.array_equal(y, old):
                # nothing has to be evaluated again
                continue
            s.set_optimization_parameters(y.copy())
            n0 = len(g.log)
            seen.clear()
            for k in rng.permutation(len(reads)):
                getattr(s, reads[k])
            n1 = len(g.log)
            if p.always_redraw:
                mon.check('redrawn_for_new_parameters', n1 > n0, note)
            else:
                mon.check('samples_kept', n1 == 1, f'{note} {n1}')
            used = [x for x in g.log[-1:]]
            with mon.guard('samples_unchanged', g.log[-1], *used):
                compare(mon, p, s, y, g.log[-1], note)
            mon.check('one_draw_per_evaluation', len(g.log) == n1, note)
            if p.naf:
                mon.check('noise_function_called', len(seen) > 0, note)
                k = seen[-1]
                mon.check('noise_function_arguments', set(k) == {
                    'noise_samples', 'optimization_parameters',
                    'transferred_parameters', 'control_amplitudes'})
                mon.close('noise_function_arguments', k['noise_samples'],
                          np.moveaxis(g.log[-1], 2, 0).swapaxes(1, 2), 0,
                          1e-14, note)
                mon.close('noise_function_arguments',
                          k['optimization_parameters'], y, 0, 1e-14, note)
                x = p.transferred(y)
                mon.close('noise_function_arguments',
                          k['transferred_parameters'], x, 1e-9, 1e-9, note)
                mon.close('noise_function_arguments',
                          k['control_amplitudes'] / p.amp_unit,
                          p.u_of(x) / p.amp_unit, 1e-9, 1e-9, note)
    mon.sig(*p.sig(), m)


class Slow:
    """Delays the exponentials in worker processes, so that traces are
    finished in another order than they were started. The completion order
    is logged."""

    def __init__(self, active, rng):
        self.active = active
        self.seed = float(rng.uniform(1, 2))

    def __enter__(self):
        from qopt.matrix import DenseOperator
        if not self.active:
            return self
        fd, self.log = tempfile.mkstemp()
        os.close(fd)
        self.exp = DenseOperator.exp
        parent, exp, seed, log = os.getpid(), self.exp, self.seed, self.log

        def delayed(self, *a, **kw):
            if os.getpid() != parent:
                k = float(np.sum(np.abs(self.data))) * 1e3 * seed
                time.sleep(8e-3 * (k % 1))
                with open(log, 'a') as f:
                    f.write(repr(complex(self.data[0, 0])) + '\n')
            return exp(self, *a, **kw)
        DenseOperator.exp = delayed
        return self

    def __exit__(self, *a):
        from qopt.matrix import DenseOperator
        if self.active:
            DenseOperator.exp = self.exp
            os.unlink(self.log)

    def finished(self):
        with open(self.log) as f:
            return [complex(x) for x in f]


def processes(mon, rng, idx):
    """Parallel computation gives the serial result, also when the worker
    processes overtake each other."""
    with Slow(idx % 2 == 1, rng) as slow:
        _processes(mon, rng, idx, slow)


def _processes(mon, rng, idx, slow):
    p = gen.MonteCarloProblem(rng, tf='random' if rng.random() < .4 else
                              None, n_t=int(rng.integers(1, 4)),
                              always_redraw=False,
                              nonherm=bool(rng.random() < .2))
    n = [2, 3, None, 5][idx % 4]
    m = gen.METHODS[rng.integers(3)]
    a = p.monte_carlo(exponential_method=m)
    b = p.monte_carlo(processes=n, exponential_method=m)
    note = f'{p.name()} processes={n}'
    mon.describe(problem=p.name(), processes=n)
    for rnd in range(2):
        y = p.params(rng)
        for s in (a, b):
            s.set_optimization_parameters(y.copy())
        mon.close('process_independent', dat(b.propagators_noise),
                  dat(a.propagators_noise), 0, 1e-13, note)
        mon.close('process_independent', dat(b.forward_propagators_noise),
                  dat(a.forward_propagators_noise), 0, 1e-13, note)
        compare(mon, p, b, y, b.noise_trace_generator.log[-1], note)
    if slow.active:
        done = slow.finished()
        started = [-1j * h[0, 0] for rnd in (y,) for tr in p.noisy_hams(
            rnd, b.noise_trace_generator.log[-1]) for h in tr]
        place = [int(np.argmin(np.abs(np.array(started) - z)))
                 for z in done[-len(started):]]
        mon.event('overtaken_traces', sum(
            a > b for a, b in zip(place, place[1:])))
    mon.raises('invalid_processes', ValueError, lambda: _bad(p, y, rng))
    mon.sig('proc', n, *p.sig())


def _bad(p, y, rng):
    s = p.monte_carlo(processes=[0, -1, 'a', 1.5][rng.integers(4)])
    s.set_optimization_parameters(y)
    return s.propagators_noise


def control_noise(mon, rng, idx):
    """Noise on the transferred parameters."""
    from qopt.solver_algorithms import SchroedingerSMCControlNoise
    p = gen.MonteCarloProblem(rng, tf='random' if rng.random() < .5 else
                              None, naf=0, n_t=int(rng.integers(1, 5)))
    g = gen.recorded_noise(p.n_x, p.n_traces, p.n_par, p.noise_seed,
                           p.always_redraw)
    deriv = bool(rng.random() < .3)
    s = SchroedingerSMCControlNoise(**p.kwargs(
        noise_trace_generator=g, calculate_propagator_derivatives=deriv))
    mon.describe(problem=p.name())
    for rnd in range(2):
        y = p.params(rng)
        s.set_optimization_parameters(y.copy())
        got = dat(s.forward_propagators_noise)
        x = p.transferred(y)
        n = g.log[-1]
        want = []
        for k in range(p.n_traces):
            u = p.u_of(x + n[:, k, :].T)
            want.append(p.solve(u, p.times())[1])
        mon.close('control_noise', got, np.array(want), 1e-8, 1e-8,
                  p.name())
        mon.close('unperturbed', dat(s.forward_propagators),
                  np.array(p.solve(p.u_of(x), p.times())[1]), 1e-8, 1e-8)
    mon.sig('control', *p.sig())


def builtin(mon, rng, idx):
    """With the generators of the package; also noiseless limits."""
    from qopt.noise import NTGQuasiStatic, NTGColoredNoise
    p = gen.MonteCarloProblem(rng, tf='random' if rng.random() < .4 else
                              None, n_t=int(rng.integers(1, 5)), naf=None)
    k = idx % 4
    n_tr = int(rng.integers(2, 4))
    std = list(rng.uniform(.01, .5, size=p.n_noise))
    if k == 0:
        g = NTGQuasiStatic(std, p.n_x, n_tr, always_redraw_samples=False)
        p.n_traces = n_tr * p.n_noise
    elif k == 1:
        g = NTGQuasiStatic(std, p.n_x, n_tr, always_redraw_samples=False,
                           sampling_mode='monte_carlo')
        p.n_traces = n_tr
    elif k == 2:
        g = NTGColoredNoise(
            p.n_x, lambda f: .01 / np.abs(f), dt=float(p.tau[0]),
            n_traces=n_tr, n_noise_operators=p.n_noise,
            always_redraw_samples=False, low_frequency_extension_ratio=int(
                rng.integers(1, 4)))
        p.n_traces = n_tr
    else:
        # vanishing noise
        g = NTGQuasiStatic([0.] * p.n_noise, p.n_x, n_tr,
                           always_redraw_samples=False,
                           sampling_mode='monte_carlo')
        p.n_traces = n_tr
    s = p.monte_carlo(noise_trace_generator=g)
    y = p.params(rng)
    s.set_optimization_parameters(y)
    s.propagators_noise
    smp = np.array(g.noise_samples)
    compare(mon, p, s, y, smp, f'{p.name()} generator {k}')
    if k == 3:
        for f in dat(s.forward_propagators_noise):
            mon.close('noiseless_limit', f, dat(s.forward_propagators),
                      0, 1e-12, p.name())
    mon.event('builtin_generator')
    mon.sig('builtin', k, *p.sig())


def scaling(mon, rng, idx):
    """Metamorphic: constant noise on an operator equals a shifted drift;
    permuted traces permute the results."""
    from qopt.noise import NoiseTraceGenerator
    p = gen.MonteCarloProblem(rng, tf=None, naf=0, always_redraw=False,
                              drift='op')
    y = p.params(rng)

    class Fixed(NoiseTraceGenerator):
        def __init__(self, smp):
            super().__init__(noise_samples=smp, always_redraw_samples=False,
                             n_samples_per_trace=smp.shape[2],
                             n_traces=smp.shape[1],
                             n_noise_operators=smp.shape[0])

        def _sample_noise(self):
            raise AssertionError('must not draw')
    c = rng.normal(size=(p.n_noise, p.n_traces, 1)) * .4
    smp = np.repeat(c, p.n_x, axis=2)
    s = p.monte_carlo(noise_trace_generator=Fixed(smp.copy()))
    s.set_optimization_parameters(y)
    got = dat(s.forward_propagators_noise)
    for k in range(p.n_traces):
        h = p.drift_ops[0] + sum(
            c[i, k, 0] * p.h_noise[i] for i in range(p.n_noise))
        t = p.schroedinger(h_drift=[op(h)])
        t.set_optimization_parameters(y)
        mon.close('constant_noise_is_drift', got[k],
                  dat(t.forward_propagators), 1e-9, 1e-9, p.name())
    perm = rng.permutation(p.n_traces)
    s2 = p.monte_carlo(noise_trace_generator=Fixed(smp[:, perm].copy()))
    s2.set_optimization_parameters(y)
    mon.close('trace_order', dat(s2.forward_propagators_noise), got[perm],
              0, 1e-12, p.name())
    mon.sig('scaling', *p.sig())


WORKLOADS = dict(traces=(traces, 500, 8000),
                 processes=(processes, 32, 400),
                 control_noise=(control_noise, 160, 2500),
                 builtin=(builtin, 120, 2000),
                 scaling=(scaling, 80, 1500))
REQUIRED = ['trace_propagators', 'trace_forward', 'trace_reversed',
            'unperturbed', 'process_independent', 'control_noise',
            'builtin_generator', 'constant_noise_is_drift', 'trace_order',
            'noise_function_arguments', 'redrawn_for_new_parameters',
            'samples_kept', 'one_draw_per_evaluation', 'noiseless_limit',
            'inputs_unchanged', 'invalid_processes', 'non_hermitian']
