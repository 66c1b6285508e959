"""C05: the Schroedinger solver solves the Schroedinger equation."""
import numpy as np

from . import gen, ref
from .ref import dat

PROPERTY = 'C05'
RULE = ('Random control problems (dimension 1-8, 1-32 parameter steps, 1-7 '
        'controls, units of time and of the controls, every way of giving '
        'the drift, random nested transfer '
        'functions, amplitude functions, initial states, exponential '
        'methods); the oracle multiplies own matrix exponentials of the '
        'explicitly assembled Hamiltonians in time order; independent '
        'Runge-Kutta integration of the Schroedinger equation in a second '
        'workload.')
ASSUMES = ['piecewise constant Hamiltonians, hbar=1']


def compare(mon, p, s, y, note):
    u = p.amps(y)
    times = p.times()
    props, fwd, rev = p.solve(u, times)
    mon.close('transferred_time', s.transferred_time, times, 1e-12, 1e-12,
              note)
    mon.close('propagators', dat(s.propagators), np.array(props), 1e-9,
              1e-9, note)
    mon.close('forward_propagators', dat(s.forward_propagators),
              np.array(fwd), 1e-9, 1e-9, note)
    mon.close('reversed_propagators', dat(s.reversed_propagators),
              np.array(rev), 1e-9, 1e-9, note)
    return props, fwd, rev


def products(mon, rng, idx):
    p = gen.Problem(rng, nonherm=bool(rng.random() < .2))
    m = gen.METHODS[rng.integers(3)]
    deriv = bool(rng.random() < .5)
    s = p.schroedinger(exponential_method=m if rng.random() < .8 else
                       'approx' if not deriv else m,
                       calculate_propagator_derivatives=deriv)
    note = f'{p.name()} method={m} deriv={deriv}'
    mon.describe(problem=p.name(), method=m, deriv=deriv)
    inputs = list(s.h_ctrl) + list(s.h_drift) + (
        [s.initial_state])
    with mon.guard('inputs_unchanged', *inputs):
        for _ in range(2):
            y = p.params()
            s.set_optimization_parameters(y.copy())
            order = rng.permutation(3)
            for o in order:
                [lambda: s.propagators, lambda: s.forward_propagators,
                 lambda: s.reversed_propagators][o]()
            compare(mon, p, s, y, note)
            d = p.d
            if p.nonherm:
                mon.event('non_hermitian')
            for x in [] if p.nonherm else dat(s.propagators):
                mon.close('unitary', x @ x.conj().T, np.eye(d), 0, 1e-9)
            f = dat(s.forward_propagators)
            r = dat(s.reversed_propagators)
            n = len(f) - 1
            mon.check('lengths', len(s.propagators) == n == p.n_x
                      and len(r) == n + 1, note)
            for i in range(n + 1):
                mon.close('forward_backward_split', r[n - i] @ f[i], f[n],
                          0, 1e-8, note)
            if not p.nonherm:
                mon.close('norm_conserved', np.linalg.norm(f[-1]),
                          np.linalg.norm(f[0]), 1e-9)
    mon.sig(*p.sig(), m, deriv)


def integrate(mon, rng, idx):
    """Against numerical integration of the differential equation."""
    p = gen.Problem(rng, initial=['ket', 'none'][idx % 2])
    s = p.schroedinger(exponential_method=gen.METHODS[idx % 3])
    y = p.params(scale=.5)
    s.set_optimization_parameters(y)
    hs = p.hams(p.amps(y))
    psi = p.start()
    for h, t in zip(hs, p.times()):
        n = int(np.ceil(np.linalg.norm(h) * t / .03)) + 1
        if n > 4000:
            return
        dt = t / n
        for _ in range(n):
            k1 = -1j * h @ psi
            k2 = -1j * h @ (psi + dt / 2 * k1)
            k3 = -1j * h @ (psi + dt / 2 * k2)
            k4 = -1j * h @ (psi + dt * k3)
            psi = psi + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    mon.close('differential_equation', dat(s.forward_propagators[-1]), psi,
              0, 1e-5, p.name())
    mon.sig('ode', *p.sig())


def wrong_setup(mon, rng, idx):
    """Inconsistent problems are refused."""
    p = gen.Problem(rng, d=int(rng.integers(2, 4)), tf=None, amp='none')
    y = p.params()
    exc = (ValueError, AssertionError, IndexError)
    n = p.n_x
    k = idx % 4
    if k == 0:
        mon.raises('refused', exc, p.schroedinger, h_drift=[
            ref.op(ref.herm(rng, p.d)) for _ in range(n + 2)])
    elif k == 1:
        mon.raises('refused', exc, p.schroedinger, h_drift=[
            ref.op(ref.herm(rng, p.d + 1))])
    else:
        s = p.schroedinger()
        bad = [np.ones((n + 1, p.n_ctrl)), np.ones((n, p.n_ctrl + 1)),
               np.ones(n)][int(rng.integers(3))]
        mon.raises('refused', exc, s.set_optimization_parameters, bad)
        s.set_optimization_parameters(y)
        compare(mon, p, s, y, 'after refused parameters')
    # the checks of consistency can be repeated and switched off
    s = p.schroedinger(h_drift=[ref.op(ref.herm(rng, p.d))
                                for _ in range(n)])
    for level in (0, 1, 2):
        s.consistency_checks(level)
    s.h_drift = s.h_drift + s.h_drift[:1] * 2
    s.consistency_checks(0)
    for level in (1, 2):
        mon.raises('inconsistency_found', exc, s.consistency_checks, level)
    mon.raises('needs_parameters', (ValueError, TypeError),
               lambda: p.schroedinger().propagators)
    mon.sig('refuse', k, p.d, n, p.n_ctrl)


def initial_amplitudes(mon, rng, idx):
    """Control amplitudes given to the constructor, without parameters."""
    from qopt.noise import NTGQuasiStatic
    from qopt.solver_algorithms import SchroedingerSMonteCarlo
    p = gen.Problem(rng)
    y = p.params()
    u = p.amps(y)
    deriv = bool(rng.random() < .5)
    kw = dict(ctrl_amps=u.copy(), calculate_propagator_derivatives=deriv)
    if idx % 3 == 0:
        h_noise = ref.herm(rng, p.d) / p.unit
        std = .3
        s = SchroedingerSMonteCarlo(**p.kwargs(
            h_noise=[ref.op(h_noise)], noise_trace_generator=NTGQuasiStatic(
                [std], n_samples_per_trace=p.n_x, n_traces=2,
                correct_std_for_discrete_sampling=False), **kw))
        # quantiles at 1/4 and 3/4
        q = std * .6744897501960817
        for k, n in enumerate((-q, q)):
            fwd = gen.solve([h + n * h_noise for h in p.hams(u)], p.times(),
                            p.start(), p.d)[1]
            mon.close('initial_amplitudes_noise',
                      dat(s.forward_propagators_noise[k]), np.array(fwd),
                      1e-8, 1e-8, p.name())
    else:
        s = p.schroedinger(**kw)
    mon.check('derivatives_offered', len(s.frechet_deriv_propagators)
              == p.n_ctrl, p.name())
    compare_u(mon, p, s, u, 'initial_amplitudes', p.name())
    y = p.params()
    s.set_optimization_parameters(y)
    compare_u(mon, p, s, p.amps(y), 'after_initial_amplitudes', p.name())
    mon.sig('initial', idx % 3, *p.sig())


def compare_u(mon, p, s, u, what, note):
    props, fwd, rev = p.solve(u, p.times())
    mon.close(what, dat(s.forward_propagators), np.array(fwd), 1e-9, 1e-9,
              note)
    mon.close(what, dat(s.reversed_propagators), np.array(rev), 1e-9, 1e-9,
              note)


WORKLOADS = dict(products=(products, 900, 12000),
                 integrate=(integrate, 160, 1500),
                 wrong_setup=(wrong_setup, 80, 600),
                 initial_amplitudes=(initial_amplitudes, 90, 1200))
REQUIRED = ['propagators', 'initial_amplitudes',
            'after_initial_amplitudes', 'initial_amplitudes_noise', 'forward_propagators', 'reversed_propagators',
            'unitary', 'non_hermitian', 'forward_backward_split', 'differential_equation',
            'inputs_unchanged', 'refused', 'inconsistency_found', 'needs_parameters']
