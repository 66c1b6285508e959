"""C07: derivatives of the propagators by the control amplitudes."""
import numpy as np

from . import gen, ref
from .ref import dat, fd_grad

PROPERTY = 'C07'
RULE = ('Random control problems (Schroedinger and Monte Carlo, every '
        'exponential method with exact derivative, GRAPE approximation), '
        'derivatives read before or after the propagators, on demand or '
        'always calculated; oracles: block matrix Frechet derivative of the '
        'generator per control and step, dt*(-i H_k)*P for GRAPE, and sixth '
        'order differences of the reference final propagator.')
ASSUMES = ['derivatives are taken by the control amplitudes, not by the '
           'optimization parameters']


def exact(mon, rng, idx):
    mc = idx % 2 == 1
    grape = idx % 5 == 4
    tfk = 'random' if rng.random() < .6 else None
    kind = dict(tf=tfk, nonherm=bool(rng.random() < .2))
    p = (gen.MonteCarloProblem if mc else gen.Problem)(rng, **kind)
    mon.event('non_hermitian', int(p.nonherm))
    m = gen.METHODS[rng.integers(3)]
    always = bool(rng.random() < .4) and not grape
    s = (p.monte_carlo if mc else p.schroedinger)(
        exponential_method=m, calculate_propagator_derivatives=always,
        frechet_deriv_approx_method='grape' if grape else None)
    note = f'{p.name()} {m} always={always} grape={grape}'
    mon.describe(problem=p.name(), method=m, grape=grape, monte_carlo=mc)
    a = p.amp_unit
    for rnd in range(2):
        y = p.params(rng)
        s.set_optimization_parameters(y.copy())
        for k in rng.permutation(4)[:int(rng.integers(0, 5))]:
            [lambda: s.propagators, lambda: s.forward_propagators,
             lambda: s.reversed_propagators,
             lambda: s.propagators_noise if mc else None][k]()
        u, t = p.amps(y), p.times()
        hs = p.hams(u)

        def want(hs):
            out = []
            for c in p.h_ctrl:
                row = []
                for h, dt in zip(hs, t):
                    if grape:
                        row.append(-1j * dt * c @ ref.expm(-1j * h * dt))
                    else:
                        row.append(ref.frechet(-1j * h * dt, -1j * c * dt))
                out.append(row)
            return np.array(out)
        name = 'grape' if grape else 'exact'
        if mc:
            got_n = dat(s.frechet_deriv_propagators_noise)
        # per unit of the control amplitudes
        mon.close(name, a * dat(s.frechet_deriv_propagators), a * want(hs),
                  1e-8, 1e-8, note)
        mon.close('propagators', dat(s.propagators),
                  np.array([ref.expm(-1j * h * dt) for h, dt in zip(hs, t)]),
                  1e-8, 1e-8, note)
        if mc:
            log = s.noise_trace_generator.log
            mon.check('noise_drawn', len(log) > 0)
            nh = p.noisy_hams(y, log[-1])
            mon.close(name + '_noise', a * got_n,
                      np.array([a * want(h) for h in nh]), 1e-8, 1e-8, note)
            mon.close('propagators_noise', dat(s.propagators_noise),
                      np.array([[ref.expm(-1j * g * dt) for g, dt in zip(
                          h, t)] for h in nh]), 1e-8, 1e-8,
                      note + ' same draw')
    mon.sig(*p.sig(), m, always, grape, mc)


def final(mon, rng, idx):
    """Chained to the final propagator against finite differences."""
    p = gen.Problem(rng, n_t=int(rng.integers(1, 4)), tf=None, amp='none',
                    d=int(rng.integers(1, 4)))
    s = p.schroedinger(exponential_method=gen.METHODS[idx % 3])
    y = p.params(rng)
    s.set_optimization_parameters(y)
    num = fd_grad(lambda u: p.solve(u, p.tau)[1][-1], y)
    d = s.frechet_deriv_propagators
    f, r = s.forward_propagators, s.reversed_propagators
    n = p.n_t
    for t in range(n):
        for k in range(p.n_ctrl):
            mon.close('final_propagator_derivative',
                      dat(r[n - 1 - t] * d[k][t] * f[t]), num[t, k], 1e-6,
                      1e-6, p.name())
    mon.sig('final', *p.sig())


def unknown(mon, rng, idx):
    p = gen.Problem(rng, tf=None)
    s = p.schroedinger(calculate_propagator_derivatives=False,
                       frechet_deriv_approx_method='foo')
    s.set_optimization_parameters(p.params(rng))
    mon.raises('unknown_method', (ValueError, NotImplementedError),
               lambda: s.frechet_deriv_propagators)
    mon.sig('unknown', *p.sig())


WORKLOADS = dict(exact=(exact, 900, 9000), final=(final, 200, 2500),
                 unknown=(unknown, 10, 50))
REQUIRED = ['exact', 'grape', 'exact_noise', 'grape_noise', 'propagators',
            'propagators_noise', 'final_propagator_derivative',
            'unknown_method', 'non_hermitian']
