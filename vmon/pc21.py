"""C21: leakage measures are the population lost from the computational
states."""
import numpy as np

from . import gen, ref
from .ref import op

PROPERTY = 'C21'
RULE = ('Random unitary, noisy and dissipative control problems (1-5 '
        'dimensions, initial unitaries, transfer and amplitude functions) '
        'and random sets of computational states in random order. The '
        'leakage is recomputed by evolving every computational basis state '
        'and summing the populations outside. Distinct by structure, number '
        'of computational states and measure.')
ASSUMES = ['the evolution starts from an operator, not from a state']


def states(rng, d):
    n = int(rng.integers(1, d + 1))
    s = [int(v) for v in rng.permutation(d)[:n]]
    return s if rng.random() < .5 else sorted(s)


def lost(apply, comp, d):
    """Mean population outside; apply maps a density matrix."""
    leak = [i for i in range(d) if i not in comp]
    tot = 0.
    for c in comp:
        r = np.zeros((d, d), complex)
        r[c, c] = 1
        o = apply(r)
        tot += sum(o[x, x].real for x in leak)
    return tot / len(comp)


def by_unitary(u):
    return lambda r: u @ r @ u.conj().T


def coherent(mon, rng, idx):
    from qopt import cost_functions as cf
    d = int(rng.integers(1, 6))
    p = gen.Problem(rng, d=d, initial=['none', 'unitary'][rng.integers(2)],
                    tf='random' if rng.random() < .5 else None)
    comp = states(rng, d)
    s = p.schroedinger(exponential_method=gen.METHODS[rng.integers(3)])
    a = cf.LeakageError(s, list(comp))
    b = cf.LeakageLiouville(s, list(comp), input_unitary=True,
                            verbose=int(rng.integers(2)))
    note = f'{p.name()} comp={comp}'
    mon.describe(problem=note)
    mon.check('labels', a.label == ['Leakage Error']
              and b.label == ['Leakage Error Lindblad'], note)
    with mon.guard('inputs_unchanged', *s.h_ctrl, *s.h_drift):
        for rnd in range(int(rng.integers(1, 4))):
            y = p.params(rng)
            s.set_optimization_parameters(y.copy())
            u = p.solve(p.amps(y), p.times())[1][-1]
            want = lost(by_unitary(u), comp, d)
            order = rng.permutation(3)
            for o in order:
                if o == 0:
                    got = a.costs()
                    mon.close('coherent', got, want, 1e-8, 1e-9, note)
                    mon.check('coherent_range', -1e-9 <= got <= 1 + 1e-9,
                              note)
                elif o == 1:
                    mon.close('liouville_of_unitary', np.ravel(b.costs()),
                              [want], 1e-8, 1e-9, note)
                else:
                    mon.close('propagators_unchanged',
                              s.forward_propagators[-1].data, u, 1e-8, 1e-9,
                              note)
    if len(comp) == d:
        mon.close('no_leakage_states', a.costs(), 0., 0, 1e-9, note)
    mon.sig('coherent', p.sig(), len(comp), comp == sorted(comp))


def gradient(mon, rng, idx):
    from qopt import cost_functions as cf
    from qopt.simulator import Simulator
    d = int(rng.integers(2, 5))
    p = gen.Problem(rng, d=d, initial=['none', 'unitary'][rng.integers(2)],
                    n_t=int(rng.integers(1, 4)))
    comp = states(rng, d)
    s = p.schroedinger(exponential_method=gen.METHODS[rng.integers(3)],
                       calculate_propagator_derivatives=bool(
                           rng.random() < .4))
    c = cf.LeakageError(s, list(comp))
    sim = Simulator(solvers=[s], cost_funcs=[c])
    note = f'{p.name()} comp={comp}'
    mon.describe(problem=note)

    def value(z):
        return lost(by_unitary(p.solve(p.amps(z), p.times())[1][-1]), comp,
                    d)
    for rnd in range(int(rng.integers(1, 3))):
        y = p.params(rng)
        g = sim.wrapped_jac_function(y.copy())
        fd, err = ref.fd_checked(value, y)
        mon.check('gradient_shape', g.shape == (y.shape[0], 1, y.shape[1]),
                  note)
        if err > 1e-2 * (np.max(np.abs(fd)) + 1e-6):
            mon.event('difference_unreliable')
            continue
        mon.close('gradient', g[:, 0], fd, 1e-5, 2 * err + 1e-8, note)
    mon.sig('gradient', p.sig(), len(comp))


def noisy(mon, rng, idx):
    from qopt import cost_functions as cf
    d = int(rng.integers(1, 5))
    p = gen.MonteCarloProblem(rng, d=d, tf='random' if rng.random() < .5
                              else None,
                              initial=['none', 'unitary'][rng.integers(2)],
                              always_redraw=False)
    comp = states(rng, d)
    s = p.monte_carlo(exponential_method=gen.METHODS[rng.integers(3)])
    a = cf.IncoherentLeakageError(s, list(comp))
    b = cf.LeakageLiouville(s, list(comp), input_unitary=True,
                            monte_carlo=True)
    c = cf.LeakageError(s, list(comp))
    note = f'{p.name()} comp={comp}'
    mon.describe(problem=note)
    for rnd in range(int(rng.integers(1, 3))):
        y = p.params(rng)
        s.set_optimization_parameters(y.copy())
        for o in rng.permutation(3):
            [a.costs, b.costs, c.costs][o]()
        smp = s.noise_trace_generator.log[-1]
        fin = [gen.solve(h, p.times(), p.start(), d)[1][-1]
               for h in p.noisy_hams(y, smp)]
        want = np.mean([lost(by_unitary(u), comp, d) for u in fin])
        mon.close('incoherent', a.costs(), want, 1e-8, 1e-9, note)
        mon.close('liouville_average', np.ravel(b.costs()), [want], 1e-8,
                  1e-9, note)
        u = p.solve(p.amps(y), p.times())[1][-1]
        mon.close('coherent_part', c.costs(), lost(by_unitary(u), comp, d),
                  1e-8, 1e-9, note)
        from .ref import dat
        mon.close('propagators_unchanged',
                  dat([x[-1] for x in s.forward_propagators_noise]),
                  np.array(fin), 1e-8, 1e-8, note)
    mon.raises('no_gradient', NotImplementedError, a.grad)
    mon.raises('no_gradient', NotImplementedError, b.grad)
    mon.sig('noisy', p.sig(), len(comp))


def dissipative(mon, rng, idx):
    from qopt import cost_functions as cf
    p = gen.LindbladProblem(rng, d=int(rng.integers(1, 5)),
                            n_t=int(rng.integers(1, 4)))
    comp = states(rng, p.d)
    s = p.lindblad(exponential_method=gen.METHODS[rng.integers(2)])
    c = cf.LeakageLiouville(s, list(comp))
    note = f'{p.name()} comp={comp}'
    mon.describe(problem=note)
    for rnd in range(int(rng.integers(1, 3))):
        y = p.params(rng)
        s.set_optimization_parameters(y.copy())
        sup = p.solve_y(y)[1][-1]
        want = lost(lambda r: ref.unvec(sup @ ref.vec(r)), comp, p.d)
        mon.close('dissipative', np.ravel(c.costs()), [want], 1e-7, 1e-8,
                  note)
        mon.check('dissipative_range', -1e-8 <= c.costs()[0] <= 1 + 1e-8,
                  note)
    mon.sig('dissipative', p.sig(), len(comp))


class Stub:
    """A solver as seen by the leakage cost: given noisy channels."""

    def __init__(self, d, channels):
        self.h_ctrl = [op(np.eye(d))]
        self.forward_propagators_noise = [[op(np.eye(d ** 2)), op(c)]
                                          for c in channels]


def noisy_channels(mon, rng, idx):
    """Average over superoperators of several traces."""
    from qopt import cost_functions as cf
    d = int(rng.integers(1, 4))
    n = int(rng.integers(1, 5))
    comp = states(rng, d)
    chans = []
    for _ in range(n):
        p = gen.LindbladProblem(rng, d=d, n_t=2)
        chans.append(p.solve_y(p.params(rng))[1][-1])
    s = Stub(d, chans)
    c = cf.LeakageLiouville(s, list(comp), monte_carlo=True)
    want = np.mean([lost(lambda r: ref.unvec(x @ ref.vec(r)), comp, d)
                    for x in chans])
    mon.close('average_of_channels', np.ravel(c.costs()), [want], 1e-7, 1e-8)
    mon.close('average_of_channels', np.ravel(c.costs()), [want], 1e-7, 1e-8)
    mon.check('channels_unchanged', all(np.array_equal(
        a[-1].data, b) for a, b in zip(s.forward_propagators_noise, chans)))
    mon.sig('channels', d, n, len(comp))


WORKLOADS = dict(coherent=(coherent, 250, 3000),
                 gradient=(gradient, 120, 1500),
                 noisy=(noisy, 150, 1500),
                 dissipative=(dissipative, 120, 1200),
                 noisy_channels=(noisy_channels, 60, 500))
REQUIRED = ['coherent', 'liouville_of_unitary', 'gradient', 'incoherent',
            'liouville_average', 'coherent_part', 'dissipative',
            'average_of_channels', 'no_leakage_states', 'no_gradient']
