"""C20: filter function infidelities and gradients are the leading order noise
infidelities of the current pulse."""
import numpy as np

from . import gen, ref
from .ref import op

PROPERTY = 'C20'
RULE = ('Random control problems (2-4 dimensions, 1-12 controls, drift '
        'lists, transfer and amplitude functions) with random noise '
        'operators, time and pulse dependent susceptibilities, identifiers '
        'in non alphabetic order, one or several spectra, given as list, as '
        'function or taken from the Monte Carlo solver. Values are compared '
        'with the filter function calculated from the toggling frame '
        'integral in closed form per step, gradients with differences of '
        'that value, quasi static noise with the exact average infidelity. '
        'Distinct by structure of the problem and of the noise.')
ASSUMES = ['traceless noise operators, non-degenerate Hamiltonians for '
           'gradients and traceless controls for qubit gradients (see the '
           'known findings)',
           'frequency integrals by the trapezoidal rule on the given '
           'frequencies']


def traceless(a):
    return a - np.trace(a) / len(a) * np.eye(len(a))


def toggling(hams, dts, b, s, w, d):
    """integral of U^dag(t) s(t) B U(t) exp(iwt), shape (n_w, d, d)"""
    r = np.zeros((len(w), d, d), complex)
    u = np.eye(d, dtype=complex)
    t = 0.
    for h, dt, sg in zip(hams, dts, s):
        e, v = np.linalg.eigh(h)
        x = 1j * (e[:, None] - e[None, :] + w[:, None, None]) * dt
        small = np.abs(x) < 1e-7
        f = np.where(small, 1 + x / 2,
                     np.expm1(np.where(small, 1, x)) / np.where(small, 1, x))
        seg = v @ ((v.conj().T @ b @ v) * f * dt) @ v.conj().T
        r += sg * np.exp(1j * w * t)[:, None, None] * (u.conj().T @ seg @ u)
        u = ref.expm(-1j * h * dt) @ u
        t += dt
    return r


def infidelity(hams, dts, b, s, spec, w, d, with_identity=False):
    r = toggling(hams, dts, b, s, w, d)
    f = np.sum(np.abs(r) ** 2, axis=(1, 2))
    if not with_identity:
        f = f - np.abs(np.trace(r, axis1=1, axis2=2)) ** 2 / d
    y = spec * f
    return float(np.sum((y[1:] + y[:-1]) * np.diff(w)) / 2) / 2 / np.pi / d


class Noise:
    """Noise operators with susceptibilities, possibly depending on the
    control amplitudes: s = a + b * u_c + c * u_c ** 2."""

    def __init__(self, rng, p, n_x, k, pulse_dep, traced=False):
        self.k = k
        self.ops = [ref.herm(rng, p.d, kind='full') for _ in range(k)]
        if not traced:
            self.ops = [traceless(o) for o in self.ops]
        self.a = rng.normal(size=(k, n_x))
        self.b = rng.normal(size=(k, p.n_ctrl, n_x)) * pulse_dep
        self.c = rng.normal(size=(k, p.n_ctrl, n_x)) * pulse_dep * .3
        names = [f'{c}{i}' for i, c in enumerate('zqaBN'[:k])]
        self.names = [names[i] for i in rng.permutation(k)]

    def sus(self, u):
        return self.a + np.einsum('ncx,xc->nx', self.b, u) + \
            np.einsum('ncx,xc->nx', self.c, u ** 2)

    def dsus(self, u):
        return self.b + 2 * self.c * u.T[None]

    def terms(self, u):
        return [[o, s, n] for o, s, n in zip(self.ops, self.sus(u),
                                             self.names)]


def spectra(rng, k):
    s0 = rng.uniform(.01, 1, size=k)
    ex = rng.uniform(0, 1.5, size=k)
    common = bool(rng.random() < .4)

    def f(w):
        s = s0[:, None] / np.asarray(w)[None] ** ex[:, None]
        return s[0] if common else s

    def per_term(w):
        s = f(w)
        return np.array([s] * k) if common else s
    return f, per_term, common


def frequencies(rng):
    n = int(rng.integers(20, 120))
    w = np.linspace(.05, 15, n) if rng.random() < .5 else \
        np.geomspace(.01, 30, n)
    return w


def problem(rng, gradient=False):
    d = int(rng.choice([2, 2, 3, 4]))
    p = gen.Problem(
        rng, d=d, tf='random' if rng.random() < .5 else None,
        amp='random' if rng.random() < .5 else None, initial='none',
        n_ctrl=12 if rng.random() < .08 else None,
        n_t=int(rng.integers(1, 5)), unit=1., amp_unit=1.)
    if d == 2 or rng.random() < .5:
        p.h_ctrl = [traceless(h) for h in p.h_ctrl]
    return p


def gap(hams):
    g = np.inf
    for h in hams:
        e = np.linalg.eigvalsh(h)
        g = min(g, np.min(np.diff(e)))
    return g


def reference(p, noise, y, per_term, w, **kw):
    u = p.amps(y)
    hams, t = p.hams(u), p.times()
    s, spec = noise.sus(u), per_term(w)
    return np.array([infidelity(hams, t, noise.ops[i], s[i], spec[i], w, p.d,
                                **kw) for i in range(noise.k)])


def build(rng, p, noise, mc=False):
    """Solver with the noise given as list or function."""
    kw = {}
    dep = np.any(noise.b) or np.any(noise.c)
    log = []
    if dep or rng.random() < .4:
        def h_n(opt_pars, transferred, amps):
            log.append((np.array(opt_pars), np.array(transferred),
                        np.array(amps)))
            return noise.terms(np.asarray(amps))
        kw['filter_function_h_n'] = h_n
    else:
        kw['filter_function_h_n'] = noise.terms(np.zeros((
            p.n_x, p.n_ctrl)))
    if dep:
        def deriv(opt_pars, transferred, amps):
            log.append((np.array(opt_pars), np.array(transferred),
                        np.array(amps)))
            return noise.dsus(np.asarray(amps))
        kw['filter_function_n_coeffs_deriv'] = deriv
    if rng.random() < .3:
        import filter_functions as ff
        if p.d == 2 and rng.random() < .5:
            kw['filter_function_basis'] = ff.Basis.pauli(1)
        elif p.d == 4 and rng.random() < .5:
            kw['filter_function_basis'] = ff.Basis.pauli(2)
        else:
            kw['filter_function_basis'] = ff.Basis.ggm(p.d)
    return p.schroedinger(**kw), kw, log


def seen(mon, log, p, y, note):
    for o, x, u in log:
        mon.close('arguments', o, y, 0, 0, note)
        mon.close('arguments', x, p.transferred(y), 1e-9, 1e-9, note)
        mon.close('arguments', u, p.amps(y), 1e-9, 1e-9, note)
    log.clear()


def values(mon, rng, idx):
    from qopt.cost_functions import OperatorFilterFunctionInfidelity
    p = problem(rng)
    noise = Noise(rng, p, p.n_x, int(rng.integers(1, 4)),
                  float(rng.random() < .4))
    s, kw, log = build(rng, p, noise)
    f, per_term, common = spectra(rng, noise.k)
    w = frequencies(rng)
    label = None if rng.random() < .5 else [f'l{i}' for i in range(noise.k)]
    c = OperatorFilterFunctionInfidelity(s, f, w, label) if label else \
        OperatorFilterFunctionInfidelity(s, f, w)
    mon.check('label', c.label == (label or ['Infidelity Filter Function']))
    note = f'{p.name()} {noise.names} common={common} {sorted(kw)}'
    mon.describe(problem=note)
    with mon.guard('inputs_unchanged', *noise.ops, *s.h_ctrl, *s.h_drift, w):
        for rnd in range(int(rng.integers(1, 4))):
            y = p.params(rng)
            s.set_optimization_parameters(y.copy())
            if rng.random() < .3:
                s.create_pulse_sequence()
            if rng.random() < .5:
                # the pulse sequence in a basis asked for
                import filter_functions as ff
                for _ in range(int(rng.integers(1, 3))):
                    b = ff.Basis.ggm(p.d)
                    if p.d in (2, 4) and rng.random() < .5:
                        b = ff.Basis.pauli(p.d // 2)
                    b = ff.Basis(np.asarray(b)[np.concatenate([
                        [0], 1 + rng.permutation(p.d ** 2 - 1)])])
                    q = s.create_pulse_sequence(ff_basis=b)
                    mon.check('given_basis', q.basis.shape == b.shape
                              and np.allclose(np.asarray(q.basis),
                                              np.asarray(b)), note)
            want = reference(p, noise, y, per_term, w)
            got = c.costs()
            mon.close('infidelity', got, want, 1e-7, 1e-12, note)
            mon.close('repeated', c.costs(), got, 1e-13, 0, note)
            seen(mon, log, p, y, note)
            if rng.random() < .3:
                # another observer at other frequencies in between
                w2 = frequencies(rng)
                c2 = OperatorFilterFunctionInfidelity(s, f, w2)
                mon.close('infidelity', c2.costs(), reference(
                    p, noise, y, per_term, w2), 1e-7, 1e-12, note)
                mon.close('infidelity', c.costs(), want, 1e-7, 1e-12, note)
    mon.sig(p.sig(), noise.names, common, sorted(kw))


def gradients(mon, rng, idx):
    from qopt.cost_functions import OperatorFilterFunctionInfidelity
    from qopt.simulator import Simulator
    for _ in range(50):
        p = problem(rng)
        if p.n_ctrl == 12 and p.n_t > 2:
            continue
        y = p.params(rng)
        if gap(p.hams(p.amps(y))) > .02:
            break
    else:
        return
    noise = Noise(rng, p, p.n_x, int(rng.integers(1, 4)),
                  float(rng.random() < .4))
    s, kw, log = build(rng, p, noise)
    f, per_term, common = spectra(rng, noise.k)
    w = frequencies(rng)[::3]
    c = OperatorFilterFunctionInfidelity(s, f, w)
    sim = Simulator(solvers=[s], cost_funcs=[c])
    note = f'{p.name()} {noise.names} common={common} {sorted(kw)}'
    mon.describe(problem=note)
    if rng.random() < .5:
        mon.close('value', sim.wrapped_cost_functions(y.copy()), reference(
            p, noise, y, per_term, w), 1e-7, 1e-12, note)
    g = sim.wrapped_jac_function(y.copy())
    fd, err = ref.fd_checked(
        lambda z: reference(p, noise, z, per_term, w), y)
    fd = fd.transpose(0, 2, 1)
    mon.check('gradient_shape', g.shape == (p.n_t, noise.k, y.shape[1]),
              f'{g.shape} {note}')
    scale = np.max(np.abs(fd)) + 1e-300
    if err > 1e-2 * scale:
        mon.event('difference_unreliable')
        return
    mon.close('gradient', g, fd, 1e-5, 2 * err + 1e-9, note)
    seen(mon, log, p, y, note)
    mon.sig('grad', p.sig(), noise.names, common, sorted(kw))


def monte_carlo(mon, rng, idx):
    """The noise of the Monte Carlo solver, and the exact average."""
    from qopt import cost_functions as cf, noise as qnoise
    from qopt.solver_algorithms import SchroedingerSMonteCarlo
    d = int(rng.integers(2, 5))
    n_t, n_c = int(rng.integers(1, 5)), int(rng.integers(1, 3))
    k = int(rng.integers(1, 4))
    tau = rng.uniform(.2, 1, size=n_t)
    drift = ref.herm(rng, d, kind='full')
    ctrl = [ref.herm(rng, d, kind='full') for _ in range(n_c)]
    ops = [traceless(ref.herm(rng, d, kind='full')) for _ in range(k)]
    sigma = 2e-4 / np.sum(tau)
    n = 3
    g = qnoise.NTGQuasiStatic([sigma] * k, n_t, n)
    s = SchroedingerSMonteCarlo(
        h_drift=[op(drift)], h_ctrl=[op(h) for h in ctrl], tau=tau.copy(),
        h_noise=[op(o) for o in ops], noise_trace_generator=g)
    y = rng.normal(size=(n_t, n_c))
    s.set_optimization_parameters(y.copy())
    hams = ref.hamiltonians([drift] * n_t, ctrl, y)
    w = frequencies(rng)
    s0 = rng.uniform(.1, 1)
    c = cf.OperatorFilterFunctionInfidelity(s, lambda x: s0 / x, w)
    note = f'd={d} n_t={n_t} k={k}'
    want = [infidelity(hams, tau, o, np.ones(n_t), s0 / w, w, d)
            for o in ops]
    mon.close('monte_carlo_noise', c.costs(), want, 1e-7, 1e-12, note)
    # quasi static: a narrow spectrum at zero frequency of total power
    # sigma ** 2
    width = 1e-4 / np.sum(tau)
    w = np.linspace(0, 8 * width, 400)
    dens = np.exp(-.5 * (w / width) ** 2)
    dens *= 2 * np.pi * sigma ** 2 / (
        np.sum(dens[1:] + dens[:-1]) / 2 * (w[1] - w[0]))
    c = cf.OperatorFilterFunctionInfidelity(s, lambda x: dens, w)
    u = np.eye(d)
    for h, dt in zip(hams, tau):
        u = ref.expm(-1j * h * dt) @ u
    target = op(u)
    exact = cf.OperationNoiseInfidelity(s, target).costs()
    # every trace realizes one of the k noise operators
    mon.close('exact_average', float(np.sum(c.costs())) / k,
              float(np.ravel(exact)[0]), 1e-2, 1e-13, note)
    mon.sig(note, n_c)


def automatic(mon, rng, idx):
    """Frequencies chosen automatically, and no noise."""
    from qopt.cost_functions import OperatorFilterFunctionInfidelity
    p = problem(rng)
    noise = Noise(rng, p, p.n_x, int(rng.integers(1, 3)), 0.)
    s, kw, log = build(rng, p, noise)
    f, per_term, common = spectra(rng, noise.k)
    y = p.params(rng)
    s.set_optimization_parameters(y)
    c = OperatorFilterFunctionInfidelity(s, f, None)
    got = c.costs()
    w = np.asarray(c.omega)
    mon.check('automatic_frequencies', w.ndim == 1 and len(w) == 200
              and np.all(np.diff(w) > 0) and w[0] > 0
              and w[0] < 2 * np.pi / np.sum(p.times()) < w[-1],
              f'{w[[0, -1]]}')
    mon.close('infidelity', got, reference(p, noise, y, per_term, w), 1e-7,
              1e-12)
    s = p.schroedinger()
    s.set_optimization_parameters(y)
    c = OperatorFilterFunctionInfidelity(s, lambda x: 1 / x, frequencies(
        rng))
    mon.close('no_noise', c.costs(), [0.], 0, 1e-14)
    for bad in ([[noise.ops[0], noise.a[0]]], [[noise.ops[0], noise.a[0],
                                                1]]):
        s = p.schroedinger(filter_function_h_n=bad)
        s.set_optimization_parameters(y)
        c = OperatorFilterFunctionInfidelity(s, lambda x: 1 / x, [1., 2.])
        mon.raises('malformed_refused', ValueError, c.costs)
    mon.sig('automatic', p.sig())


def known_limits(mon, rng, idx):
    """The three findings about the third-party filter function package."""
    from qopt.cost_functions import OperatorFilterFunctionInfidelity
    from qopt.solver_algorithms import SchroedingerSolver
    rng = np.random.default_rng(12345 + idx)
    d = 2 if idx % 2 == 0 else 3
    n_t, n_c = 3, 2
    tau = rng.uniform(.2, 1, size=n_t)
    drift = ref.herm(rng, d, kind='full')
    ctrl = [ref.herm(rng, d, kind='full') for _ in range(n_c)]
    oper = ref.herm(rng, d, kind='full')
    w = np.linspace(.05, 15, 60)
    spec = 1 / w

    def make(dr, ct, o):
        s = SchroedingerSolver(
            h_drift=[op(dr)], h_ctrl=[op(h) for h in ct], tau=tau.copy(),
            filter_function_h_n=[[o, np.ones(n_t), 'n']])
        return s, OperatorFilterFunctionInfidelity(s, lambda x: 1 / x, w)

    def val(y, dr, ct, o, **kw):
        return np.array([infidelity(ref.hamiltonians([dr] * n_t, ct, y),
                                    tau, o, np.ones(n_t), spec, w, d, **kw)])
    y = rng.normal(size=(n_t, n_c))
    s, c = make(drift, ctrl, oper)
    s.set_optimization_parameters(y)
    got, want = c.costs(), val(y, drift, ctrl, oper)
    full = val(y, drift, ctrl, oper, with_identity=True)
    mon.event('value_with_trace')
    if np.max(np.abs(got - want)) > 1e-7 * np.max(want):
        if np.max(np.abs(got - full)) < 1e-7 * np.max(full):
            mon.fail('identity_part_of_noise_operator_counted',
                     f'{got} instead of {want}')
        else:
            mon.fail('infidelity_traced', f'{got} instead of {want}')
    if d == 2:
        t = [traceless(h) for h in ctrl]
        for name, ct, o in (('control', ctrl, traceless(oper)),
                            ('noise', t, oper)):
            s, c = make(drift, ct, o)
            s.set_optimization_parameters(y)
            g = c.grad().transpose(0, 2, 1)
            fd, err = ref.fd_checked(
                lambda z: val(z, drift, ct, o, with_identity=True), y)
            mon.event('qubit_gradient_with_trace')
            if np.max(np.abs(g - fd)) > 1e-5 * np.max(np.abs(fd)) + 2 * err:
                mon.fail('qubit_gradient_with_traced_operators',
                         f'{name} {g} instead of {fd}')
    # all energies equal
    t = [traceless(h) for h in ctrl]
    z = np.zeros((d, d), complex)
    s, c = make(z, t, traceless(oper))
    y0 = np.zeros((n_t, n_c))
    s.set_optimization_parameters(y0)
    mon.close('degenerate_value', c.costs(), val(y0, z, t, traceless(oper)),
              1e-7, 1e-12)
    g = c.grad().transpose(0, 2, 1)
    fd, err = ref.fd_checked(lambda x: val(x, z, t, traceless(oper)), y0)
    mon.event('degenerate_gradient')
    if np.any(np.isnan(g)):
        mon.fail('gradient_nan_for_degenerate_hamiltonian', f'{g}')
    else:
        mon.close('gradient_degenerate', g, fd, 1e-5, 2 * err + 1e-9)
    mon.sig('known', idx)


WORKLOADS = dict(values=(values, 250, 3000), gradients=(gradients, 120, 1500),
                 monte_carlo=(monte_carlo, 80, 800),
                 automatic=(automatic, 40, 400),
                 known_limits=(known_limits, 2, 8))
REQUIRED = ['infidelity', 'repeated', 'arguments', 'gradient',
            'gradient_shape', 'monte_carlo_noise', 'exact_average',
            'automatic_frequencies', 'no_noise', 'malformed_refused',
            'value_with_trace', 'qubit_gradient_with_trace',
            'degenerate_gradient', 'degenerate_value']
