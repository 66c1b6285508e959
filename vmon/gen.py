"""Random control problems: a description from which qopt solvers and the
reference solution are built independently."""
import numpy as np

from . import ref, tfmodel
from .ref import op


class Problem:
    """Hamiltonian control problem.

    Attributes: d, n_t (parameter steps), tau, h_ctrl (arrays), drift_spec,
    tf/rtf, amp, n_par, u, du, y (n_t, n_tf).
    """

    def __init__(self, rng, d=None, n_t=None, n_ctrl=None, tf='random',
                 amp='random', drift=None, initial=None, equal=None,
                 scale=1., unit='random', nonherm=False,
                 amp_unit='random', special_pulses=True):
        self.rng = rng
        self.special_pulses = special_pulses
        # times in this unit, operators in its inverse: the results of the
        # problem do not depend on it
        if unit == 'random':
            unit = [1., 1., 1., 1e-9, 1e-12, 1e6, 1e14][rng.integers(7)]
        self.unit = unit
        # control amplitudes in this unit, control Hamiltonians in its
        # inverse
        if amp_unit == 'random':
            amp_unit = [1., 1., 1., 1e-9, 1e9][rng.integers(5)] \
                if amp == 'random' else 1.
        self.amp_unit = amp_unit
        # now and then something larger, in one of the three sizes
        big = rng.integers(3) if rng.random() < .08 else None
        self.d = d = d or int(rng.integers(5, 9) if big == 0 else
                              rng.integers(1, 5))
        self.n_t = n_t or int(rng.integers(8, 33) if big == 1 else
                              rng.integers(1, 6))
        self.n_ctrl = n_ctrl or int(rng.integers(4, 8) if big == 2 else
                                    rng.integers(1, 4))
        self.equal = bool(rng.random() < .6) if equal is None else equal
        if self.equal:
            self.tau = np.full(self.n_t, float(rng.uniform(.1, 1.)))
        else:
            self.tau = rng.uniform(.05, 1., size=self.n_t)
        self.tau = self.tau * unit
        self.nonherm = nonherm
        # how the generators are declared; the spectral method needs it
        self.skew = False if nonherm else [None, None, True, False][
            rng.integers(4)]
        self.h_ctrl = [self._ham(scale) / amp_unit
                       for _ in range(self.n_ctrl)]
        self.tf_seed = int(rng.integers(2 ** 31))
        self.amp_seed = int(rng.integers(2 ** 31))
        self.tf_kind = tf
        self.amp_kind = amp
        amp_f, self.n_par, self.u_of, self.du_of, self.amp_name = \
            self._amp()
        __, self.rtf = self._tf()
        self.x_times = self.rtf.times(self.tau)
        self.n_x = len(self.x_times)
        self.drift_kind = drift or ['op', 'one', 'list', 'none', 'list'][
            rng.integers(5)]
        n = self.n_x if self.drift_kind == 'list' else 1
        self.drift_ops = [self._ham(scale) for _ in range(n)]
        if self.drift_kind == 'none':
            self.drift_ops = []
        self.initial_kind = initial or ['none', 'ket', 'unitary', 'none'][
            rng.integers(4)]
        self.initial = {'none': None, 'ket': ref.ket(rng, d),
                        'unitary': ref.unitary(rng, d)}[self.initial_kind]

    def _ham(self, scale=1.):
        scale = scale / self.unit
        h = ref.herm(self.rng, self.d, scale)
        if self.nonherm:
            h = h + .05j * ref.herm(self.rng, self.d, scale)
        return h

    # -- building blocks; each call creates fresh qopt objects -------------
    def _tf(self):
        r = np.random.default_rng(self.tf_seed)
        if self.tf_kind is None:
            return None, tfmodel.RIdentity(self.n_par)
        kinds = None if self.tf_kind == 'random' else [self.tf_kind]
        return tfmodel.make(r, self.n_par, self.n_t, self.equal, kinds,
                            unit=self.unit)

    def _amp(self):
        r = np.random.default_rng(self.amp_seed)
        k = None if self.amp_kind == 'random' else (self.amp_kind or 'none')
        out = tfmodel.make_amp(r, self.n_ctrl, k)
        a = self.amp_unit
        if a == 1:
            return out
        from qopt.amplitude_functions import CustomAmpFunc
        __, n_par, u, du, name = out
        u, du = (lambda x, f=u: a * f(x)), (lambda x, f=du: a * f(x))
        return CustomAmpFunc(u, du), n_par, u, du, f'{name} * {a}'

    def qtf(self):
        return self._tf()[0]

    def qamp(self):
        return self._amp()[0]

    def qdrift(self):
        if self.drift_kind == 'op':
            return op(self.drift_ops[0])
        return [op(h) for h in self.drift_ops]

    def qctrl(self):
        return [op(h) for h in self.h_ctrl]

    def qinitial(self):
        return None if self.initial is None else op(self.initial)

    def drift(self, n):
        if self.drift_kind == 'none':
            return [np.zeros((self.d, self.d), complex)] * n
        if len(self.drift_ops) == 1:
            return self.drift_ops * n
        return self.drift_ops

    def params(self, rng=None, scale=1.):
        rng = rng or self.rng
        y = rng.normal(size=(self.n_t, self.rtf.n_ctrl)) * scale
        if self.special_pulses:
            y = special_pulse(rng, y)
        return ref.mem(rng, tame([self], y))

    def kwargs(self, **kw):
        out = dict(h_drift=self.qdrift(), h_ctrl=self.qctrl(),
                   tau=list(self.tau) if self.tf_seed % 8 == 0
                   else self.tau.copy(), initial_state=self.qinitial(),
                   transfer_function=self.qtf(),
                   amplitude_function=self.qamp())
        if self.skew is not None:
            out['is_skew_hermitian'] = self.skew
        out.update(kw)
        return out

    def schroedinger(self, **kw):
        from qopt.solver_algorithms import SchroedingerSolver
        return SchroedingerSolver(**self.kwargs(**kw))

    # -- reference ---------------------------------------------------------
    def transferred(self, y, tau=None):
        return self.rtf.apply(y, self.tau if tau is None else tau)

    def amps(self, y, tau=None):
        return self.u_of(self.transferred(y, tau))

    def times(self, tau=None):
        return self.rtf.times(self.tau if tau is None else tau)

    def hams(self, u):
        return ref.hamiltonians(self.drift(len(u)), self.h_ctrl, u)

    def start(self):
        return np.eye(self.d, dtype=complex) if self.initial is None \
            else self.initial

    def solve(self, u, times):
        """Propagators, forward and reversed products."""
        return solve(self.hams(u), times, self.start(), self.d)

    def name(self):
        return (f'd{self.d} t{self.n_t} c{self.n_ctrl} '
                f'{tfmodel.describe(self.rtf)} {self.amp_name} '
                f'drift-{self.drift_kind} init-{self.initial_kind} '
                f'skew-{self.skew} nonhermitian-{self.nonherm} '
                f'unit-{self.unit}')

    def sig(self):
        return (self.d, self.n_t, self.n_ctrl, tfmodel.describe(self.rtf),
                self.amp_name, self.drift_kind, self.initial_kind,
                self.unit)


def special_pulse(rng, y):
    """Now and then pulses with equal or vanishing entries."""
    y = y.copy()
    k = rng.integers(30)
    if k == 0:
        y[:] = y[0]
    elif k == 1:
        y[:] = 0
    elif k == 2:
        y[rng.random(y.shape) < .5] = 0
    elif k == 3:
        y[1:] = 0
    elif k == 4:
        y[:] = y[:, :1]
    elif k == 5:
        y = np.round(y)
    elif k == 6:
        y[-1] = -y[0]
    return y


def tame(problems, y):
    """Nested matrices and exponential amplitude functions can lead to
    evolutions which no method resolves in double precision."""
    for _ in range(20):
        xs = [p.transferred(y) for p in problems]
        if all(np.max(np.abs(x)) < 25 and np.max(np.abs(p.u_of(x)))
               < 15 * p.amp_unit for p, x in zip(problems, xs)):
            break
        y = .6 * y
    return y


def solve(hams, times, start, d):
    props = [ref.expm(-1j * h * t) for h, t in zip(hams, times)]
    return products(props, start, d)


def products(props, start, d):
    fwd = [np.array(start)]
    for p in props:
        fwd.append(p @ fwd[-1])
    rev = [np.eye(d, dtype=complex)]
    for p in props[::-1]:
        rev.append(rev[-1] @ p)
    return props, fwd, rev


METHODS = [None, 'Frechet', 'spectral']


class LindbladProblem(Problem):
    """Adds dissipators, given in one of the documented three ways."""

    def __init__(self, rng, way=None, prefactor=None, d=None, **kw):
        kw.setdefault('initial', 'none')
        init = kw.pop('initial')
        super().__init__(rng, d=d or int(rng.integers(1, 4)),
                         initial='none', **kw)
        # dissipative generators are not skew hermitian
        self.skew = None if self.skew else self.skew
        d = self.d
        self.n_l = int(rng.integers(1, 4))
        self.l_ops = []
        for _ in range(self.n_l):
            k = rng.integers(4)
            if k == 0:
                l = ref.cplx(rng, d, d)
            elif k == 1:
                l = ref.herm(rng, d)
            elif k == 2:
                l = np.zeros((d, d), complex)
                l[rng.integers(d), rng.integers(d)] = 1
            else:
                l = np.triu(ref.cplx(rng, d, d), 1 if d > 1 else 0)
            self.l_ops.append(l * float(rng.uniform(.1, .8))
                              / np.sqrt(self.unit))
        self.way = way or int(rng.integers(1, 4))
        # 0: none, 1: depends on controls, 2: also on transferred parameters
        if prefactor is None:
            prefactor = int(rng.integers(3))
        self.prefactor = 1 if self.way == 3 and prefactor == 0 else prefactor
        self.g = rng.normal(size=(self.n_l, self.n_ctrl)) * .5 \
            / self.amp_unit
        self.hx = rng.normal(size=(self.n_l, self.n_par)) * .5
        self.c = rng.uniform(.1, .5, size=self.n_l)
        self.super_initial = None
        self.initial_kind = init if init != 'random' else [
            'none', 'vec', 'none'][rng.integers(3)]
        if self.initial_kind == 'vec':
            self.super_initial = ref.vec(ref.rho(rng, d))
        self.dissipators = [ref.dissipator_super(l) for l in self.l_ops]
        self.calls = []

    # weights a (num_t, num_l) and derivatives (num_t, num_ctrl, num_l)
    def weights(self, u, x):
        if self.prefactor == 0:
            return np.ones((len(u), self.n_l))
        a = (np.asarray(u) @ self.g.T) ** 2
        if self.prefactor == 2:
            b = (np.asarray(x) @ self.hx.T) ** 2
            a = a * (1 + np.tanh(b)) + b
        return self.c + a

    def dweights(self, u, x):
        # at fixed transferred parameters
        a = np.asarray(u) @ self.g.T
        if self.prefactor == 2:
            a = a * (1 + np.tanh((np.asarray(x) @ self.hx.T) ** 2))
        return 2 * np.einsum('tl,lk->tkl', a, self.g)

    def qinitial(self):
        return None if self.super_initial is None else op(self.super_initial)

    def lindblad(self, with_derivative=True, **kw):
        from qopt.solver_algorithms import LindbladSolver
        a = {}
        if self.way == 1:
            a['initial_diss_super_op'] = [op(x) for x in self.dissipators]
        elif self.way == 2:
            a['lindblad_operators'] = [op(x) for x in self.l_ops]
        if self.way in (1, 2) and self.prefactor:
            a['prefactor_function'] = self.weights
            if with_derivative:
                a['prefactor_derivative_function'] = self.dweights
        if self.way == 3:
            def sup(u, x):
                w = self.weights(u, x)
                return [op(sum(w[t, l] * s for l, s in enumerate(
                    self.dissipators))) for t in range(len(u))]

            def dsup(u, x):
                w = self.dweights(u, x)
                return [[op(sum(w[t, k, l] * s for l, s in enumerate(
                    self.dissipators))) for k in range(self.n_ctrl)]
                    for t in range(len(u))]
            a['super_operator_function'] = sup
            if with_derivative:
                a['super_operator_derivative_function'] = dsup
        a.update(kw)
        return LindbladSolver(**self.kwargs(**a))

    def start(self):
        return np.eye(self.d ** 2, dtype=complex) \
            if self.super_initial is None else self.super_initial

    def generators(self, u, x):
        w = self.weights(u, x)
        return [ref.hamiltonian_super(h) + sum(
            w[t, l] * s for l, s in enumerate(self.dissipators))
            for t, h in enumerate(self.hams(u))]

    def directions(self, u, x):
        """[t][ctrl] derivative of the generator by the amplitude."""
        w = self.dweights(u, x) if self.prefactor else np.zeros(
            (len(u), self.n_ctrl, self.n_l))
        hs = [ref.hamiltonian_super(h) for h in self.h_ctrl]
        return [[hs[k] + sum(w[t, k, l] * s for l, s in enumerate(
            self.dissipators)) for k in range(self.n_ctrl)]
            for t in range(len(u))]

    def solve_y(self, y, tau=None):
        x = self.transferred(y, tau)
        g = self.generators(self.u_of(x), x)
        props = [ref.expm(a * t) for a, t in zip(g, self.times(tau))]
        return products(props, self.start(), self.d ** 2)

    def name(self):
        return super().name() + f' way{self.way} pre{self.prefactor}'

    def sig(self):
        return super().sig() + (self.way, self.prefactor, self.n_l)


def recorded_noise(n_samples, n_traces, n_ops, seed, always_redraw=False,
                   scale=.3):
    """A noise trace generator whose draws are logged."""
    from qopt.noise import NoiseTraceGenerator

    class RecordedNoise(NoiseTraceGenerator):
        def __init__(self):
            super().__init__(n_samples_per_trace=n_samples,
                             always_redraw_samples=always_redraw,
                             n_traces=n_traces, n_noise_operators=n_ops)
            self.rng = np.random.default_rng(seed)
            self.log = []

        def _sample_noise(self):
            self._noise_samples = self.rng.normal(
                size=(n_ops, n_traces, n_samples)) * scale
            self.log.append(self._noise_samples.copy())
    return RecordedNoise()


def recorded_builtin(kind, n_samples, n_traces, n_ops, seed, always_redraw):
    """The generators of qopt with logged draws. 'deterministic' and
    'monte_carlo' are the sampling modes of the quasi static generator."""
    from qopt.noise import NTGColoredNoise, NTGQuasiStatic
    rng = np.random.default_rng(seed)
    base = NTGColoredNoise if kind == 'colored' else NTGQuasiStatic

    class Recorded(base):
        log = ()

        def _sample_noise(self):
            np.random.seed(int(rng.integers(2 ** 31)))
            super()._sample_noise()
            self.log = list(self.log) + [self._noise_samples.copy()]
    if kind == 'colored':
        a, e = rng.uniform(.005, .05), rng.uniform(.5, 1.5)
        return Recorded(
            n_samples_per_trace=n_samples, n_traces=n_traces,
            n_noise_operators=n_ops, always_redraw_samples=always_redraw,
            dt=1., noise_spectral_density=lambda f: a / (f + .05) ** e,
            low_frequency_extension_ratio=int(rng.integers(1, 4)))
    std = list(rng.uniform(.1, .4, size=n_ops))
    det = kind == 'deterministic'
    return Recorded(
        std, n_samples, n_traces=n_traces,
        always_redraw_samples=always_redraw,
        correct_std_for_discrete_sampling=bool(
            n_traces > 1 and rng.random() < .7),
        sampling_mode='uncorrelated_deterministic' if det else kind)


class MonteCarloProblem(Problem):

    def __init__(self, rng, always_redraw=None, naf=None, **kw):
        super().__init__(rng, **kw)
        self.n_noise = int(rng.integers(1, 4))
        self.n_traces = int(rng.integers(1, 5) if rng.random() < .95 else
                            rng.integers(5, 26))
        self.h_noise = [self._ham() for _ in range(self.n_noise)]
        self.noise_seed = int(rng.integers(2 ** 31))
        self.noise_scale = [.3, .3, .3, 3e-6][rng.integers(4)]
        # the generator: a stub of the harness or one of qopt
        self.noise_kind = ['stub', 'stub', 'deterministic', 'monte_carlo',
                           'colored'][rng.integers(5)]
        self.draws = self.n_traces
        if self.noise_kind == 'deterministic':
            self.n_traces *= self.n_noise
        self.always_redraw = bool(rng.random() < .4) \
            if always_redraw is None else always_redraw
        self.naf = naf if naf is not None else int(rng.integers(3))
        self.nw = rng.normal(size=(self.n_noise, self.n_ctrl)) * .5 \
            / self.amp_unit
        self.nx = rng.normal(size=(self.n_noise, self.n_par)) * .5

    def naf_values(self, n, x, u, y):
        """noise amplitudes (num_t, traces, ops) from samples in the same
        layout."""
        if self.naf == 0:
            return n
        f = 1 + u @ self.nw.T
        if self.naf == 2:
            f = f + x @ self.nx.T + .1 * float(np.sum(y))
        return n * f[:, None, :]

    def generator(self):
        if self.noise_kind == 'stub':
            return recorded_noise(self.n_x, self.n_traces, self.n_noise,
                                  self.noise_seed, self.always_redraw,
                                  self.noise_scale)
        return recorded_builtin(self.noise_kind, self.n_x, self.draws,
                                self.n_noise, self.noise_seed,
                                self.always_redraw)

    def monte_carlo(self, **kw):
        from qopt.solver_algorithms import SchroedingerSMonteCarlo
        a = dict(h_noise=[op(h) for h in self.h_noise],
                 noise_trace_generator=self.generator())
        if self.naf:
            def f(noise_samples, optimization_parameters,
                  transferred_parameters, control_amplitudes):
                return self.naf_values(
                    noise_samples, transferred_parameters,
                    control_amplitudes, optimization_parameters)
            a['noise_amplitude_function'] = f
        a.update(kw)
        return SchroedingerSMonteCarlo(**self.kwargs(**a))

    def noisy_hams(self, y, samples):
        """[trace][t] for samples of shape (ops, traces, t)."""
        x = self.transferred(y)
        u = self.u_of(x)
        n = self.naf_values(np.transpose(samples, (2, 1, 0)), x, u, y)
        hs = self.hams(u)
        return [[hs[t] + sum(n[t, k, o] * h for o, h in enumerate(
            self.h_noise)) for t in range(len(hs))]
            for k in range(self.n_traces)]

    def name(self):
        return super().name() + (f' traces{self.n_traces} '
                                 f'ops{self.n_noise} naf{self.naf} '
                                 f'redraw{self.always_redraw} '
                                 f'{self.noise_kind}')

    def sig(self):
        return super().sig() + (self.n_traces, self.n_noise, self.naf,
                                self.always_redraw, self.noise_kind)


class ControlNoiseProblem(MonteCarloProblem):
    """Noise on the transferred parameters."""

    def __init__(self, rng, **kw):
        super().__init__(rng, naf=0, **kw)
        self.n_noise = self.n_par
        self.n_traces = self.draws
        if self.noise_kind == 'deterministic':
            self.n_traces *= self.n_noise

    def monte_carlo(self, **kw):
        from qopt.solver_algorithms import SchroedingerSMCControlNoise
        return SchroedingerSMCControlNoise(**self.kwargs(**{
            'noise_trace_generator': self.generator(), **kw}))

    def noisy_hams(self, y, samples):
        x = self.transferred(y)
        n = np.transpose(samples, (1, 2, 0))
        return [self.hams(self.u_of(x + n[k])) for k in range(self.n_traces)]

    def name(self):
        return super().name() + ' control noise'
