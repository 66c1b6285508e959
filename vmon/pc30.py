"""C30: equivalent descriptions of the same physics give the same results."""
import copy

import numpy as np

from . import gen, ref
from .ref import op

PROPERTY = 'C30'
RULE = ('Random physical set-ups (2-4 levels, drift per step, controls, noise '
        'traces, Lindblad operators, spectral densities, targets, '
        'computational states) are evaluated with every kind of solver and '
        'cost function; then the same physics is described differently '
        '(another basis, order of states or controls, units of time, units '
        'and linear combinations of controls, subdivided time steps, '
        'oversampling or amplitude function instead of more steps or other '
        'operators, shifted energies, drift as control, idle subsystems, '
        'order of traces, mixed Lindblad operators, complex conjugation, '
        'time reversal) and the costs and the gradients mapped back have to '
        'agree. Different solvers and cost functions have to agree where '
        'they describe the same quantity. No reference model is used.')
ASSUMES = ['traceless noise and control operators for filter functions (see '
           'the known findings)',
           'projections which are mapped to the closest unitary or rescaled '
           'have full rank']


def traceless(a):
    return a - np.trace(a) / len(a) * np.eye(len(a))


class World:
    """The description of one physical set-up."""

    def __init__(self, rng, d=None, n_t=None):
        self.d = d = d or int(rng.integers(2, 5))
        n_c = int(rng.integers(1, 4))
        self.over, self.amp = 1, None
        n_t = n_t or int(rng.integers(1, 5))
        if rng.random() < .3:
            self.over = int(rng.integers(2, 4))
        n_x = n_t * self.over
        self.tau = rng.uniform(.2, 1, size=n_t)
        self.drift = np.array([traceless(ref.herm(rng, d, kind='full'))
                               for _ in range(n_x)])
        n_p = n_c
        if rng.random() < .3:
            n_p = int(rng.integers(1, 4))
            self.amp = rng.normal(size=(n_p, n_c))
        self.ctrl = np.array([traceless(ref.herm(rng, d, kind='full'))
                              for _ in range(n_c)])
        self.y = rng.normal(size=(n_t, n_p))
        k = int(rng.integers(1, 3))
        self.noise = np.array([ref.herm(rng, d, kind='full')
                               for _ in range(k)])
        self.smp = rng.normal(size=(k, int(rng.integers(1, 4)), n_x)) * .2
        self.lind = [.4 * ref.cplx(rng, d, d)
                     for _ in range(int(rng.integers(1, 3)))]
        self.sub = None
        if rng.random() < .6:
            self.sub = [int(x) for x in rng.permutation(d)[
                :int(rng.integers(1, d + 1))]]
        m = d if self.sub is None else len(self.sub)
        self.tgt = ref.unitary(rng, m)
        self.full = ref.unitary(rng, d)
        self.psi, self.psit = ref.ket(rng, d), ref.ket(rng, d)
        self.psis = ref.ket(rng, m)
        q = int(rng.integers(1, 3))
        self.ffn = np.array([traceless(ref.herm(rng, d, kind='full'))
                             for _ in range(q)])
        self.sus = rng.normal(size=(q, n_x))
        self.w = np.geomspace(.1, 20, int(rng.integers(10, 40)))
        self.s = rng.uniform(.1, 1, size=(q, 1)) / self.w ** rng.uniform(
            0, 1.5, size=(q, 1))
        # what remains comparable
        self.skip = set()

    def copy(self):
        return copy.deepcopy(self)

    @property
    def n_x(self):
        return len(self.tau) * self.over


def ops(xs):
    return [op(np.array(x, dtype=complex)) for x in xs]


def generator(w):
    from qopt.noise import NoiseTraceGenerator

    class Given(NoiseTraceGenerator):
        def _sample_noise(self):
            self._noise_samples = w.smp.copy()
    return Given(n_samples_per_trace=w.n_x, n_traces=w.smp.shape[1],
                 n_noise_operators=w.smp.shape[0],
                 always_redraw_samples=False)


def kwargs(w, rng, **kw):
    from qopt.amplitude_functions import CustomAmpFunc
    from qopt.transfer_function import OversamplingTF
    drift = w.drift
    if all(np.array_equal(drift[0], x) for x in drift) and rng.random() < .7:
        drift = drift[:1]
    kw.update(h_drift=ops(drift), h_ctrl=ops(w.ctrl), tau=w.tau.copy())
    if w.over > 1:
        kw['transfer_function'] = OversamplingTF(
            num_ctrls=w.y.shape[1], oversampling=w.over)
    if w.amp is not None:
        a = w.amp
        kw['amplitude_function'] = CustomAmpFunc(
            lambda x: x @ a, lambda x: np.repeat(a[None], len(x), 0))
    if rng.random() < .3:
        kw['calculate_propagator_derivatives'] = True
    return kw


def method(rng):
    return gen.METHODS[rng.integers(3)]


def evaluate(w, rng, only=None):
    """name -> (cost, gradient by y or None)"""
    from qopt import cost_functions as cf
    from qopt import solver_algorithms as sa
    from qopt.simulator import Simulator
    out = {}

    def run(names, solver, costs, grad):
        names = [n for n in names]
        todo = [i for i, n in enumerate(names) if n not in w.skip and (
            only is None or n in only)]
        if not todo:
            return
        todo = [todo[i] for i in rng.permutation(len(todo))]
        s = solver()
        sim = Simulator(solvers=[s], cost_funcs=[costs[i](s) for i in todo])
        first = bool(rng.random() < .5) and grad
        if first:
            j = sim.wrapped_jac_function(w.y.copy())
        c = sim.wrapped_cost_functions(w.y.copy())
        if grad and not first:
            j = sim.wrapped_jac_function(w.y.copy())
        n = len(c) // len(todo)
        for k, i in enumerate(todo):
            out[names[i]] = (c[k * n:(k + 1) * n],
                             j[:, k * n:(k + 1) * n] if grad else None)
    sub = w.sub
    run(['operation', 'operation_full', 'closest', 'leakage'],
        lambda: sa.SchroedingerSolver(
            exponential_method=method(rng), **kwargs(w, rng)),
        [lambda s: cf.OperationInfidelity(s, op(w.tgt),
                                          computational_states=sub),
         lambda s: cf.OperationInfidelity(s, op(w.full)),
         lambda s: cf.OperationInfidelity(
             s, op(w.tgt), computational_states=sub,
             map_to_closest_unitary=sub is not None),
         lambda s: cf.LeakageError(s, computational_states=sub or list(
             range(w.d)))], True)
    run(['liouville_leakage'],
        lambda: sa.SchroedingerSolver(
            exponential_method=method(rng), **kwargs(w, rng)),
        [lambda s: cf.LeakageLiouville(
            s, sub or list(range(w.d)), input_unitary=True)], False)
    run(['state', 'state_sub'],
        lambda: sa.SchroedingerSolver(
            exponential_method=method(rng), initial_state=op(w.psi.copy()),
            **kwargs(w, rng)),
        [lambda s: cf.StateInfidelity(s, op(w.psit.conj().T)),
         lambda s: cf.StateInfidelity(
             s, op(w.psis.conj().T), computational_states=sub,
             rescale_propagated_state=sub is not None)], True)

    def mc(**kw):
        return sa.SchroedingerSMonteCarlo(
            exponential_method=method(rng), h_noise=ops(w.noise),
            noise_trace_generator=generator(w), **kwargs(w, rng, **kw))
    run(['noise', 'noise_closest', 'noise_relative'], mc,
        [lambda s: cf.OperationNoiseInfidelity(
            s, op(w.tgt), computational_states=sub,
            neglect_systematic_errors=False),
         lambda s: cf.OperationNoiseInfidelity(
             s, op(w.tgt), computational_states=sub,
             map_to_closest_unitary=sub is not None,
             neglect_systematic_errors=False),
         lambda s: cf.OperationNoiseInfidelity(
             s, op(w.tgt), computational_states=sub,
             map_to_closest_unitary=sub is not None)], True)
    run(['incoherent_leakage', 'liouville_noise', 'noise_leakage'], mc,
        [lambda s: cf.IncoherentLeakageError(s, sub or list(range(w.d))),
         lambda s: cf.LiouvilleMonteCarloEntanglementInfidelity(
             s, op(w.tgt), computational_states=sub),
         lambda s: cf.LeakageLiouville(
             s, sub or list(range(w.d)), input_unitary=True,
             monte_carlo=True)], False)
    run(['state_noise'], lambda: mc(initial_state=op(w.psi.copy())),
        [lambda s: cf.StateNoiseInfidelity(
            s, op(w.psit.conj().T), neglect_systematic_errors=False)], False)

    def lindblad():
        return sa.LindbladSolver(
            exponential_method=gen.METHODS[rng.integers(2)],
            lindblad_operators=ops(w.lind), **{
                k: v for k, v in kwargs(w, rng).items()
                if k != 'calculate_propagator_derivatives'})
    run(['channel'], lindblad,
        [lambda s: cf.OperationInfidelity(
            s, op(w.tgt), computational_states=sub,
            super_operator_formalism=True)], True)
    run(['channel_leakage'], lindblad,
        [lambda s: cf.LeakageLiouville(s, sub or list(range(w.d)))], False)

    def spectrum(x):
        assert np.allclose(x, w.w)
        return w.s.copy()
    names = ['b', 'a'] if rng.random() < .5 else ['a', 'b']

    def filtered():
        return sa.SchroedingerSolver(
            exponential_method=method(rng), filter_function_h_n=[
                [o.copy(), s.copy(), names[i]] for i, (o, s) in enumerate(
                    zip(w.ffn, w.sus))], **kwargs(w, rng))
    ff = [lambda s: cf.OperatorFilterFunctionInfidelity(
        s, spectrum, w.w.copy())]
    run(['filter'], filtered, ff, True)
    run(['filter_value'], filtered, ff, False)
    return out


def regular(w):
    """Costs which are not differentiable at this point are skipped."""
    x = np.repeat(w.y, w.over, 0)
    u = x if w.amp is None else x @ w.amp
    h = w.drift + np.einsum('xc,cij->xij', u, w.ctrl)
    t = np.repeat(w.tau / w.over, w.over)

    def total(h):
        return gen.solve(h, t, np.eye(w.d, dtype=complex), w.d)[1][-1]
    f = total(h)
    if w.sub:
        s = np.ix_(w.sub, w.sub)
        least = np.linalg.svd(f[s])[1].min()
        if least < .05:
            w.skip |= {'closest', 'noise_relative'}
        for k in range(w.smp.shape[1]):
            g = total(h + np.einsum('ox,oij->xij', w.smp[:, k], w.noise))
            if np.linalg.svd(g[s])[1].min() < .05:
                w.skip |= {'noise_closest', 'noise_relative'}
        if np.linalg.norm((f @ w.psi)[w.sub]) < .05:
            w.skip.add('state_sub')
    if min(np.min(np.diff(np.linalg.eigvalsh(x))) for x in h) < .03:
        w.skip.add('filter')


# The other descriptions. Each one changes the world and returns a function
# which maps gradients back (None: they stay).

def conjugate(w, v):
    def c(x):
        return v @ x @ v.conj().T
    for n in ('drift', 'ctrl', 'noise', 'ffn'):
        setattr(w, n, np.array([c(x) for x in getattr(w, n)]))
    w.lind = [c(x) for x in w.lind]
    w.full = c(w.full)
    w.psi, w.psit = v @ w.psi, v @ w.psit


def frame(w, rng):
    v = np.zeros((w.d, w.d), complex)
    sub = w.sub or list(range(w.d))
    rest = [i for i in range(w.d) if i not in sub]
    a = ref.unitary(rng, len(sub))
    v[np.ix_(sub, sub)] = a
    if rest:
        v[np.ix_(rest, rest)] = ref.unitary(rng, len(rest))
    conjugate(w, v)
    w.tgt = a @ w.tgt @ a.conj().T
    w.psis = a @ w.psis


def relabel(w, rng):
    # the level i is now called at[i]
    at = [int(i) for i in rng.permutation(w.d)]
    v = np.eye(w.d)[:, at]
    conjugate(w, v.astype(complex))
    if w.sub is None:
        w.tgt = v @ w.tgt @ v.T
        w.psis = v @ w.psis
    else:
        w.sub = [at[i] for i in w.sub]


def state_order(w, rng):
    """The computational states are listed in another order."""
    if w.sub is None:
        w.sub = list(range(w.d))
        w.skip |= {'closest', 'noise_closest', 'noise_relative', 'state_sub'}
    p = rng.permutation(len(w.sub))
    w.sub = [w.sub[i] for i in p]
    w.tgt = w.tgt[np.ix_(p, p)]
    w.psis = w.psis[p]


def control_order(w, rng):
    p = rng.permutation(len(w.ctrl))
    w.ctrl = w.ctrl[p]
    if w.amp is not None:
        w.amp = w.amp[:, p]
        return None
    w.y = w.y[:, p]
    return lambda g: g[:, :, np.argsort(p)]


def mixture(w, rng):
    """Other linear combinations of the controls."""
    n = w.y.shape[1]
    m = rng.normal(size=(n, n)) + 2 * np.eye(n)
    while np.linalg.cond(m) > 20:
        m = rng.normal(size=(n, n)) + 2 * np.eye(n)
    if w.amp is not None:
        w.amp = m @ w.amp
    else:
        w.ctrl = np.einsum('ji,iab->jab', m, w.ctrl)
    inv = np.linalg.inv(m)
    w.y = w.y @ inv
    return lambda g: np.einsum('tfj,ij->tfi', g, inv)


def control_units(w, rng):
    a = 10 ** rng.uniform(-9, 9, size=len(w.ctrl)) * rng.choice(
        [1, -1], size=len(w.ctrl))
    if w.amp is None:
        w.ctrl = w.ctrl * a[:, None, None]
        w.y = w.y / a
        return lambda g: g / a
    w.ctrl = w.ctrl * a[:, None, None]
    w.amp = w.amp / a


def time_units(w, rng):
    c = 10 ** rng.uniform(-9, 9)
    w.tau = w.tau * c
    w.drift, w.noise, w.ffn = w.drift / c, w.noise / c, w.ffn / c
    w.ctrl = w.ctrl / c
    w.lind = [x / np.sqrt(c) for x in w.lind]
    w.w = w.w / c
    w.s = w.s * c


def amplitude_of_time(w, rng):
    """Other units of energy carried by the pulse instead of operators."""
    if w.amp is not None:
        return time_units(w, rng)
    c = 10 ** rng.uniform(-3, 3)
    w.tau = w.tau * c
    w.drift = w.drift / c
    w.y = w.y / c
    w.smp = w.smp / c
    w.sus = w.sus / c
    w.lind = [x / np.sqrt(c) for x in w.lind]
    w.w = w.w / c
    w.s = w.s * c
    return lambda g: g / c


def split(w, rng):
    """Every time step in several pieces."""
    if w.over > 1:
        unroll(w, rng)
        back = unrolled(w)
    else:
        back = None
    n = [int(rng.integers(1, 4)) for _ in w.tau]
    where = np.repeat(np.arange(len(n)), n)
    part = np.concatenate([rng.dirichlet(np.full(k, 3.)) for k in n])
    w.tau = w.tau[where] * part
    w.y = w.y[where]
    w.drift = w.drift[where]
    w.smp = w.smp[:, :, where]
    w.sus = w.sus[:, where]

    def f(g):
        out = np.zeros((len(n),) + g.shape[1:])
        np.add.at(out, where, g)
        return out if back is None else back(out)
    return f


def unroll(w, rng):
    """Repeated steps instead of oversampling."""
    k = w.over
    w.last_over = k
    w.tau = np.repeat(w.tau / k, k)
    w.y = np.repeat(w.y, k, 0)
    w.over = 1
    return unrolled(w)


def unrolled(w):
    k = w.last_over

    def f(g):
        return g.reshape((-1, k) + g.shape[1:]).sum(1)
    return f


def fold(w, rng):
    """The linear amplitude function goes into the operators."""
    if w.amp is None:
        n = w.y.shape[1]
        w.amp = rng.normal(size=(n, n)) + 2 * np.eye(n)
        inv = np.linalg.inv(w.amp)
        w.ctrl = np.einsum('ji,iab->jab', inv, w.ctrl)
        return None
    w.ctrl = np.einsum('ji,iab->jab', w.amp, w.ctrl)
    w.amp = None


def offset(w, rng):
    """Another zero of the energy in every step."""
    e = rng.normal(size=len(w.drift)) * 2 / np.mean(w.tau)
    w.drift = w.drift + e[:, None, None] * np.eye(w.d)


def moved(w, rng):
    """One control is a given part of the drift."""
    n = w.y.shape[1]
    if w.amp is not None or n < 2:
        return offset(w, rng)
    k = int(rng.integers(n))
    w.drift = w.drift + np.repeat(w.y[:, k], w.over)[
        :, None, None] * w.ctrl[k]
    keep = [i for i in range(n) if i != k]
    w.ctrl = w.ctrl[keep]
    w.y = w.y[:, keep]

    def f(g):
        out = np.full(g.shape[:2] + (n,), np.nan)
        out[:, :, keep] = g
        return out
    return f


def idle(w, rng):
    """A second system which does nothing."""
    k = int(rng.integers(2, 4)) if w.d == 2 else 2
    front = bool(rng.random() < .5)
    d = w.d

    def c(x, e=None):
        e = np.eye(k) if e is None else e
        return np.kron(e, x) if front else np.kron(x, e)
    phi = ref.ket(rng, k)
    for n in ('drift', 'ctrl', 'noise', 'ffn'):
        setattr(w, n, np.array([c(x) for x in getattr(w, n)]))
    w.lind = [c(x) for x in w.lind]
    w.full, w.tgt = c(w.full), c(w.tgt)
    w.psi, w.psit, w.psis = c(w.psi, phi), c(w.psit, phi), c(w.psis, phi)
    if w.sub:
        w.sub = [j * d + s for j in range(k) for s in w.sub] if front else [
            s * k + j for s in w.sub for j in range(k)]
    w.d = d * k
    # degenerate (see the known findings)
    w.skip.add('filter')
    if w.d > 6:
        w.skip |= {'channel', 'channel_leakage', 'liouville_noise',
                   'liouville_leakage', 'noise_leakage'}


def traces(w, rng):
    """The traces in another order, each of them several times."""
    p = np.tile(rng.permutation(w.smp.shape[1]), int(rng.integers(1, 3)))
    w.smp = w.smp[:, p]


def noise_units(w, rng):
    a = 10 ** rng.uniform(-9, 9, size=len(w.noise)) * rng.choice(
        [1, -1], size=len(w.noise))
    w.noise = w.noise * a[:, None, None]
    w.smp = w.smp / a[:, None, None]
    b = 10 ** rng.uniform(-6, 6, size=len(w.ffn)) * rng.choice(
        [1, -1], size=len(w.ffn))
    w.ffn = w.ffn * b[:, None, None]
    if rng.random() < .5:
        w.sus = w.sus / b[:, None]
    else:
        w.s = w.s / b[:, None] ** 2


def noise_order(w, rng):
    p = rng.permutation(len(w.noise))
    w.noise, w.smp = w.noise[p], w.smp[p]
    # one operator in two parts
    k = int(rng.integers(len(w.noise)))
    a = ref.herm(rng, w.d) * np.linalg.norm(w.noise[k]) / w.d
    w.noise = np.concatenate([w.noise, [a]])
    w.noise[k] = w.noise[k] - a
    w.smp = np.concatenate([w.smp, w.smp[k:k + 1]])


def dissipation(w, rng):
    """Mixed Lindblad operators (and shifted ones)."""
    n = len(w.lind) + int(rng.integers(0, 2))
    v = ref.unitary(rng, n)
    l = w.lind + [np.zeros((w.d, w.d))] * (n - len(w.lind))
    w.lind = [sum(v[i, j] * l[j] for j in range(n)) for i in range(n)]


def shifted_dissipation(w, rng):
    """L + a together with a change of the Hamiltonian."""
    for i, x in enumerate(w.lind):
        a = (rng.normal() + 1j * rng.normal()) * np.linalg.norm(x) / w.d
        w.lind[i] = x + a * np.eye(w.d)
        w.drift = w.drift + (np.conj(a) * x - a * x.conj().T) / 2j
    w.only = {'channel', 'channel_leakage'}


def complex_conjugation(w, rng):
    for n in ('drift', 'ctrl', 'noise', 'ffn'):
        setattr(w, n, -getattr(w, n).conj())
    w.lind = [x.conj() for x in w.lind]
    for n in ('full', 'tgt', 'psi', 'psit', 'psis'):
        setattr(w, n, getattr(w, n).conj())


def reversal(w, rng):
    """Backwards in time."""
    w.drift = -w.drift[::-1]
    w.ctrl = -w.ctrl
    w.noise, w.ffn = -w.noise, -w.ffn
    w.y, w.tau = w.y[::-1].copy(), w.tau[::-1].copy()
    w.smp, w.sus = w.smp[:, :, ::-1].copy(), w.sus[:, ::-1].copy()
    w.full, w.tgt = w.full.conj().T, w.tgt.conj().T
    w.skip |= {'state', 'state_sub', 'state_noise', 'channel',
               'channel_leakage'}
    return lambda g: g[::-1]


def phases(w, rng):
    for n in ('full', 'tgt', 'psi', 'psit', 'psis'):
        setattr(w, n, getattr(w, n) * np.exp(1j * rng.uniform(0, 7)))
    w.lind = [x * np.exp(1j * rng.uniform(0, 7)) for x in w.lind]


WAYS = [frame, relabel, state_order, control_order, mixture, control_units,
        time_units, amplitude_of_time, split, unroll, fold, offset, moved,
        idle, traces, noise_units, noise_order, dissipation,
        shifted_dissipation, complex_conjugation, reversal, phases]


def described(mon, rng, idx):
    first = WAYS[idx % len(WAYS)]
    w = World(rng, d=int(rng.integers(2, 4)) if first is idle else None)
    if first is unroll and w.over == 1:
        w.over = 2
        for n in ('drift', 'smp', 'sus'):
            x = getattr(w, n)
            setattr(w, n, np.repeat(x, 2, 0 if n == 'drift' else -1))
    regular(w)
    v = w.copy()
    v.only = None
    backs, names = [], []
    todo = [first]
    if first is not idle:
        todo += [WAYS[k] for k in rng.integers(len(WAYS), size=int(
            rng.integers(0, 3)))]
        todo = [f for f in todo if f is first or f is not idle]
    # controls in very different units are not mixed afterwards
    todo.sort(key=lambda f: f is control_units)
    for f in todo:
        if f is unroll and v.over == 1:
            continue
        b = f(v, rng)
        names.append(f.__name__)
        if b is not None:
            backs.append(b)
    note = ' '.join(names) + f' d={w.d} sub={w.sub} over={w.over} ' \
        f'amp={w.amp is not None} t={len(w.tau)}'
    mon.describe(ways=names, set_up=note)
    w.skip |= v.skip
    v.skip = w.skip
    a = evaluate(w, rng, v.only)
    b = evaluate(v, rng, v.only)
    mon.check('same_quantities', sorted(a) == sorted(b), note)
    for n in sorted(a):
        c, g = a[n]
        mon.close('cost:' + n, b[n][0], c, 1e-7, 1e-8, note)
        if g is None:
            continue
        h = b[n][1]
        for f in reversed(backs):
            h = f(h)
        h = np.where(np.isnan(h), g, h)
        scale = max(1., np.max(np.abs(g)))
        mon.close('gradient:' + n, h, g, 1e-6, 1e-7 * scale, note)
    for n in names:
        mon.event('way_' + n)
    mon.sig(note)


def agree(mon, rng, idx):
    """Solvers and cost functions which describe the same quantity."""
    w = World(rng)
    regular(w)
    w.lind = [np.zeros((w.d, w.d), complex)]
    quiet = w.copy()
    if rng.random() < .5:
        quiet.smp = quiet.smp * 0
    else:
        quiet.noise = quiet.noise * 0
    out = evaluate(quiet, rng)
    note = f'd={w.d} sub={w.sub} over={w.over} t={len(w.tau)}'
    mon.describe(set_up=note)
    for a, b in (('channel', 'operation'), ('noise', 'operation'),
                 ('noise_closest', 'closest'),
                 ('liouville_noise', 'operation'),
                 ('channel_leakage', 'leakage'),
                 ('liouville_leakage', 'leakage'),
                 ('incoherent_leakage', 'leakage'),
                 ('noise_leakage', 'leakage'), ('state_noise', 'state'),
                 ('filter_value', 'filter')):
        if a not in out or b not in out:
            continue
        (x, g), (y, h) = out[a], out[b]
        mon.close(f'{a}={b}', np.ravel(x), np.ravel(y), 1e-7, 1e-8, note)
        if g is not None and h is not None:
            mon.close(f'gradients:{a}={b}', g, h, 1e-6, 1e-7 * max(
                1., np.max(np.abs(h))), note)
    # no noise: no infidelity relative to the undisturbed evolution; all
    # states computational: full operation
    if 'noise_relative' in out and (w.sub is None
                                    or 'closest' in out and len(w.sub)):
        c, g = out['noise_relative']
        mon.close('nothing_lost', c, np.zeros_like(c), 0, 1e-9, note)
    # noise: the average of the channels, and single traces
    n = w.smp.shape[1]
    full = evaluate(w, rng, {'noise', 'liouville_noise', 'incoherent_leakage',
                             'noise_leakage', 'noise_closest',
                             'state_noise'})
    mon.close('average_of_channels', np.ravel(full['liouville_noise'][0]),
              np.ravel(full['noise'][0]), 1e-7, 1e-8, note)
    mon.close('average_of_leakage', np.ravel(full['noise_leakage'][0]),
              np.ravel(full['incoherent_leakage'][0]), 1e-7, 1e-8, note)
    single = []
    for k in range(n):
        v = w.copy()
        v.smp = v.smp[:, k:k + 1]
        if rng.random() < .5:
            # the noise as part of the drift
            v.drift = v.drift + np.einsum('ox,oij->xij', v.smp[:, 0],
                                          v.noise)
            o = evaluate(v, rng, {'operation', 'leakage', 'state'})
            single.append([o['operation'], o['leakage'], o['state']])
        else:
            o = evaluate(v, rng, {'noise', 'incoherent_leakage',
                                  'state_noise'})
            single.append([o['noise'], o['incoherent_leakage'],
                           o['state_noise']])
    for i, name in enumerate(('noise', 'incoherent_leakage', 'state_noise')):
        mon.close('mean_of_traces:' + name, np.ravel(full[name][0]),
                  np.mean([np.ravel(s[i][0]) for s in single], axis=0), 1e-7,
                  1e-8, note)
    mon.close('mean_of_gradients', full['noise'][1], np.mean(
        [s[0][1] for s in single], axis=0), 1e-6, 1e-7, note)
    mon.sig('agree', note)


WORKLOADS = dict(described=(described, 264, 6600), agree=(agree, 80, 1500))
REQUIRED = ['way_' + f.__name__ for f in WAYS] + [
    'cost:' + n for n in (
        'operation', 'closest', 'leakage', 'state', 'state_sub',
        'noise', 'noise_closest', 'noise_relative', 'incoherent_leakage',
        'liouville_noise', 'state_noise', 'channel', 'channel_leakage',
        'filter', 'filter_value', 'liouville_leakage', 'noise_leakage')] + [
    'gradient:' + n for n in (
        'operation', 'closest', 'leakage', 'state', 'state_sub', 'noise',
        'noise_closest', 'noise_relative', 'channel', 'filter')] + [
    'average_of_channels', 'mean_of_gradients', 'nothing_lost',
    'gradients:channel=operation', 'gradients:noise=operation']
