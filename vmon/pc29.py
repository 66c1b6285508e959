"""C29: copies of simulation objects equal and do not influence the original.
"""
import copy
import io
import pickle
import types

import numpy as np

from . import gen, ref, tfmodel
from .pc15 import wired
from .ref import dat

PROPERTY = 'C29'
RULE = ('Operators, transfer functions, noise generators, solvers of all '
        'types, cost functions with their solvers, simulators and optimizers '
        'are copied (deepcopy, pickle round trip where the user functions '
        'allow it, several generations) at a random point of a history; '
        'original and copies go on with different pulses, times and in-place '
        'changes; everything read from each of them is compared with the '
        'reference of its own history.')
ASSUMES = ['noise generators are copied with their stored samples']


class Pickler(pickle.Pickler):
    """Functions and classes of the harness (which users may define at the top of
    a module) are replaced by references, all the rest has to be pickled."""

    def __init__(self, f):
        super().__init__(f)
        self.functions = []

    def persistent_id(self, x):
        if isinstance(x, (types.FunctionType, type)) \
                and x.__module__.startswith('vmon'):
            self.functions.append(x)
            return len(self.functions) - 1
        return None


class Unpickler(pickle.Unpickler):
    def __init__(self, f, functions):
        super().__init__(f)
        self.functions = functions

    def persistent_load(self, i):
        return self.functions[i]


def pickled(x):
    f = io.BytesIO()
    p = Pickler(f)
    p.dump(x)
    return Unpickler(io.BytesIO(f.getvalue()), p.functions).load()


def duplicate(mon, rng, x):
    if rng.random() < .5:
        mon.event('pickled')
        return pickled(x)
    mon.event('deepcopied')
    return copy.deepcopy(x)


def picklable(x):
    try:
        pickle.dumps(x)
        return True
    except (pickle.PicklingError, AttributeError, TypeError):
        return False


def problem(rng, kind):
    if kind == 0:
        return gen.Problem(rng)
    if kind == 1:
        return gen.LindbladProblem(rng)
    if kind == 3:
        return gen.ControlNoiseProblem(rng, always_redraw=False)
    return gen.MonteCarloProblem(rng, always_redraw=False)


class State:
    """A solver together with the history it has seen."""

    def __init__(self, s, y, tau, samples):
        self.s, self.y, self.tau, self.samples = s, y, tau, samples


def read(mon, p, kind, st, rng, note):
    s, y = st.s, st.y
    if y is None:
        return
    what = rng.integers(5)
    if kind == 1:
        props, fwd, rev = p.solve_y(y, st.tau)
    else:
        props, fwd, rev = p.solve(p.amps(y, st.tau), p.times(st.tau))
    if what == 0:
        mon.close('propagators', dat(s.propagators), np.array(props), 1e-8,
                  1e-9, note)
    elif what == 1:
        mon.close('forward', dat(s.forward_propagators), np.array(fwd), 1e-8,
                  1e-9, note)
    elif what == 2:
        mon.close('reversed', dat(s.reversed_propagators), np.array(rev),
                  1e-8, 1e-9, note)
    elif what == 3:
        mon.close('transferred', s.transferred_parameters, p.transferred(
            y, st.tau), 1e-9, 1e-9, note)
    elif kind >= 2:
        if not np.allclose(st.tau, p.tau, atol=0):
            return
        want = np.array([ref.propagators(h, p.times()) for h in
                         p.noisy_hams(y, st.samples)])
        got = np.array([dat(x) for x in s.propagators_noise])
        mon.close('noisy', got, want, 1e-8, 1e-9, note)
    mon.event('read')


def solvers(mon, rng, idx):
    kind = idx % 4
    p = problem(rng, kind)
    methods = gen.METHODS[:2] if kind == 1 else gen.METHODS
    kw = dict(exponential_method=methods[rng.integers(len(methods))])
    s = [p.schroedinger, getattr(p, 'lindblad', None),
         getattr(p, 'monte_carlo', None)][min(kind, 2)](**kw)
    mon.describe(kind=kind, problem=p.name())
    smp = None
    if kind >= 2:
        smp = np.array(s.noise_trace_generator.noise_samples)
    states = [State(s, None, p.tau.copy(), smp)]
    ops = []
    fixed = 'custom' in p.name() or p.drift_kind == 'list'
    for step in range(int(rng.integers(4, 12))):
        i = int(rng.integers(len(states)))
        st = states[i]
        w = ['update', 'update', 'read', 'read', 'copy', 'times',
             'invade'][rng.integers(7)]
        ops.append(f'{w}{i}')
        note = f'{p.name()} ' + ' '.join(ops)
        if w == 'update':
            y = p.params(rng)
            st.y = y.copy()
            st.s.set_optimization_parameters(y)
        elif w == 'copy' and len(states) < 4:
            states.append(State(duplicate(mon, rng, st.s), None if st.y is
                                None else st.y.copy(), st.tau.copy(),
                                st.samples))
        elif w == 'times' and not fixed:
            tau = st.tau * float(rng.uniform(.5, 1.5))
            st.s.set_times(tau.copy())
            st.tau = tau
            # the pulse has to be given again
            y = p.params(rng)
            st.y = y.copy()
            st.s.set_optimization_parameters(y)
        elif w == 'invade' and len(states) > 1:
            # in-place changes of the results of one object
            if st.y is not None:
                for q in st.s.forward_propagators:
                    q *= 7.
                if hasattr(st.s, 'noise_trace_generator'):
                    st.s.propagators_noise[0][0] *= 3.
            st.y = None
            ops.append('(spoiled)')
            states.pop(i)
        if not states:
            break
        st = states[int(rng.integers(len(states)))]
        read(mon, p, kind, st, rng, note)
    for st in states:
        for _ in range(3):
            read(mon, p, kind, st, rng, ' '.join(ops))
    for st in states:
        pickled(st.s)
    if any(o.startswith('copy') for o in ops):
        mon.sig(kind, *ops, *p.sig())


def simulators(mon, rng, idx):
    """A copied simulator contains copies of the solvers its cost functions
    use, so both can be evaluated at different pulses."""
    from qopt import optimize
    from qopt.simulator import Simulator
    cs, solv, funcs, value = wired(rng, 1 + int(rng.random() < .4))
    if not cs:
        return
    for s in solv:
        if hasattr(s, 'noise_trace_generator'):
            s.noise_trace_generator.noise_samples
    ps = [c.p for c in cs]
    shape = (ps[0].n_t, ps[0].rtf.n_ctrl)
    sim = Simulator(solv, funcs)
    note = ' || '.join(c.note for c in cs)
    mon.describe(costs=[c.kind for c in cs], problem=note)
    sims = [sim]
    if rng.random() < .5:
        sim.wrapped_cost_functions(gen.tame(ps, rng.normal(size=shape)))
    for _ in range(int(rng.integers(1, 3))):
        src = sims[rng.integers(len(sims))]
        if rng.random() < .4:
            o = optimize.LeastSquaresOptimizer(system_simulator=src)
            sims.append(duplicate(mon, rng, o).system_simulator)
        else:
            sims.append(duplicate(mon, rng, src))
    counts = [len(s.stats.cost_func_eval_times) for s in sims]
    for _ in range(int(rng.integers(2, 6))):
        i = int(rng.integers(len(sims)))
        y = gen.tame(ps, rng.normal(size=shape))
        got = sims[i].wrapped_cost_functions(y.copy())
        counts[i] += 1
        try:
            want = value(y)
        except Exception as e:
            if type(e).__name__ != 'Skip':
                raise
            continue
        mon.close('copied_costs', got, want, 0, 1e-7, f'{i} {note}')
        # the cost functions of the others still see their own pulse
    mon.check('separate_statistics', [len(
        s.stats.cost_func_eval_times) for s in sims] == counts, note)
    for s in sims:
        pickled(s)
    for a in range(len(sims)):
        mon.check('labels', sims[a].cost_indices == sim.cost_indices)
        for b in range(a):
            mon.check('separate_solvers', not any(
                x is y for x in sims[a].solvers for y in sims[b].solvers))
        mon.check('shared_inside', all(any(
            f.solver is s for s in sims[a].solvers)
            for f in sims[a].cost_funcs), note)
    mon.sig('simulator', note)


def parts(mon, rng, idx):
    """Operators, transfer functions, amplitude functions, generators."""
    from qopt import noise
    d = int(rng.integers(1, 5))
    a = ref.cplx(rng, d, d)
    x = ref.op(a)
    y = duplicate(mon, rng, x)
    z = copy.copy(x) if rng.random() < .3 else x.copy() if hasattr(
        x, 'copy') and rng.random() < .5 else duplicate(mon, rng, y)
    y *= 2.
    mon.close('operator', dat(x), a, 0, 0)
    mon.close('operator', dat(y), 2 * a, 0, 1e-14)
    mon.close('operator', dat(z), a, 0, 0)
    n_c, n_t = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    tf, r = tfmodel.make(rng, n_c, n_t, True)
    tau = np.full(n_t, float(rng.uniform(.2, 1.)))
    fixed = 'custom' in tfmodel.describe(r)
    if rng.random() < .7:
        tf.set_times(tau)
        if rng.random() < .5:
            tf(rng.normal(size=(n_t, n_c)))
        ready = True
    else:
        ready = False
    tf2 = duplicate(mon, rng, tf)
    name = tfmodel.describe(r)
    tau2 = np.full(n_t if fixed else int(rng.integers(1, 5)),
                   float(rng.uniform(.2, 1.)))
    tf2.set_times(tau2)
    v = rng.normal(size=(len(tau2), n_c))
    mon.close('transfer_copy', tf2(v), r.apply(v, tau2), 1e-11, 1e-11, name)
    mon.close('transfer_copy_times', tf2.x_times, r.times(tau2), 1e-12,
              1e-12, name)
    if ready:
        v = rng.normal(size=(n_t, n_c))
        mon.close('transfer_original', tf(v), r.apply(v, tau), 1e-11, 1e-11,
                  name)
        mon.close('transfer_original_times', tf.x_times, r.times(tau), 1e-12,
                  1e-12, name)
    from qopt.amplitude_functions import CustomAmpFunc, UnaryAnalyticAmpFunc
    f, df = [(np.sin, np.cos), (np.exp, np.exp), (np.square, twice)][
        rng.integers(3)]
    if rng.random() < .7:
        amp = UnaryAnalyticAmpFunc(f, df)
    else:
        amp = CustomAmpFunc(f, Derivative(df))
    fresh = picklable(amp)
    v = rng.normal(size=(n_t, n_c))
    grad = rng.normal(size=(n_t, 2, n_c))
    objs = [amp]
    for _ in range(int(rng.integers(1, 5))):
        o = objs[rng.integers(len(objs))]
        if rng.random() < .4:
            objs.append(duplicate(mon, rng, o))
        elif rng.random() < .5:
            mon.close('amplitude_copy', o(v), f(v), 1e-12, 1e-12)
        else:
            mon.close('amplitude_copy', o.derivative_by_chain_rule(grad, v),
                      grad * df(v)[:, None, :], 1e-12, 1e-12)
    for o in objs:
        mon.check('picklable_after_use', picklable(o) or not fresh,
                  type(o).__name__)
    g = noise.NTGColoredNoise(
        int(rng.integers(2, 9)), spectrum, dt=.3,
        n_traces=int(rng.integers(1, 4)),
        n_noise_operators=int(rng.integers(1, 3)),
        always_redraw_samples=False)
    s = np.array(g.noise_samples)
    h = duplicate(mon, rng, g)
    mon.close('samples_copied', h.noise_samples, s, 0, 0)
    h.noise_samples[...] = 5.
    mon.close('samples_kept', g.noise_samples, s, 0, 0)
    mon.check('sizes', (h.n_traces, h.n_noise_operators,
                        h.n_samples_per_trace) == (
        g.n_traces, g.n_noise_operators, g.n_samples_per_trace))
    mon.sig('parts', d, name, n_c, n_t, ready)


def twice(x):
    return 2 * x


class Derivative:
    """Derivatives as expected by CustomAmpFunc, picklable."""

    def __init__(self, df):
        self.df = df

    def __call__(self, x):
        return np.einsum('tk,kl->tkl', self.df(x), np.eye(x.shape[1]))


def spectrum(f):
    return 1 / (f + .1)


WORKLOADS = dict(solvers=(solvers, 200, 4000),
                 simulators=(simulators, 120, 2000),
                 parts=(parts, 200, 4000))
REQUIRED = ['propagators', 'forward', 'reversed', 'noisy', 'pickled',
            'deepcopied', 'copied_costs', 'separate_solvers',
            'shared_inside', 'separate_statistics', 'operator',
            'transfer_copy', 'transfer_original', 'samples_copied',
            'samples_kept', 'amplitude_copy', 'picklable_after_use']
