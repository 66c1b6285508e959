"""C28: equal inputs give equal results, whatever else is done."""
import multiprocessing
import os
import random
import traceback

import numpy as np
import matplotlib
import matplotlib.pyplot as plt

from . import gen, opt, ref, tfmodel
from .pc15 import wired
from .ref import dat

PROPERTY = 'C28'
RULE = ('Scenarios (solvers of every type, cost functions, transfer and '
        'amplitude functions, noise generators, filter functions, '
        'optimizers, annealing, entanglement of operators, storage, '
        'figures, analysis) are built from fresh objects and executed twice with the '
        'same seeds: once alone, once in a fresh process in which nothing '
        'else was ever done, once after and interleaved with other '
        'scenarios. Outputs must be equal; scenarios without noise must not '
        'draw from the global random generators; the global settings of '
        'numpy, matplotlib and the process are compared before and after.')
ASSUMES = ['equal up to rounding (memory alignment): 1e-12',
           'the warning filters are changed by the decorators for deprecated '
           'functions (documented)']


# A scenario is a generator: it yields once after building its objects and
# after each step, and returns an array of everything it observed.
def flat(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.append(flat(*x))
        else:
            out.append(np.asarray(dat(x), dtype=complex).reshape(-1))
    return np.concatenate(out) if out else np.zeros(0, complex)


def schroedinger(rng):
    p = gen.Problem(rng)
    s = p.schroedinger(exponential_method=gen.METHODS[rng.integers(3)])
    y = p.params(rng)
    yield
    s.set_optimization_parameters(y)
    yield
    a = flat(s.propagators, s.forward_propagators)
    yield
    return np.concatenate([a, flat(s.reversed_propagators,
                                   s.frechet_deriv_propagators)])


def lindblad(rng):
    p = gen.LindbladProblem(rng)
    s = p.lindblad()
    y = p.params(rng)
    yield
    s.set_optimization_parameters(y)
    yield
    a = flat(s.propagators)
    yield
    return np.concatenate([a, flat(s.forward_propagators,
                                   s.frechet_deriv_propagators)])


def noisy(rng):
    from qopt import noise
    from qopt.solver_algorithms import SchroedingerSMonteCarlo
    p = gen.Problem(rng, n_t=int(rng.integers(2, 5)))
    n, ops = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    if rng.random() < .5:
        g = noise.NTGQuasiStatic(list(rng.uniform(.1, 1, size=ops)), p.n_x,
                                 n, sampling_mode='monte_carlo',
                                 correct_std_for_discrete_sampling=False)
    else:
        g = noise.NTGColoredNoise(p.n_x, lambda f: .1 / (f + .1), dt=.5,
                                  n_traces=n, n_noise_operators=ops)
    s = SchroedingerSMonteCarlo(
        h_noise=[ref.op(ref.herm(rng, p.d)) for _ in range(ops)],
        noise_trace_generator=g, **p.kwargs())
    y = p.params(rng)
    yield 'random'
    s.set_optimization_parameters(y)
    yield 'random'
    a = flat(list(s.propagators_noise))
    b = flat(list(s.forward_propagators_noise))
    yield 'random'
    return np.concatenate([a, b, flat(g.noise_samples)])


def costs(rng):
    cs, solvers, funcs, __ = wired(rng, 1 + int(rng.random() < .3))
    if not cs:
        return np.zeros(0)
    from qopt.simulator import Simulator
    p = cs[0].p
    sim = Simulator(solvers, funcs)
    y = gen.tame([c.p for c in cs], rng.normal(size=(p.n_t, p.rtf.n_ctrl)))
    for s in solvers:
        if hasattr(s, 'noise_trace_generator'):
            state = np.random.get_state()
            s.noise_trace_generator.noise_samples
            np.random.set_state(state)
    yield
    a = flat(sim.wrapped_cost_functions(y))
    yield
    return np.concatenate([a, flat(sim.wrapped_jac_function(y))])


def transfer(rng):
    n_c, n_t = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    tf, r = tfmodel.make(rng, n_c, n_t, True)
    tau = np.full(n_t, .6)
    yield
    tf.set_times(tau)
    yield
    y = rng.normal(size=(n_t, n_c))
    x = tf(y)
    g = rng.normal(size=(len(x), 2, n_c))
    yield
    return flat(x, tf.x_times, tf.gradient_chain_rule(g))


def generators(rng):
    from qopt import noise
    n, k, ops = (int(rng.integers(2, 9)), int(rng.integers(1, 5)),
                 int(rng.integers(1, 3)))
    w = rng.integers(3)
    std = list(rng.uniform(.1, 1, size=ops))
    if w == 0:
        g = noise.NTGQuasiStatic(
            std, n, k, sampling_mode='uncorrelated_deterministic',
            correct_std_for_discrete_sampling=k > 2)
        yield
    elif w == 1:
        g = noise.NTGQuasiStatic(std, n, k, sampling_mode='monte_carlo',
                                 correct_std_for_discrete_sampling=False)
        yield 'random'
    else:
        g = noise.NTGColoredNoise(
            n, lambda f: 1 / (f + .1), dt=.3, n_traces=k,
            n_noise_operators=ops, always_redraw_samples=bool(
                rng.random() < .5))
        yield 'random'
    return flat(g.noise_samples, g.noise_samples)


def filters(rng):
    from qopt import cost_functions as cf
    p = gen.Problem(rng, d=2, tf=None, amp='none', initial='none',
                    n_t=int(rng.integers(1, 4)))
    n = [ref.herm(rng, 2, kind='traceless')]

    s = p.schroedinger(filter_function_h_n=[[n[0], np.ones(p.n_x), 'n0']])
    c = cf.OperatorFilterFunctionInfidelity(
        s, noise_power_spec_density=lambda f: 1e-3 / f,
        omega=np.geomspace(1e-2, 1e2, 40))
    y = p.params(rng)
    yield
    s.set_optimization_parameters(y)
    yield
    return flat(c.costs())


def optimizing(rng):
    pr = opt.AffineProblem(rng, power=2)
    from qopt import optimize
    from qopt.simulator import Simulator
    sim = Simulator(**pr.sim_kwargs())
    cond = dict(max_iterations=int(rng.integers(2, 8)))
    if rng.random() < .5:
        o = optimize.LeastSquaresOptimizer(sim, termination_cond=cond)
    else:
        o = optimize.ScalarMinimizingOptimizer(
            system_simulator=sim, termination_cond=cond,
            method=['L-BFGS-B', 'Nelder-Mead'][rng.integers(2)])
    y = rng.normal(size=(pr.n_t, pr.n_c))
    yield
    r = o.run_optimization(y)
    yield
    default = optimize.ScalarMinimizingOptimizer(sim).termination_conditions
    return flat(r.final_cost, r.final_parameters, r.optim_summary.costs,
                r.optim_summary.parameters,
                [default[k] for k in sorted(default)])


def annealing(rng):
    from qopt import optimize
    from qopt.simulator import Simulator
    pr = opt.AffineProblem(rng, power=2)
    shape = (pr.n_t, pr.n_c)
    o = optimize.SimulatedAnnealing(
        Simulator(**pr.sim_kwargs()),
        np.stack([np.full(shape, -4.), np.full(shape, 4.)]), steps=20,
        updates=0)
    y = rng.integers(-2, 3, size=shape).astype(float)
    yield 'random'
    r = o.run_optimization(y)
    return flat(r.final_cost, r.final_parameters)


def operators(rng):
    from qopt.matrix import DenseOperator
    d = int(rng.integers(2, 4))
    a, b = ref.cplx(rng, d, d), ref.cplx(rng, d, d)
    x, y = DenseOperator(a.copy()), DenseOperator(b.copy())
    yield
    z = x * y + y.kron(ref.op(np.eye(1)))
    yield
    e = z.exp(.2)
    yield
    return flat(z, e, x.dexp(y, .3, compute_expm=True), x, y,
                ref.op(ref.herm(rng, 4)).ptrace([2, 2], [0]))


def builtin(rng):
    """Operators returned by the package itself, changed in place."""
    from qopt.matrix import DenseOperator as D
    names = ['pauli_0', 'pauli_x', 'pauli_y', 'pauli_z', 'pauli_m',
             'pauli_p']
    names = [names[i] for i in rng.permutation(6)]
    yield
    a = [getattr(D, n)() for n in names]
    out = flat(a)
    for x in a:
        x *= float(rng.uniform(2, 3))
        x += ref.op(ref.cplx(rng, 2, 2))
        x.data[...] = 5.
    yield
    i = ref.op(ref.cplx(rng, 3, 3)).identity_like()
    out = np.concatenate([out, flat([getattr(D, n)() for n in names], i)])
    i *= 2.
    yield
    return np.concatenate([out, flat(ref.op(np.ones((3, 3))).identity_like())])


def helpers(rng):
    """Functions of the package which are used on their own."""
    import qopt
    from qopt import cost_functions as cf, noise
    from qopt.matrix import (convert_unitary_to_super_operator,
                             ket_vectorize_density_matrix)
    u, v = ref.op(ref.unitary(rng, 2)), ref.op(ref.unitary(rng, 2))
    w, x = ref.op(ref.unitary(rng, 3)), ref.op(ref.cplx(rng, 3, 3))
    out = [cf.angle_axis_representation(u)[0],
           cf.angle_axis_representation(u.data.copy())[1]]
    yield
    out += [cf.entanglement_fidelity(u, v), cf.averge_gate_fidelity(u, v),
            cf.entanglement_fidelity(v, x, computational_states=[0, 2],
                                     map_to_closest_unitary=True),
            cf.state_fidelity(ref.op(u.data[:1].copy()),
                              ref.op(v.data[:, :1].copy()))]
    yield
    s = convert_unitary_to_super_operator(u)
    out += [s, cf.entanglement_fidelity_super_operator(
        target=v, propagator=s),
        ket_vectorize_density_matrix(v), qopt.closest_unitary(x)]
    yield
    a = noise.sample_1dim_gaussian_distribution(.5, 4)
    out += [list(a), noise.bell_curve_1dim(.3, .7),
            x.truncate_to_subspace([0, 1]), x.truncate_to_subspace(
                [1, 2], map_to_closest_unitary=True), u.kron(w).ptrace(
                [2, 3], [1])]
    return flat(out)


class Inputs:
    """Everything a user may give to several objects."""

    def __init__(self, seed):
        rng = np.random.default_rng(seed)
        self.drift = [ref.op(ref.herm(rng, 2))]
        self.ctrl = [ref.op(ref.herm(rng, 2)), ref.op(ref.herm(rng, 2))]
        self.h_noise = [ref.op(ref.herm(rng, 2))]
        self.target = ref.op(ref.unitary(rng, 2))
        self.initial = ref.op(ref.unitary(rng, 2))
        self.tau = [np.full(n, .4) for n in range(1, 4)]
        self.pulse = [rng.normal(size=(n, 2)) for n in range(1, 4)]
        self.cond = dict(max_iterations=3)
        self.label = ['mine']
        self.weights = [.7]
        self.deviation = [.3]
        self.lindblad = [ref.op(ref.cplx(rng, 2, 2))]
        self.states = [0, 1]
        self.bounds = [-5 * np.ones(2 * n) for n in range(1, 4)], [
            5 * np.ones(2 * n) for n in range(1, 4)]

    def content(self):
        """Plain data of all inputs."""
        def plain(x):
            if isinstance(x, dict):
                return {k: plain(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return type(x).__name__, [plain(v) for v in x]
            if isinstance(x, (str, int, float)):
                return x
            a = np.asarray(dat(x))
            return a.shape, str(a.dtype), a.tobytes()
        return plain(vars(self))


POOL = Inputs(0)


def shared(rng):
    """Objects built from the inputs of the pool."""
    from qopt import cost_functions as cf, noise, optimize
    from qopt import solver_algorithms as sa
    from qopt.simulator import Simulator
    from qopt.transfer_function import OversamplingTF
    n = int(rng.integers(3))
    kw = dict(h_ctrl=POOL.ctrl, h_drift=POOL.drift, tau=POOL.tau[n])
    if rng.random() < .5:
        kw['initial_state'] = POOL.initial
    if rng.random() < .4:
        kw['transfer_function'] = OversamplingTF(num_ctrls=2, oversampling=2)
    w = int(rng.integers(4))
    if w == 3:
        if 'initial_state' in kw:
            del kw['initial_state']
        s = sa.LindbladSolver(lindblad_operators=POOL.lindblad, **kw)
        c = cf.OperationInfidelity(
            s, POOL.target, label=POOL.label, super_operator_formalism=True)
    elif w == 2:
        g = noise.NTGQuasiStatic(
            POOL.deviation, (n + 1) * (1 + ('transfer_function' in kw)), 3,
            always_redraw_samples=False)
        s = sa.SchroedingerSMonteCarlo(h_noise=POOL.h_noise,
                                       noise_trace_generator=g, **kw)
        c = cf.OperationNoiseInfidelity(
            s, POOL.target, label=POOL.label, neglect_systematic_errors=False,
            computational_states=POOL.states)
    else:
        s = sa.SchroedingerSolver(**kw)
        c = cf.OperationInfidelity(s, POOL.target, label=POOL.label,
                                   computational_states=POOL.states)
    yield
    y = POOL.pulse[n]
    s.set_optimization_parameters(y)
    out = [s.propagators, s.forward_propagators, s.frechet_deriv_propagators]
    yield
    sim = Simulator([s], [c])
    out += [sim.wrapped_cost_functions(y), sim.wrapped_jac_function(y)]
    yield
    if rng.random() < .5:
        o = optimize.LeastSquaresOptimizer(
            sim, POOL.cond, cost_func_weights=POOL.weights,
            bounds=[POOL.bounds[0][n], POOL.bounds[1][n]])
    else:
        o = optimize.ScalarMinimizingOptimizer(
            sim, POOL.cond, cost_func_weights=POOL.weights)
    r = o.run_optimization(y)
    yield
    out += [r.final_cost, r.final_parameters, r.init_parameters,
            s.transfer_function.x_times, s.transfer_function.num_x,
            s.transferred_time]
    return flat(out)


def figures(rng):
    from mpl_toolkits.mplot3d.art3d import Line3DCollection
    from qopt.energy_spectrum import plot_energy_spectrum, vector_color_map
    from qopt.plotting import plot_bloch_vector_evolution
    from qopt.transfer_function import OversamplingTF
    w = int(rng.integers(4))
    n = int(rng.integers(2, 5))
    if w == 0:
        hs = [ref.op(ref.herm(rng, 3)) for _ in range(n)]
        yield
        f, ax = plt.subplots()
        plot_energy_spectrum(hs, np.arange(float(n)), 'x', ax=ax,
                             s=float(rng.uniform(1, 9)))
        out = flat([np.asarray(c.get_offsets()) for c in ax.collections],
                   vector_color_map(ref.unitary(rng, 3)))
    elif w == 1:
        us = [ref.op(ref.unitary(rng, 2)) for _ in range(n)]
        kw = {}
        if rng.random() < .7:
            kw['figsize'] = [3, 4]
        if rng.random() < .5:
            kw['view'] = [10, 20]
        yield
        b = plot_bloch_vector_evolution(
            us, ref.op(np.eye(2)[:, :1] + 0j), True, **kw)
        out = flat([np.array(p, dtype=float) for p in b.points], b.view,
                   b.figsize, b.fig.get_size_inches())
    elif w == 2:
        p = gen.Problem(rng, d=2, tf=None, amp='none', initial='none', n_t=n)
        s = p.schroedinger()
        y = p.params(rng)
        yield
        b = s.plot_bloch_sphere(y, return_Bloch=True)
        yield
        out = flat([np.asarray(c._segments3d) for c in b.axes.collections
                    if isinstance(c, Line3DCollection)], s.propagators)
    else:
        t = OversamplingTF(num_ctrls=2, oversampling=int(rng.integers(1, 4)))
        t.set_times(np.full(n, .3))
        y = rng.normal(size=(n, 2))
        yield
        plt.figure()
        keep, plt.show = plt.show, lambda *a, **k: None
        try:
            t.plot_pulse(y)
        finally:
            plt.show = keep
        out = flat([q.get_bbox().get_points() for q in plt.gca().patches],
                   [np.asarray(li.get_ydata()) for li in plt.gca().lines])
    plt.close('all')
    return out


def analysing(rng):
    from qopt.analyser import Analyser
    from .pc25 import container
    c, __, __ = container(rng, int(rng.integers(1, 4)),
                          int(rng.integers(1, 4)))
    yield
    a = Analyser(c)
    out = flat(a.absolute_costs(), a.n_least_square, a.opt_times())
    yield
    ax = a.plot_costs(n=0)
    out = np.concatenate([out, flat([x.get_ydata() for x in ax.lines])])
    a.plot_absolute_costs()
    yield
    out = np.concatenate([out, flat(a.time_share_cost_fkt())])
    plt.close('all')
    return np.nan_to_num(out)


SCENARIOS = [schroedinger, lindblad, noisy, costs, transfer, generators,
             filters, optimizing, annealing, operators, builtin,
             helpers, shared, figures, analysing]


def settings():
    return dict(np.geterr(), cwd=os.getcwd(), backend=plt.get_backend(),
                rc=str(sorted(matplotlib.rcParams.items())),
                env=str(sorted(os.environ.items())),
                show=str(sorted(np.get_printoptions().items(),
                                key=lambda x: x[0])))


class Running:
    """Executes a scenario step by step with its own global seeds."""

    def __init__(self, mon, which, seed):
        self.mon, self.seed = mon, seed
        self.name = SCENARIOS[which].__name__
        self.g = SCENARIOS[which](np.random.default_rng(seed))
        self.out = None
        self.n = 0
        self.kind = None
        self.done = False

    def step(self):
        np.random.seed((self.seed + self.n) % 2 ** 32)
        random.seed(self.seed + self.n)
        self.n += 1
        before = np.random.get_state(), random.getstate()
        try:
            kind = next(self.g)
        except StopIteration as e:
            self.out, self.done = e.value, True
            kind = self.kind
        self.kind = self.kind or kind
        if self.kind != 'random':
            after = np.random.get_state(), random.getstate()
            self.mon.check('no_random_numbers', all(
                np.array_equal(a, b) for a, b in zip(before[0], after[0]))
                and before[1] == after[1], self.name)


class Quiet:
    """Stands in for the monitor in other processes."""

    def check(self, *args):
        pass


class Fresh:
    """A process in which nothing has been calculated.

    It forks a new process for each scenario, before anything that the
    worker does can change the state of the package.
    """

    def __init__(self):
        self.pipe, other = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.pipe.close()
                self.serve(other)
            finally:
                os._exit(0)
        other.close()

    @staticmethod
    def serve(pipe):
        global POOL
        while True:
            try:
                which, seed, pool = pipe.recv()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    POOL = Inputs(pool)
                    r = Running(Quiet(), which, seed)
                    while not r.done:
                        r.step()
                    pipe.send((True, r.out))
                except BaseException:
                    pipe.send((False, traceback.format_exc()[-1500:]))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def run(self, which, seed, pool):
        """(done, outputs or the exception), None if it does not answer."""
        if self.pipe is None:
            return None
        answer = None
        try:
            self.pipe.send((which, seed, pool))
            if self.pipe.poll(120):
                answer = self.pipe.recv()
        except (EOFError, OSError):
            pass
        finally:
            if answer is None:
                # out of step: never used again
                self.pipe.close()
                self.pipe = None
        return answer


FRESH = None


def interleaved(mon, rng, idx):
    global FRESH
    if FRESH is None:
        FRESH = Fresh()
    n = len(SCENARIOS)
    which = [idx % n] + [int(k) for k in rng.integers(
        n, size=rng.integers(1, 4))]
    if rng.random() < .4 or which[0] == SCENARIOS.index(shared):
        which[1] = which[0]
    seeds = [int(rng.integers(2 ** 31)) for _ in which]
    if rng.random() < .2:
        # the very same twice
        which[1], seeds[1] = which[0], seeds[0]
    names = [SCENARIOS[k].__name__ for k in which]
    mon.describe(scenarios=names)
    state = settings()
    alone = []
    global POOL
    pool = int(rng.integers(2 ** 31))
    for k, s in zip(which, seeds):
        POOL = Inputs(pool)
        r = Running(mon, k, s)
        while not r.done:
            r.step()
        alone.append(r.out)
    POOL = Inputs(pool)
    runs = [Running(mon, k, s) for k, s in zip(which, seeds)]
    order = []
    while not all(r.done for r in runs):
        i = int(rng.integers(len(runs)))
        if runs[i].done:
            continue
        runs[i].step()
        order.append(i)
    for r, want in zip(runs, alone):
        mon.close('same:' + r.name, r.out, want, 1e-12, 1e-12,
                  f'{names} {order}')
    for r, k, s in zip(runs, which, seeds):
        answer = FRESH.run(k, s, pool)
        if answer is None:
            mon.event('no_fresh_process')
            continue
        mon.check('fresh_process_finished', answer[0], answer[1])
        if answer[0]:
            mon.close('fresh:' + r.name, r.out, answer[1], 1e-12, 1e-12,
                      f'{names} {order}')
    mon.check('inputs_unchanged', POOL.content() == Inputs(pool).content(),
              f'{names}')
    plt.close('all')
    for k, v in settings().items():
        mon.check('global_settings', v == state[k], f'{k} {names}')
    if len(set(order)) > 1 and order != sorted(order):
        mon.event('interleaved')
    mon.sig(*names, *order)


WORKLOADS = dict(interleaved=(interleaved, 280, 5000))
REQUIRED = ['inputs_unchanged', 'no_random_numbers', 'global_settings', 'interleaved'] + [
    'same:' + s.__name__ for s in SCENARIOS] + [
    'fresh:' + s.__name__ for s in SCENARIOS]
