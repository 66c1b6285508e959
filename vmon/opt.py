"""Recording simulators for the optimizer checks."""
import copy
import time

import numpy as np

from . import ref


def make_cost_classes():
    from qopt.cost_functions import CostFunction

    class Affine(CostFunction):
        """costs = A vec(y) - b, (power 1) or its squares (power 2)."""

        def __init__(self, solver, a, b, power, label):
            super().__init__(solver=solver, label=label)
            self.a, self.b, self.power = a, b, power

        def _r(self):
            y = self.solver.transferred_parameters
            return np.einsum('ftc,tc->f', self.a, y) - self.b

        def costs(self):
            return self._r() ** self.power

        def grad(self):
            g = np.transpose(self.a, (1, 0, 2))
            if self.power == 1:
                return g.copy()
            return g * (2 * self._r())[None, :, None]
    return Affine


class Log:
    def __init__(self):
        self.pulses, self.costs, self.jac_pulses, self.jacs = [], [], [], []


def recording(sim_kwargs, delay_at=None, delay=0., fail_at=None):
    from qopt.simulator import Simulator

    class Recording(Simulator):
        def __init__(self):
            super().__init__(**sim_kwargs)
            self.log = Log()

        def wrapped_cost_functions(self, pulse=None):
            n = len(self.log.costs)
            if fail_at is not None and n == fail_at:
                raise Interrupted()
            out = super().wrapped_cost_functions(pulse)
            self.log.pulses.append(np.array(pulse, copy=True))
            self.log.costs.append(np.array(out, copy=True))
            if delay_at is not None and n + 1 == delay_at:
                time.sleep(delay)
            return out

        def wrapped_jac_function(self, pulse=None):
            out = super().wrapped_jac_function(pulse)
            self.log.jac_pulses.append(np.array(pulse, copy=True))
            self.log.jacs.append(np.array(out, copy=True))
            return out
    return Recording()


class Interrupted(Exception):
    pass


class AffineProblem:
    """Linear least squares / sum of squares with known solution."""

    def __init__(self, rng, power=1, n_t=None, n_c=None, n_f=None):
        self.n_t = n_t or ref.size(rng, 1, 4, 9)
        self.n_c = n_c or ref.size(rng, 1, 4, 7)
        n = self.n_t * self.n_c
        self.n_f = n_f or n + int(rng.integers(0, 3))
        while True:
            a = rng.normal(size=(self.n_f, n))
            s = np.linalg.svd(a)[1]
            if self.n_f < n or s[-1] > .3:
                break
        self.a = a.reshape(self.n_f, self.n_t, self.n_c)
        self.b = rng.normal(size=self.n_f)
        self.power = power
        self.splits = None
        # distribute on one or several cost functions
        k = int(rng.integers(1, min(3, self.n_f) + 1))
        cuts = sorted(rng.choice(np.arange(1, self.n_f), size=k - 1,
                                 replace=False)) if k > 1 else []
        self.parts = np.split(np.arange(self.n_f), [int(c) for c in cuts])
        self.labels = [f'f{i}' for i in range(self.n_f)]

    def sim_kwargs(self, stats=True):
        from qopt.solver_algorithms import SchroedingerSolver
        affine = make_cost_classes()
        s = SchroedingerSolver(
            h_drift=[ref.op(np.zeros((1, 1)))],
            h_ctrl=[ref.op(np.ones((1, 1)))] * self.n_c,
            tau=np.ones(self.n_t))
        fs = [affine(s, self.a[p], self.b[p], self.power,
                     [self.labels[i] for i in p]) for p in self.parts]
        return dict(solvers=[s], cost_funcs=fs,
                    record_performance_statistics=stats)

    def costs(self, y):
        return (np.einsum('ftc,tc->f', self.a, y) - self.b) ** self.power

    def solution(self, w):
        """Minimum of sum (w r)^2 for least squares (power 1) or sum w r^2
        (power 2)."""
        m = self.a.reshape(self.n_f, -1)
        v = w if self.power == 1 else np.sqrt(w)
        x = np.linalg.lstsq(m * v[:, None], self.b * v, rcond=None)[0]
        return x.reshape(self.n_t, self.n_c)


def clone(x):
    return copy.deepcopy(x)
