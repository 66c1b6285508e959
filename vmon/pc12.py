"""C12: amplitude functions and their chain rule."""
import math

import numpy as np

from qopt.amplitude_functions import (CustomAmpFunc, IdentityAmpFunc,
                                      UnaryAnalyticAmpFunc)
from . import tfmodel
from .ref import fd_grad, mem

PROPERTY = 'C12'
RULE = ('Identity, unary (scalar-only, integer valued at some points, '
        'vectorised) and custom amplitude functions mixing 1-4 parameters '
        'into 1-4 controls, over 1-7 time steps and 1-4 cost functions; the '
        'oracle is the element-wise function and a sixth order central '
        'difference of the values.')
ASSUMES = ['user functions are deterministic']


def scalar_funcs(rng):
    c = float(rng.uniform(.5, 2))
    return [
        ('sin', lambda x: math.sin(c * x), lambda x: c * math.cos(c * x)),
        ('exp', lambda x: math.exp(c * x), lambda x: c * math.exp(c * x)),
        ('relu', lambda x: 0 if x < 0 else x, lambda x: 0 if x < 0 else 1),
        ('int', lambda x: 3 if x > 100 else 2 * x, lambda x: 2),
        ('sq', lambda x: x ** 2, lambda x: 2 * x),
        ('const', lambda x: 1, lambda x: 0),
        ('abs', lambda x: abs(x), lambda x: -1 if x < 0 else 1)]


def unary(mon, rng, idx):
    fs = scalar_funcs(rng)
    name, f, d = fs[idx % len(fs)]
    n_t, n_c, n_f = (int(v) for v in rng.integers(1, 7, size=3))
    a = UnaryAnalyticAmpFunc(f, d)
    for _ in range(2):
        x = mem(rng, rng.normal(size=(n_t, n_c)))
        x[np.abs(x) < .05] = .5
        if name != 'abs' and rng.random() < .2:
            # a steep function
            x *= float(rng.choice([1e-6, 5, 20]))
        if rng.random() < .5:
            # the first element decides the type of a naive vectorisation
            x[0, 0] = float(rng.choice([-1, 0, 1]))
            if name in ('relu', 'abs') and x[0, 0] == 0:
                x[0, 0] = -1.
        x0 = x.copy()
        want = np.array([[float(f(v)) for v in r] for r in x])
        mon.close('unary_value', a(x), want, 1e-12, 1e-12, name)
        g = mem(rng, rng.normal(size=(n_t, n_f, n_c)))
        g0 = g.copy()
        out = a.derivative_by_chain_rule(g, x)
        exact = np.zeros_like(g0)
        for t in range(n_t):
            for k in range(n_c):
                exact[t, :, k] = g0[t, :, k] * float(d(x[t, k]))
        mon.close('unary_chain_rule', out, exact, 1e-11, 1e-11, name)
        h = 1e-3
        num = (a(x + h) - a(x - h)) / (2 * h)
        if np.max(np.abs(x)) < 4 and np.min(np.abs(x)) > 2 * h:
            mon.close('unary_consistent', out, g0 * num[:, None, :], 1e-4,
                      1e-4, name)
        mon.close('argument_unchanged', x, x0, 0, 0)
        mon.close('argument_unchanged', g, g0, 0, 0)
        if rng.random() < .3:
            # the same array with other values
            x[...] = np.where(np.abs(x) > 3, 1., x + .25)
            mon.close('changed_in_place', a(x), [
                [float(f(v)) for v in r] for r in x], 1e-12, 1e-12, name)
            mon.close('changed_in_place', a.derivative_by_chain_rule(g, x),
                      [[[float(d(x[t, k])) * g[t, j, k] for k in range(n_c)]
                        for j in range(n_f)] for t in range(n_t)], 1e-11,
                      1e-11, name)
            mon.close('changed_in_place', a(x0), want, 1e-12, 1e-12, name)
    mon.describe(function=name, shape=[n_t, n_f, n_c])
    mon.sig('unary', name, n_t, n_c, n_f)


def custom(mon, rng, idx):
    n_t, n_c, n_f = (int(v) for v in rng.integers(1, 6, size=3))
    a, n_par, u, du, name = tfmodel.make_amp(rng, n_c, 'custom')
    x = mem(rng, rng.normal(size=(n_t, n_par)))
    x0 = x.copy()
    mon.close('custom_value', a(x), u(x0), 1e-12, 1e-12, name)
    g = mem(rng, rng.normal(size=(n_t, n_f, n_c)))
    g0 = g.copy()
    out = a.derivative_by_chain_rule(g, x)
    # f = sum_t,k g u: differentiate numerically, one function at a time
    num = fd_grad(lambda z: np.einsum('tfk,tk->f', g0, u(z)), x0)
    mon.close('custom_chain_rule', out, num.transpose(0, 2, 1), 1e-7, 1e-7,
              name)
    mon.close('argument_unchanged', x, x0, 0, 0)
    mon.close('argument_unchanged', g, g0, 0, 0)
    x[...] = x + .5
    g *= -2
    mon.close('changed_in_place', a(x), u(x), 1e-12, 1e-12, name)
    num = fd_grad(lambda z: np.einsum('tfk,tk->f', g, u(z)), x.copy())
    mon.close('changed_in_place', a.derivative_by_chain_rule(g, x),
              num.transpose(0, 2, 1), 2e-7, 2e-7, name)
    mon.describe(n_par=n_par, shape=[n_t, n_f, n_c])
    mon.sig('custom', n_par, n_t, n_c, n_f)


def whole_numbers(mon, rng, idx):
    """Parameters given as integers or with single precision."""
    n_t, n_c, n_f = (int(v) for v in rng.integers(1, 5, size=3))
    dtype = [np.int64, np.int32, np.float32][idx % 3]
    x = rng.integers(-3, 4, size=(n_t, n_c)).astype(dtype)
    m = rng.normal(size=(n_c, n_c))
    g = rng.normal(size=(n_t, n_f, n_c))
    a = CustomAmpFunc(lambda v: v.astype(float) @ m / 2,
                      lambda v: np.array([m / 2] * len(v)))
    mon.close('whole_numbers', a(x), x.astype(float) @ m / 2, 1e-12, 1e-12)
    mon.close('whole_numbers', a.derivative_by_chain_rule(g, x),
              np.einsum('mj,tfj->tfm', m / 2, g), 1e-12, 1e-12)
    tol = 1e-6 if dtype is np.float32 else 1e-12
    b = UnaryAnalyticAmpFunc(lambda v: math.exp(v / 2),
                             lambda v: math.exp(v / 2) / 2)
    want = np.exp(x.astype(float) / 2)
    mon.close('whole_numbers', b(x), want, tol, tol)
    mon.close('whole_numbers', b.derivative_by_chain_rule(g, x),
              g * want[:, None] / 2, tol, tol)
    c = IdentityAmpFunc()
    mon.close('whole_numbers', c(x), x, 0, 0)
    mon.close('whole_numbers', c.derivative_by_chain_rule(g, x), g, 0, 0)
    mon.sig('whole', dtype.__name__, n_t, n_c, n_f)


def identity(mon, rng, idx):
    n_t, n_c, n_f = (int(v) for v in rng.integers(1, 6, size=3))
    a = IdentityAmpFunc()
    x = mem(rng, rng.normal(size=(n_t, n_c)))
    g = mem(rng, rng.normal(size=(n_t, n_f, n_c)))
    mon.close('identity_value', a(x.copy()), x, 0, 0)
    mon.close('identity_chain_rule',
              a.derivative_by_chain_rule(g.copy(), x), g, 0, 0)
    mon.sig('identity', n_t, n_c, n_f)


WORKLOADS = dict(unary=(unary, 400, 5000), custom=(custom, 300, 4000),
                 identity=(identity, 40, 200),
                 whole_numbers=(whole_numbers, 60, 600))
REQUIRED = ['unary_value', 'unary_chain_rule', 'unary_consistent',
            'custom_value', 'custom_chain_rule', 'identity_value',
            'identity_chain_rule', 'whole_numbers', 'changed_in_place']
