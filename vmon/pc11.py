"""C11: gradients of transfer functions are the exact adjoint."""
import numpy as np

from . import tfmodel
from .ref import mem, size
from .pc10 import has, taus, units

PROPERTY = 'C11'
RULE = ('The transfer functions of C10 are driven through histories of '
        'set_times, calls and gradient evaluations; the oracle is the '
        'transposed Jacobian of the explicit loop model (exact, the map is '
        'affine) applied to random cost derivatives of 1-4 functions.')
ASSUMES = ['transfer functions are affine in the parameters']


def history(mon, rng, idx):
    n_c = size(rng, 1, 4, 9)
    n_t = size(rng, 1, 7, 20)
    equal = bool(rng.random() < .6)
    unit = units(rng)
    tf, ref = tfmodel.make(rng, n_c, n_t, equal, unit=unit)
    name = f'{tfmodel.describe(ref)} unit {unit}'
    mon.describe(tf=name, n_ctrl=n_c, n_t=n_t)
    fixed = has(ref, 'custom')
    for rnd in range(int(rng.integers(1, 4))):
        if rnd and not fixed:
            n_t = size(rng, 1, 7, 20)
        tau = taus(rng, n_t, equal, unit)
        tf.set_times(tau)
        if rng.random() < .5:
            tf(rng.normal(size=(n_t, n_c)))
        zero = ref.apply(np.zeros((n_t, n_c)), tau)
        jac = np.zeros((n_t, n_c) + zero.shape)
        for j in range(n_t):
            for k in range(n_c):
                e = np.zeros((n_t, n_c))
                e[j, k] = 1
                jac[j, k] = ref.apply(e, tau) - zero
        for n_f in (1, int(rng.integers(2, 6))):
            g = mem(rng, rng.normal(size=(len(zero), n_f, n_c)))
            g0 = g.copy()
            out = tf.gradient_chain_rule(g)
            want = np.einsum('jkil,ifl->jfk', jac, g0)
            note = f'{name} n_t={n_t} n_c={n_c} n_f={n_f} round {rnd}'
            mon.close('adjoint', out, want, 1e-11, 1e-11, note)
            mon.close('argument_unchanged', g, g0, 0, 0, note)
            g2 = rng.normal(size=g.shape)
            mon.close('linear', tf.gradient_chain_rule(g0 + 2. * g2),
                      want + 2. * tf.gradient_chain_rule(g2), 1e-10, 1e-10,
                      note)
        # <J v, w> = <v, J^T w> with the observed forward map
        v = rng.normal(size=(n_t, n_c))
        w = rng.normal(size=zero.shape)
        lhs = np.sum((tf(v) - tf(np.zeros((n_t, n_c)))) * w)
        rhs = np.sum(v * tf.gradient_chain_rule(w[:, None, :])[:, 0, :])
        mon.close('adjoint_identity', rhs, lhs, 1e-9, 1e-9, name)
    mon.sig(name, n_c, n_t, equal)


WORKLOADS = dict(history=(history, 1500, 20000))
REQUIRED = ['adjoint', 'adjoint_identity', 'linear', 'argument_unchanged']
