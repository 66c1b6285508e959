"""C10: transfer functions map pulses and times as documented."""
import numpy as np

from . import tfmodel
from .ref import mem, size

PROPERTY = 'C10'
RULE = ('Random transfer functions (identity, oversampling with and without '
        'matrix, convolution with 1d/2d odd/even kernels in all boundary '
        'modes, Gaussian filters, exponential saturation, custom matrices, '
        'nested concatenations and parallel combinations) are driven through '
        'histories of set_times / calls / rejected calls; the oracle is an '
        'explicit loop model. Distinct by structure, bounds, oversampling, '
        'modes, number of steps and controls.')
ASSUMES = ['ExponentialMTF is used with equal time steps only (documented)',
           'CustomMTF keeps its number of time steps']

REJECT = (RuntimeError, TypeError, IndexError, ValueError, AssertionError)


def has(r, kind):
    if r.kind == kind:
        return True
    return any(has(x, kind) for x in (getattr(r, 'a', None),
                                      getattr(r, 'b', None))
               if hasattr(x, 'kind'))


def taus(rng, n_t, equal, unit=1.):
    if equal:
        return np.full(n_t, float(rng.uniform(.1, 2)) * unit)
    return rng.uniform(.1, 2, size=n_t) * unit


def units(rng):
    """Times may be given in seconds, for example."""
    return float(rng.choice([1., 1., 1., 1e-9, 1e-12, 1e6]))


def history(mon, rng, idx):
    n_c = size(rng, 1, 5, 12)
    n_t = size(rng, 1, 8)
    equal = bool(rng.random() < .6)
    unit = units(rng)
    tf, ref = tfmodel.make(rng, n_c, n_t, equal, unit=unit)
    name = f'{tfmodel.describe(ref)} unit {unit}'
    mon.describe(tf=name, n_ctrl=n_c, n_t=n_t, equal=equal)
    if ref.kind != 'identity' and not has(ref, 'custom'):
        mon.raises('rejects_without_times', REJECT, tf, rng.normal(
            size=(n_t, n_c)))
    fixed_n = has(ref, 'custom')
    for rnd in range(int(rng.integers(1, 4))):
        if rnd and not fixed_n:
            n_t = size(rng, 1, 8)
        tau = taus(rng, n_t, equal, unit)
        arg = tau.copy()
        mode = rng.integers(4)
        if mode == 0:
            tf.set_times(list(arg))
        elif mode == 1 and not has(ref, 'custom'):
            absolute = np.concatenate(([0.], np.cumsum(tau)))
            if equal:
                absolute = np.arange(n_t + 1) * tau[0]
            tf.set_absolute_times(absolute)
        else:
            tf.set_times(arg)
        mon.close('times_argument_unchanged', arg, tau, 0, 0)
        if rng.random() < .5:
            # the caller reuses his array for something else
            arg[...] = taus(rng, n_t, equal, unit)
        xt = ref.times(tau)
        note = f'{name} n_t={n_t} n_c={n_c} round {rnd}'
        mon.close('x_times', tf.x_times, xt, 1e-12, 1e-12 * unit, note)
        mon.check('num_x', tf.num_x == len(xt), note)
        for _ in range(int(rng.integers(1, 4))):
            y = mem(rng, rng.normal(size=(n_t, n_c)))
            y0 = y.copy()
            x = tf(y)
            want = ref.apply(y, tau)
            mon.close('value', x, want, 1e-11, 1e-11, note)
            mon.close('argument_unchanged', y, y0, 0, 0, note)
            # the result of an earlier call survives later ones
            z = tf(rng.normal(size=(n_t, n_c)))
            mon.close('result_is_stable', x, want, 1e-11, 1e-11, note)
            mon.check('finite', np.all(np.isfinite(z)))
            if ref.kind != 'identity' and rng.random() < .5:
                bad = [rng.normal(size=(n_t + 1, n_c)),
                       rng.normal(size=(n_t, n_c + 1)),
                       rng.normal(size=n_t),
                       np.ones((n_t, n_c), dtype=int)][rng.integers(4)]
                mon.raises('rejects', REJECT, tf, bad)
                mon.close('value_after_rejection', tf(y), want, 1e-11,
                          1e-11, note)
        zero = tf(np.zeros((n_t, n_c)))
        mon.close('affine', tf(2. * y) - zero, 2. * (x - zero), 1e-10,
                  1e-10, note)
    mon.sig(name, n_c, n_t, equal)


def matrices(mon, rng, idx):
    """The transfer matrix is the linear part of the map."""
    n_c = size(rng, 1, 4, 12)
    n_t = size(rng, 1, 6)
    equal = bool(idx % 2)
    kinds = ['oversample_m', 'custom', 'concat_m', 'parallel_m'] + (
        ['exponential'] if equal else [])
    unit = units(rng)
    tf, ref = tfmodel.make(rng, n_c, n_t, equal, kinds, unit=unit)
    if ref.kind == 'oversample' and not hasattr(tf, 'transfer_matrix'):
        return
    name = tfmodel.describe(ref)
    fixed = has(ref, 'custom')
    for rnd in range(2):
        if rnd and not fixed:
            n_t = size(rng, 1, 6)
        tau = taus(rng, n_t, equal, unit)
        tf.set_times(tau.copy())
        if rnd == 0 and rng.random() < .5:
            tf(rng.normal(size=(n_t, n_c)))
        zero = ref.apply(np.zeros((n_t, n_c)), tau)
        want = np.zeros((len(zero), n_t, n_c))
        for j in range(n_t):
            e = np.zeros((n_t, n_c))
            e[j] = 1
            want[:, j, :] = ref.apply(e, tau) - zero
        mon.close('transfer_matrix', tf.transfer_matrix, want, 1e-11, 1e-11,
                  f'{name} round {rnd}')
        if not fixed:
            mon.raises('unsorted_absolute_times', Exception,
                       tf.set_absolute_times, np.array([0., 2., 1.]))
            mon.close('transfer_matrix', tf.transfer_matrix, want, 1e-11,
                      1e-11, f'{name} after rejected times')
        y = rng.normal(size=(n_t, n_c))
        mon.close('matrix_action', tf(y), np.einsum(
            'ijk,jk->ik', want, y) + zero, 1e-11, 1e-11, name)
    mon.sig('matrix', name, n_c, n_t)


def padding(mon, rng, idx):
    """Number of padding elements and durations for every bound type."""
    from qopt import transfer_function as q
    b = [None, ('n', 0), ('n', 1), ('n', 3), ('x', 0), ('x', 1), ('x', 2),
         ('right_n', 0), ('right_n', 1), ('right_n', 4)][idx % 10]
    o = int(rng.integers(1, 5))
    n_t = size(rng, 1, 6)
    tau = taus(rng, n_t, False, units(rng))
    r = tfmodel.ROversample(2, o, b)
    for tf in (q.OversamplingTF(num_ctrls=2, bound_type=b, oversampling=o),
               q.OversamplingMTF(num_ctrls=2, bound_type=b, oversampling=o),
               q.ExponentialMTF(awg_rise_time=1., num_ctrls=2, bound_type=b,
                                oversampling=o)):
        tf.set_times(tau)
        mon.check('num_padding_elements',
                  tuple(tf.num_padding_elements) == r.pads(), f'{b} {o}')
        mon.close('x_times', tf.x_times, r.times(tau), 1e-12, 0)
        a, e = r.pads()
        mon.close('duration_conserved', np.sum(
            tf.x_times[a:len(tf.x_times) - e]), np.sum(tau), 1e-12, 0)
    for cls in (q.OversamplingTF, q.OversamplingMTF):
        bad = cls(num_ctrls=1, bound_type=('foo', 1))
        mon.raises('unknown_bound_type', ValueError, bad.set_times, tau)
    mon.sig('padding', b, o, n_t)


WORKLOADS = dict(history=(history, 1500, 20000),
                 matrices=(matrices, 300, 4000),
                 padding=(padding, 60, 400))
REQUIRED = ['value', 'x_times', 'num_x', 'transfer_matrix', 'rejects',
            'rejects_without_times', 'value_after_rejection',
            'num_padding_elements', 'unknown_bound_type']
