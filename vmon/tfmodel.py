"""Random transfer and amplitude functions with independent reference models.

A reference model has n_ctrl, times(tau) -> x_times and apply(y, tau) -> x,
written as explicit loops over time steps.
"""
import numpy as np

from .lean import lean

MODES = ['nearest', 'reflect', 'constant', 'mirror', 'wrap']


def ext_index(i, n, mode):
    """Index of the extended signal or None for a padded constant."""
    if 0 <= i < n:
        return i
    if mode == 'nearest':
        return 0 if i < 0 else n - 1
    if mode == 'constant':
        return None
    if mode == 'wrap':
        return i % n
    if mode == 'reflect':
        i = i % (2 * n)
        return i if i < n else 2 * n - 1 - i
    if mode == 'mirror':
        if n == 1:
            return 0
        p = 2 * n - 2
        i = i % p
        return i if i < n else p - i
    raise ValueError(mode)


class RIdentity:
    kind = 'identity'

    def __init__(self, n_ctrl):
        self.n_ctrl = n_ctrl

    def times(self, tau):
        return np.array(tau, float)

    def apply(self, y, tau):
        return np.array(y, float)


class ROversample:
    kind = 'oversample'

    def __init__(self, n_ctrl, over, bound, offset=0.):
        self.n_ctrl, self.over, self.bound, self.offset = (n_ctrl, over,
                                                           bound, offset)

    def pads(self):
        if self.bound is None:
            return 0, 0
        b, n = self.bound
        return {'n': (n, n), 'x': (n * self.over, n * self.over),
                'right_n': (0, n)}[b]

    def times(self, tau):
        a, b = self.pads()
        out = [tau[0] / self.over] * a
        for t in tau:
            out += [t / self.over] * self.over
        return np.array(out + [tau[-1] / self.over] * b)

    def apply(self, y, tau):
        a, b = self.pads()
        z = np.zeros(self.n_ctrl)
        rows = [z] * a
        for r in y:
            rows += [r] * self.over
        return np.array(rows + [z] * b) + self.offset


class RConvolution(RIdentity):
    kind = 'convolution'

    def __init__(self, n_ctrl, kernel, mode, cval):
        self.n_ctrl, self.mode, self.cval = n_ctrl, mode, cval
        self.kernel = kernel if kernel.ndim == 2 else kernel[:, None]

    def apply(self, y, tau):
        n, m = y.shape
        k0, k1 = self.kernel.shape
        out = np.zeros((n, m))
        for i in range(n):
            for j in range(m):
                for a in range(k0):
                    for b in range(k1):
                        p = ext_index(i + k0 // 2 - a, n, self.mode)
                        q = ext_index(j + k1 // 2 - b, m, self.mode)
                        v = self.cval if p is None or q is None else y[p, q]
                        out[i, j] += self.kernel[a, b] * v
        return out


class RGaussian(RIdentity):
    kind = 'gaussian'

    def __init__(self, n_ctrl, sigma, order, mode, truncate):
        self.n_ctrl, self.mode = n_ctrl, mode
        r = int(truncate * sigma + .5)
        j = np.arange(-r, r + 1)
        w = np.exp(-j ** 2 / (2. * sigma ** 2))
        w /= w.sum()
        if order == 1:
            w = w * (-j / sigma ** 2)
        self.r, self.w = r, w

    def apply(self, y, tau):
        n, m = y.shape
        out = np.zeros((n, m))
        for i in range(n):
            for j in range(-self.r, self.r + 1):
                p = ext_index(i - j, n, self.mode)
                if p is not None:
                    out[i] += self.w[j + self.r] * y[p]
        return out


class RExponential(ROversample):
    """Exponential saturation towards the value of the current step."""
    kind = 'exponential'

    def __init__(self, n_ctrl, rise, over, bound, offset):
        super().__init__(n_ctrl, over, bound, offset or 0.)
        self.rise = rise

    def apply(self, y, tau):
        a, b = self.pads()
        dt = tau[0] / self.over
        z = np.zeros(self.n_ctrl)
        rows = [z] * a
        last = z
        for r in y:
            for j in range(self.over):
                s = np.exp(-(j + 1) * dt / self.rise)
                rows.append(last * s + r * (1 - s))
            last = r
        for i in range(b):
            rows.append(last * np.exp(-(i + 1) * dt / self.rise))
        return np.array(rows) + self.offset


class RCustom:
    kind = 'custom'

    def __init__(self, n_ctrl, matrix, x_times, offset, bound=None):
        self.n_ctrl, self.matrix = n_ctrl, matrix
        self.x_times, self.offset = x_times, offset or 0.
        self.bound = bound

    def times(self, tau):
        if self.x_times is not None:
            return np.array(self.x_times)
        n_x, n_y = self.matrix.shape[:2]
        if self.bound is None:
            over = n_x // n_y
        elif self.bound[0] == 'n':
            over = (n_x - 2 * self.bound[1]) // n_y
        elif self.bound[0] == 'x':
            over = n_x // (2 * self.bound[1] + n_y)
        else:
            over = (n_x - self.bound[1]) // n_y
        return ROversample(1, over, self.bound).times(tau)

    def apply(self, y, tau):
        n_x, n_y, n_c = self.matrix.shape
        out = np.zeros((n_x, n_c))
        for i in range(n_x):
            for k in range(n_c):
                out[i, k] = sum(self.matrix[i, j, k] * y[j, k]
                                for j in range(n_y)) + self.offset
        return out


class RConcat:
    kind = 'concat'

    def __init__(self, a, b):
        self.a, self.b, self.n_ctrl = a, b, a.n_ctrl

    def times(self, tau):
        return self.b.times(self.a.times(tau))

    def apply(self, y, tau):
        return self.b.apply(self.a.apply(y, tau), self.a.times(tau))


class RParallel:
    kind = 'parallel'

    def __init__(self, a, b):
        self.a, self.b, self.n_ctrl = a, b, a.n_ctrl + b.n_ctrl

    def times(self, tau):
        return self.a.times(tau)

    def apply(self, y, tau):
        k = self.a.n_ctrl
        return np.concatenate((self.a.apply(y[:, :k], tau),
                               self.b.apply(y[:, k:], tau)), axis=1)


def describe(r):
    if isinstance(r, (RConcat, RParallel)):
        return f'{r.kind}({describe(r.a)},{describe(r.b)})'
    b = getattr(r, 'bound', None)
    o = getattr(r, 'over', None)
    m = getattr(r, 'mode', None)
    return r.kind + ''.join(f'-{v}' for v in (b, o, m) if v is not None)


def rand_bound(rng):
    b = rng.integers(4)
    n = int(rng.integers(0, 4))
    return [None, ('n', n), ('x', n), ('right_n', n)][b]


def rand_over(rng):
    return int(rng.integers(1, 5))


def _offset(rng):
    return float(rng.normal()) if rng.random() < .5 else 0.


def make(rng, n_ctrl, n_t, equal, kinds=None, depth=0, unit=1.):
    """Returns (transfer function, reference model)."""
    from qopt import transfer_function as q
    if kinds is None:
        kinds = ['identity', 'oversample', 'oversample_m', 'convolution',
                 'gaussian', 'custom']
        if equal:
            kinds.append('exponential')
        if depth < 2:
            kinds += ['concat', 'concat_m', 'parallel', 'parallel_m']
    k = kinds[rng.integers(len(kinds))]
    if k == 'identity':
        return lean(rng, q.IdentityTF, num_ctrls=n_ctrl), RIdentity(n_ctrl)
    if k == 'oversample':
        b, o = rand_bound(rng), rand_over(rng)
        return (lean(rng, q.OversamplingTF, num_ctrls=n_ctrl, bound_type=b,
                                 oversampling=o),
                ROversample(n_ctrl, o, b))
    if k == 'oversample_m':
        b, o, f = rand_bound(rng), rand_over(rng), _offset(rng)
        return (lean(rng, q.OversamplingMTF, num_ctrls=n_ctrl, bound_type=b,
                                  oversampling=o, offset=f),
                ROversample(n_ctrl, o, b, f))
    if k == 'convolution':
        m = MODES[rng.integers(5)]
        c = float(rng.normal()) if rng.random() < .5 else 0.
        size = int(rng.choice([1, 2, 3, 3, 4, 5]))
        if rng.random() < .7 or n_ctrl == 1:
            ker = rng.normal(size=size)
        else:
            ker = rng.normal(size=(size, int(rng.integers(1, 4))))
        return (lean(rng, q.ConvolutionTF, kernel=ker.copy(), mode=m, num_ctrls=n_ctrl,
                                cval=c),
                RConvolution(n_ctrl, ker, m, c))
    if k == 'gaussian':
        m = MODES[rng.integers(5)]
        s, o = float(rng.uniform(.4, 2.)), int(rng.random() < .3)
        t = float(rng.choice([2., 4.]))
        return (lean(rng, q.GaussianConvolution, sigma=s, num_ctrls=n_ctrl, order=o,
                                      mode=m, truncate=t),
                RGaussian(n_ctrl, s, o, m, t))
    if k == 'exponential':
        b, o = rand_bound(rng), rand_over(rng)
        f = [None, float(rng.normal())][rng.integers(2)]
        r = float(rng.uniform(.1, 2.)) * unit
        if b is None and rng.random() < .5:
            return (lean(rng, q.ExponentialMTF, awg_rise_time=r, oversampling=o,
                                     num_ctrls=n_ctrl, offset=f),
                    RExponential(n_ctrl, r, o, ('x', 0), f))
        return (lean(rng, q.ExponentialMTF, awg_rise_time=r, oversampling=o,
                                 bound_type=b, offset=f, num_ctrls=n_ctrl),
                RExponential(n_ctrl, r, o, b, f))
    if k == 'custom':
        o = rand_over(rng)
        b = rand_bound(rng)
        n_x = len(ROversample(1, o, b).times(np.ones(n_t)))
        xt = None
        if rng.random() < .4:
            n_x = int(rng.integers(1, 7))
            xt = rng.uniform(.1, 1, size=n_x) * unit
            b = None
        mat = rng.normal(size=(n_x, n_t, n_ctrl))
        f = [None, float(rng.normal())][rng.integers(2)]
        return (lean(rng, q.CustomMTF, transfer_matrix=mat.copy(),
                            x_times=None if xt is None else xt.copy(),
                            bound_type=b, offset=f, num_ctrls=n_ctrl),
                RCustom(n_ctrl, mat, xt, f, b))
    if k in ('concat', 'concat_m'):
        sub = None
        if k == 'concat_m':
            sub = ['oversample_m', 'custom'] + (
                ['exponential'] if equal else [])
        a, ra = make(rng, n_ctrl, n_t, equal, sub, depth + 1, unit)
        xt = ra.times(np.full(n_t, .5 * unit))
        eq2 = equal and np.allclose(xt, xt[0], atol=0)
        sub2 = sub
        if sub is not None and not eq2:
            sub2 = ['oversample_m', 'custom']
        b, rb = make(rng, n_ctrl, len(xt), eq2, sub2, depth + 1, unit)
        cls = q.ConcatenateTF if k == 'concat' else q.ConcatenateMTF
        return cls(a, b), RConcat(ra, rb)
    # parallel: both parts must produce the same times
    if n_ctrl < 2:
        return make(rng, n_ctrl, n_t, equal, ['oversample'], depth + 1,
                    unit)
    n1 = int(rng.integers(1, n_ctrl))
    o, bnd = rand_over(rng), rand_bound(rng)

    def part(n):
        j = rng.integers(3 if k == 'parallel' else 2)
        if j == 1 and equal:
            r = float(rng.uniform(.1, 2.)) * unit
            f = _offset(rng)
            return (lean(rng, q.ExponentialMTF, awg_rise_time=r, oversampling=o,
                                     bound_type=bnd, offset=f, num_ctrls=n),
                    RExponential(n, r, o, bnd, f))
        if j == 2:
            return (lean(rng, q.OversamplingTF, num_ctrls=n, bound_type=bnd,
                                     oversampling=o),
                    ROversample(n, o, bnd))
        f = _offset(rng)
        return (lean(rng, q.OversamplingMTF, num_ctrls=n, bound_type=bnd,
                                  oversampling=o, offset=f),
                ROversample(n, o, bnd, f))
    a, ra = part(n1)
    b, rb = part(n_ctrl - n1)
    cls = q.ParallelTF if k == 'parallel' else q.ParallelMTF
    return cls(a, b), RParallel(ra, rb)


# -- amplitude functions ---------------------------------------------------
UNARY = {
    'sin': (np.sin, np.cos),
    'square': (lambda x: x * x, lambda x: 2 * x),
    'tanh': (np.tanh, lambda x: 1 - np.tanh(x) ** 2),
    'exp': (lambda x: np.exp(.5 * x), lambda x: .5 * np.exp(.5 * x)),
    'affine': (lambda x: 2. * x - .3, lambda x: 2.),
    'intval': (lambda x: 0 if x < -50 else x, lambda x: 1),
}


def make_amp(rng, n_ctrl, kind=None):
    """(amplitude function, n_par, u(x), du(x) (t, par, ctrl), name)."""
    from qopt import amplitude_functions as q
    kind = kind or ['identity', 'none', 'unary', 'custom'][rng.integers(4)]
    if kind in ('identity', 'none'):
        def du(x):
            return np.repeat(np.eye(n_ctrl)[None], len(x), 0)
        return (q.IdentityAmpFunc() if kind == 'identity' else None, n_ctrl,
                lambda x: np.array(x), du, kind)
    if kind == 'unary':
        name = list(UNARY)[rng.integers(len(UNARY))]
        f, d = UNARY[name]

        def u(x):
            return np.array([[float(f(v)) for v in r] for r in x])

        def du(x):
            return np.array([np.diag([float(d(v)) for v in r]) for r in x])
        return q.UnaryAnalyticAmpFunc(f, d), n_ctrl, u, du, 'unary-' + name
    n_par = int(rng.integers(1, 4))
    a = rng.normal(size=(n_ctrl, n_par))
    b = rng.normal(size=(n_ctrl, n_par, n_par)) * .3

    def u(x):
        return np.array([a @ r + np.einsum('kij,i,j->k', b, r, r)
                         for r in x])

    def du(x):
        return np.array([(a + np.einsum('kij,j->ki', b, r)
                          + np.einsum('kij,i->kj', b, r)).T for r in x])
    return q.CustomAmpFunc(u, du), n_par, u, du, f'custom-{n_par}'
