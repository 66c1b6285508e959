"""Reference models. Nothing in here uses qopt.

Everything is computed by a route different from the one in qopt: matrix
exponentials by scaled Taylor series and squaring, Frechet derivatives by the
block matrix theorem, gradients by high order central differences.
"""
import numpy as np

SX = np.array([[0, 1], [1, 0]], complex)
SY = np.array([[0, -1j], [1j, 0]])
SZ = np.array([[1, 0], [0, -1]], complex)
S0 = np.eye(2, dtype=complex)


def expm(a):
    a = np.array(a, dtype=complex)
    n = np.linalg.norm(a, 1)
    s = max(0, int(np.ceil(np.log2(n / 0.25))) if n > 0 else 0)
    b = a / 2. ** s
    out = np.eye(len(a), dtype=complex)
    term = np.eye(len(a), dtype=complex)
    for k in range(1, 22):
        term = term @ b / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def frechet(a, e):
    """d/ds exp(a + s e) at s=0."""
    d = len(a)
    # linear in the direction: taken with the size of a
    size = np.linalg.norm(e)
    size = (size / max(np.linalg.norm(a), 1.)) if size else 1.
    big = np.zeros((2 * d, 2 * d), complex)
    big[:d, :d] = a
    big[d:, d:] = a
    big[:d, d:] = e / size
    return expm(big)[:d, d:] * size


def mem(rng, a):
    """The same numbers in one of several memory layouts."""
    a = np.asarray(a)
    k = rng.integers(6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        # every second element of a larger array
        big = np.full((2 * a.shape[0],) + a.shape[1:], np.nan, a.dtype)
        big[::2] = a
        return big[::2]
    if k == 2:
        return a[::-1].copy()[::-1]
    if k == 3:
        big = np.full(a.shape[:-1] + (a.shape[-1] + 1,), np.nan, a.dtype)
        big[..., :-1] = a
        return big[..., :-1]
    return np.array(a)


def fd_grad(f, x, h=2e-3):
    """Sixth order central differences of the array valued f.

    Returns an array of shape x.shape + f.shape.
    """
    x = np.array(x, dtype=float)
    out = None
    c = ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60))
    for i in np.ndindex(*x.shape):
        g = 0
        for k, w in c:
            xp = x.copy()
            xm = x.copy()
            xp[i] += k * h
            xm[i] -= k * h
            g = g + w * (np.asarray(f(xp)) - np.asarray(f(xm)))
        g = np.asarray(g) / h
        if out is None:
            out = np.zeros(x.shape + g.shape, g.dtype)
        out[i] = g
    return out


def fd_checked(f, x):
    """Differences and an estimate of their absolute error."""
    a = fd_grad(f, x)
    b = fd_grad(f, x, h=7e-4)
    return b, 3 * float(np.max(np.abs(a - b))) if a.size else 0.


# -- random objects --------------------------------------------------------
def cplx(rng, *shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def herm(rng, d, scale=1., kind=None):
    """Hermitian matrix. Degenerate and trivial ones are produced often."""
    kind = kind or rng.choice(
        ['full', 'full', 'full', 'diag', 'real', 'degenerate', 'sparse',
         'traceless', 'proj'])
    a = cplx(rng, d, d)
    h = (a + a.conj().T) / 2
    if kind == 'diag':
        h = np.diag(rng.normal(size=d)).astype(complex)
    elif kind == 'real':
        h = h.real.astype(complex)
    elif kind == 'degenerate':
        u = unitary(rng, d)
        h = u @ np.diag(rng.integers(-1, 2, size=d)) @ u.conj().T
        h = (h + h.conj().T) / 2
    elif kind == 'sparse':
        m = np.triu(rng.random((d, d)) < .5)
        m = m | m.T
        h = h * m
    elif kind == 'traceless':
        h = h - np.trace(h) / d * np.eye(d)
    elif kind == 'proj':
        k = rng.integers(d)
        h = np.zeros((d, d), complex)
        h[k, k] = 1
    return h * scale


def unitary(rng, d):
    q, r = np.linalg.qr(cplx(rng, d, d))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def ket(rng, d):
    k = cplx(rng, d, 1)
    return k / np.linalg.norm(k)


def rho(rng, d, rank=None):
    a = cplx(rng, d, rank or rng.integers(1, d + 1))
    r = a @ a.conj().T
    return r / np.trace(r)


# -- super operators -------------------------------------------------------
def vec(m):
    """Column-wise vectorization."""
    return np.concatenate([m[:, i:i + 1] for i in range(m.shape[1])])


def unvec(v):
    d = int(round(np.sqrt(v.size)))
    v = np.asarray(v).reshape(-1)
    return np.stack([v[i * d:(i + 1) * d] for i in range(d)], axis=1)


def super_of(fun, d):
    """Matrix of the linear map fun on d x d matrices (column-wise)."""
    cols = []
    for j in range(d):
        for i in range(d):
            e = np.zeros((d, d), complex)
            e[i, j] = 1
            cols.append(vec(fun(e)))
    return np.concatenate(cols, axis=1)


def unitary_super(u):
    return super_of(lambda m: u @ m @ u.conj().T, len(u))


def hamiltonian_super(h):
    return super_of(lambda m: -1j * (h @ m - m @ h), len(h))


def dissipator_super(l):
    ld = l.conj().T

    def f(m):
        return l @ m @ ld - .5 * (ld @ l @ m + m @ ld @ l)
    return super_of(f, len(l))


def choi(s):
    """Choi matrix of a super operator in column-wise convention."""
    d = int(round(np.sqrt(len(s))))
    c = np.zeros((d * d, d * d), complex)
    for i in range(d):
        for j in range(d):
            e = np.zeros((d, d), complex)
            e[i, j] = 1
            out = unvec(s @ vec(e))
            c += np.kron(e, out)
    return c


def propagators(hs, tau):
    """exp(-i H_t tau_t)."""
    return [expm(-1j * h * t) for h, t in zip(hs, tau)]


def ordered(props, d):
    """Forward propagators including the identity, latest to the left."""
    out = [np.eye(d, dtype=complex)]
    for p in props:
        out.append(p @ out[-1])
    return out


def hamiltonians(drift, ctrl, u):
    """drift: list of one per time step. u: (num_t, num_ctrl)."""
    hs = []
    for t in range(len(u)):
        h = np.array(drift[t], dtype=complex)
        for k, c in enumerate(ctrl):
            h = h + u[t, k] * c
        hs.append(h)
    return hs


def matrix_sqrt(r):
    w, v = np.linalg.eigh((r + r.conj().T) / 2)
    return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T


def op(a):
    from qopt.matrix import DenseOperator
    return DenseOperator(np.array(a, dtype=complex, copy=True))


def dat(x):
    """Plain array of an operator or array or list of them."""
    if isinstance(x, (list, tuple)):
        return np.stack([dat(y) for y in x])
    d = getattr(x, 'data', None)
    if isinstance(d, np.ndarray):
        return d
    x = np.asarray(x)
    if x.dtype == object:
        return np.stack([dat(y) for y in x])
    return x


def size(rng, low, high, big=None):
    """Mostly from [low, high), now and then larger, up to big."""
    if rng.random() < .04:
        return int(rng.integers(high, (big or 5 * high) + 1))
    return int(rng.integers(low, high))
