"""C01: operator arithmetic is matrix algebra, operands are not modified."""
import numpy as np
import scipy.sparse as sp
import qutip
from qopt.matrix import DenseOperator, VALID_SCALARS

from .ref import cplx, herm, op, dat, unitary

PROPERTY = 'C01'
RULE = ('Random histories of 12-30 operations on a pool of operators (square,'
        ' ket, bra) are run on DenseOperator and on a shadow pool of numpy '
        'arrays; after every operation the whole pool is compared, so that a '
        'modified operand or an aliased result shows up. A case is '
        'non-trivial by its (dimension, set of operations used).')
ASSUMES = ['numpy matrix algebra is the oracle',
           'operators are built from private copies (the constructor is '
           'documented not to copy complex arrays)']


def _scalar(rng):
    t = VALID_SCALARS[rng.integers(len(VALID_SCALARS))]
    v = float(rng.choice([-2, -1, 0, 1, 2, 3]))
    if t in (float, np.float16, np.float32, np.float64, complex,
             np.complex64, np.complex128):
        v = float(np.float16(rng.normal()))
    if t in (complex, np.complex64, np.complex128):
        return t(complex(v, float(np.float16(rng.normal()))))
    if t in (int, np.int8, np.int16, np.int32, np.int64):
        return t(int(v))
    return t(v)


def _array(rng, d):
    k = rng.integers(3)
    if k == 0:
        return rng.integers(-2, 3, size=(d, d))
    if k == 1:
        return rng.normal(size=(d, d))
    return cplx(rng, d, d)


OPS = ['add', 'sub', 'mul', 'adds', 'subs', 'muls', 'rmuls', 'divs', 'adda',
       'suba', 'mula', 'rmula', 'diva', 'iadd', 'isub', 'imul', 'iadds',
       'isubs', 'imuls', 'idivs', 'iadda', 'isuba', 'imula', 'idiva', 'dag',
       'conj', 'conjugate', 'transpose', 'dag_i', 'conj_i', 'transpose_i',
       'copy', 'kron_tr', 'identity', 'set', 'matvec', 'outer', 'clean',
       'ctor']


def history(mon, rng, idx):
    d = int(rng.integers(1, 6))
    pool = [_array(rng, d).astype(complex) for _ in range(4)]
    ops = [op(a) for a in pool]
    used = []
    for step in range(int(rng.integers(12, 31))):
        o = OPS[rng.integers(len(OPS))]
        i, j, k = rng.integers(4, size=3)
        A, B = ops[i], ops[j]
        a, b = pool[i].copy(), pool[j].copy()
        s = _scalar(rng)
        c = complex(s)
        arr = _array(rng, d)
        arr0 = arr.copy()
        res = want = None
        inplace = False
        if o == 'add':
            res, want = A + B, a + b
        elif o == 'sub':
            res, want = A - B, a - b
        elif o == 'mul':
            res, want = A * B, a @ b
        elif o == 'adds':
            res, want = A + s, a + c
        elif o == 'subs':
            res, want = A - s, a - c
        elif o == 'muls':
            res, want = A * s, a * c
        elif o == 'rmuls':
            res, want = s * A, a * c
        elif o == 'divs':
            if c == 0:
                continue
            res, want = A / s, a / c
        elif o == 'adda':
            res, want = A + arr, a + arr
        elif o == 'suba':
            res, want = A - arr, a - arr
        elif o == 'mula':
            res, want = A * arr, a @ arr
        elif o == 'rmula':
            res, want = arr * A, arr @ a
        elif o == 'diva':
            arr = arr + 10
            arr0 = arr.copy()
            res, want = A / arr, a / arr
        elif o == 'iadd':
            res = A
            res += B
            want, inplace = a + b, True
        elif o == 'isub':
            res = A
            res -= B
            want, inplace = a - b, True
        elif o == 'imul':
            res = A
            res *= B
            want, inplace = a @ b, True
        elif o == 'iadds':
            res = A
            res += s
            want, inplace = a + c, True
        elif o == 'isubs':
            res = A
            res -= s
            want, inplace = a - c, True
        elif o == 'imuls':
            res = A
            res *= s
            want, inplace = a * c, True
        elif o == 'idivs':
            if c == 0:
                continue
            res = A
            res /= s
            want, inplace = a / c, True
        elif o == 'iadda':
            res = A
            res += arr
            want, inplace = a + arr, True
        elif o == 'isuba':
            res = A
            res -= arr
            want, inplace = a - arr, True
        elif o == 'imula':
            res = A
            res *= arr
            want, inplace = a @ arr, True
        elif o == 'idiva':
            arr = arr + 10
            arr0 = arr.copy()
            res = A
            res /= arr
            want, inplace = a / arr, True
        elif o == 'dag':
            res, want = A.dag(), a.conj().T
        elif o == 'conj':
            res, want = A.conj(), a.conj()
        elif o == 'conjugate':
            res, want = A.conjugate(), a.conj()
        elif o == 'transpose':
            res, want = A.transpose(), a.T
        elif o == 'dag_i':
            res, want, inplace = A.dag(do_copy=False), a.conj().T, True
        elif o == 'conj_i':
            res, want, inplace = A.conj(do_copy=False), a.conj(), True
        elif o == 'transpose_i':
            res, want, inplace = A.transpose(do_copy=False), a.T, True
        elif o == 'copy':
            res, want = A.copy(), a
        elif o == 'kron_tr':
            x = A.kron(B)
            mon.close('kron', dat(x), np.kron(a, b), 1e-12, 1e-12)
            mon.close('kron_mixed_product', dat(x * x),
                      np.kron(a @ a, b @ b), 1e-11, 1e-11)
        elif o == 'identity':
            res, want = A.identity_like(), np.eye(d)
        elif o == 'set':
            p, q = rng.integers(d, size=2)
            A[p, q] = c
            a[p, q] = c
            res, want, inplace = A, a, True
        elif o == 'matvec':
            v = cplx(rng, d, 1)
            V = op(v)
            mon.close('ket_product', dat(A * V), a @ v, 1e-12, 1e-12)
            mon.close('bra_product', dat(V.dag() * A), v.conj().T @ a,
                      1e-12, 1e-12)
            mon.close('operand_unchanged', dat(V), v, 0, 0)
        elif o == 'outer':
            v = cplx(rng, d, 1)
            V = op(v)
            mon.close('outer_product', dat(V * V.dag()), v @ v.conj().T,
                      1e-12, 1e-12)
            mon.close('inner_product', dat(V.dag() * V),
                      v.conj().T @ v, 1e-12, 1e-12)
        elif o == 'clean':
            A.clean()
            res, want, inplace = A, a, True
        elif o == 'ctor':
            res, want = DenseOperator(A).copy(), a
        used.append(o)
        if res is not None:
            mon.check('result_type', type(res) is DenseOperator,
                      f'{o}: {type(res)}')
            ok = mon.close('result', dat(res), want, 1e-12, 1e-12,
                           f'operation {o} {type(s).__name__} step {step}')
            mon.check('result_dtype', dat(res).dtype == np.complex128, o)
            if inplace:
                mon.check('inplace_returns_self', res is A, o)
                pool[i] = want
            else:
                mon.check('new_instance', res is not A and res is not B, o)
                ops[k], pool[k] = res, want
            if not ok:
                return
        mon.check('operand_array_unchanged', np.array_equal(arr, arr0), o)
        for n in range(4):
            if not mon.close('pool', dat(ops[n]), pool[n], 1e-12, 1e-12,
                             f'member {n} after {o} on {i},{j}->{k} '
                             f'step {step}'):
                return
            if np.max(np.abs(pool[n])) > 1e4:
                pool[n] = _array(rng, d).astype(complex)
                ops[n] = op(pool[n])
            # continue from the observed value, so that rounding errors do
            # not accumulate; private copy keeps aliasing visible
            else:
                pool[n] = np.array(dat(ops[n]), copy=True)
    mon.event('history_steps', len(used))
    mon.sig(d, *sorted(set(used)))
    mon.describe(d=d, operations=used)


def rectangular(mon, rng, idx):
    """Kets, bras and other matrices which are not square."""
    k, n, m, q = (int(v) for v in rng.choice([1, 1, 2, 3, 4, 5], size=4))
    a, b, c = cplx(rng, k, n), cplx(rng, n, m), cplx(rng, m, q)
    real = bool(rng.random() < .3)
    arr = b.real.copy() if real else b.copy()
    A, B, C = op(a), op(b), op(c)
    tol = 1e-12
    with mon.guard('query_does_not_modify', A, B, C):
        mon.close('rectangular_product', dat(A * B), a @ b, tol, tol)
        mon.close('rectangular_product', dat(A * arr), a @ arr, tol, tol)
        mon.close('rectangular_product', dat(arr * C), arr @ c, tol, tol)
        mon.close('associative', dat((A * B) * C), dat(A * (B * C)), 0, 1e-11)
        mon.close('rectangular_kron', dat(A.kron(B)), np.kron(a, b), tol, tol)
        mon.close('rectangular_kron', dat(A.kron(arr)), np.kron(a, arr), tol,
                  tol)
        mon.close('rectangular_kron', dat(B.kron(A)), np.kron(b, a), tol, tol)
        for name, f in (('dag', lambda x: x.conj().T),
                        ('transpose', lambda x: x.T), ('conj', np.conj)):
            x = getattr(A, name)()
            mon.close('rectangular_' + name, dat(x), f(a), 0, 0)
            mon.check('shape', x.shape == f(a).shape)
            x = A.copy()
            mon.check('inplace_returns_self', getattr(x, name)(
                do_copy=False) is x)
            mon.close('rectangular_' + name, dat(x), f(a), 0, 0, 'in place')
        x = A + A
        x -= .5 * A
        mon.close('rectangular_sum', dat(x / 3), a / 2, tol, tol)
        mon.close('flatten', A.flatten(), a.ravel(), 0, 0)
        mon.close('norm_fro', A.norm(), np.sqrt(np.sum(np.abs(a) ** 2)), tol)
        if m != k:
            mon.raises('mismatch_refused', ValueError, lambda: B * A)
    mon.check('operand_array_unchanged', np.array_equal(
        arr, b.real if real else b))
    mon.sig('rectangular', k, n, m, q)


def queries(mon, rng, idx):
    d = int(rng.integers(1, 7))
    a = _array(rng, d).astype(complex)
    if idx % 4 == 0:
        a = herm(rng, d)
    if idx % 7 == 0:
        a = np.zeros((d, d), complex)
    A = op(a)
    with mon.guard('query_does_not_modify', A):
        mon.close('trace', A.tr(), np.sum(np.diag(a)), 1e-12, 1e-12)
        mon.close('flatten', A.flatten(),
                  np.array([a[i, j] for i in range(d) for j in range(d)]))
        f = A.flatten()
        f += 1
        mon.close('flatten_is_private', dat(A), a, 0, 0)
        s = np.sqrt(np.clip(np.linalg.eigvalsh(a.conj().T @ a), 0, None))
        mon.close('norm_fro', A.norm('fro'),
                  np.sqrt(np.sum(np.abs(a) ** 2)), 1e-12, 1e-12)
        mon.close('norm_default', A.norm(),
                  np.sqrt(np.sum(np.abs(a) ** 2)), 1e-12, 1e-12)
        mon.close('norm_nuc', A.norm('nuc'), np.sum(s), 1e-6, 1e-6)
        mon.close('norm_2', A.norm(2), np.max(s), 1e-6, 1e-6)
        mon.close('norm_1', A.norm(1), np.max(np.sum(np.abs(a), 0)),
                  1e-12, 1e-12)
        mon.close('norm_inf', A.norm(np.inf),
                  np.max(np.sum(np.abs(a), 1)), 1e-12, 1e-12)
        mon.check('shape', A.shape == (d, d))
        for i in range(d):
            for j in range(d):
                mon.close('getitem', A[i, j], a[i, j], 0, 0)
        repr(A)
        w, v = A.spectral_decomposition()
        n = np.linalg.norm(a) + 1
        mon.close('eigen_equation', a @ v, v * w, 0, 1e-10 * n)
        mon.close('eigenvalues_sum', np.sum(w), np.trace(a), 0, 1e-10 * n)
        mon.close('eigenvectors_normalised', np.linalg.norm(v, axis=0),
                  np.ones(d), 1e-10)
    h = herm(rng, d)
    H = op(h)
    with mon.guard('query_does_not_modify', H):
        w, v = H.spectral_decomposition(hermitian=True)
    mon.close('eigen_equation_hermitian', h @ v, v * w, 0, 1e-11)
    mon.close('eigenvectors_unitary', v.conj().T @ v, np.eye(d), 0, 1e-11)
    mon.check('eigenvalues_real', np.isrealobj(w) or np.all(
        np.abs(np.imag(w)) < 1e-12))
    for bad in ('abc', None, [1, 2], {}):
        exc = (NotImplementedError, ValueError, TypeError)
        with mon.guard('rejected_operation_leaves_operand', A):
            mon.raises('rejects', exc, lambda: A * bad)
            mon.raises('rejects', exc, lambda: A + bad)
            mon.raises('rejects', exc, lambda: A - bad)
            mon.raises('rejects', exc, lambda: A / bad)
    mon.sig('queries', d, idx % 28)


def constructors(mon, rng, idx):
    d = int(rng.integers(1, 6))
    a = _array(rng, d)
    c = a.astype(complex)
    mon.close('ctor_array', dat(DenseOperator(a.copy())), c, 0, 0)
    mon.close('ctor_csr', dat(DenseOperator(sp.csr_matrix(a))), c, 0, 0)
    q = qutip.Qobj(c)
    Q = DenseOperator(q)
    mon.close('ctor_qobj', dat(Q), c, 0, 0)
    Q *= 2
    mon.close('ctor_qobj_private', q.full(), c, 0, 0)
    A = op(c)
    B = A.copy()
    B += 1
    mon.close('copy_is_deep', dat(A), c, 0, 0)
    r = DenseOperator(np.array(a.real, dtype=float))
    mon.check('ctor_complex', dat(r).dtype == np.complex128)
    mon.raises('ctor_rejects', ValueError, DenseOperator, [[1, 2], [3, 4]])
    mon.raises('ctor_rejects', ValueError, DenseOperator, 'x')
    v = cplx(rng, d, 1)
    mon.close('ctor_ket', dat(DenseOperator(qutip.Qobj(v))), v, 0, 0)
    paulis = dict(pauli_0=[[1, 0], [0, 1]], pauli_x=[[0, 1], [1, 0]],
                  pauli_y=[[0, -1j], [1j, 0]], pauli_z=[[1, 0], [0, -1]],
                  pauli_m=[[0, 0], [1, 0]], pauli_p=[[0, 1], [0, 0]])
    for n, m in paulis.items():
        x = getattr(DenseOperator, n)()
        mon.close(n, dat(x), np.array(m), 0, 0)
        x += 1
        mon.close(n + '_fresh', dat(getattr(DenseOperator, n)()),
                  np.array(m), 0, 0)
    u = unitary(rng, d)
    U = op(u)
    mon.close('unitary_dag', dat(U * U.dag()), np.eye(d), 0, 1e-12)
    mon.sig('ctor', d, a.dtype)


WORKLOADS = dict(history=(history, 900, 12000),
                 queries=(queries, 200, 2000),
                 rectangular=(rectangular, 200, 2000),
                 constructors=(constructors, 100, 600))
REQUIRED = ['result', 'pool', 'inplace_returns_self', 'new_instance', 'kron',
            'operand_array_unchanged', 'eigen_equation', 'rejects',
            'ctor_qobj', 'ctor_csr', 'norm_nuc', 'trace',
            'rectangular_kron', 'rectangular_product', 'mismatch_refused']
