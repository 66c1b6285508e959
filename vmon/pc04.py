"""C04: tensor products, partial traces, vectorisation, truncation."""
import itertools

import numpy as np

from qopt import matrix, util
from qopt.matrix import DenseOperator

from . import ref
from .ref import cplx, op, dat, vec, unvec

PROPERTY = 'C04'
RULE = ('Random tensor product structures (1-4 subsystems of dimension 1-4), '
        'every subset of subsystems in any order, random states, unitaries '
        'and operators; oracles are explicit index sums, defining equations '
        '(vec(U rho U^dag) = S vec(rho)), and the polar decomposition.')
ASSUMES = ['column-wise vectorisation as documented']


def ref_ptrace(m, dims, remove):
    n = len(dims)
    keep = [i for i in range(n) if i not in remove]
    kd = [dims[i] for i in keep]
    out = np.zeros((int(np.prod(kd, dtype=int)),) * 2, complex)
    strides = [int(np.prod(dims[i + 1:], dtype=int)) for i in range(n)]
    ks = [int(np.prod(kd[i + 1:], dtype=int)) for i in range(len(kd))]
    idx = list(itertools.product(*[range(x) for x in dims]))
    for r in idx:
        for c in idx:
            if any(r[i] != c[i] for i in remove):
                continue
            i = sum(r[k] * s for k, s in zip(keep, ks))
            j = sum(c[k] * s for k, s in zip(keep, ks))
            out[i, j] += m[sum(a * s for a, s in zip(r, strides)),
                           sum(a * s for a, s in zip(c, strides))]
    return out


def ptrace(mon, rng, idx):
    while True:
        n = int(rng.integers(1, 5))
        dims = [int(x) for x in rng.integers(1, 5, size=n)]
        D = int(np.prod(dims))
        if 2 <= D <= 24:  # 1 x 1: a ket and a matrix look alike
            break
    remove = [int(i) for i in rng.permutation(n)[:rng.integers(0, n + 1)]]
    mon.describe(dims=dims, remove=remove)
    m = cplx(rng, D, D)
    M = op(m)
    want = ref_ptrace(m, dims, remove)
    dd = dims if idx % 2 else tuple(dims)
    rem = list(remove)
    with mon.guard('operand_unchanged', M):
        x = M.ptrace(dims=dd, remove=rem)
    mon.close('ptrace', dat(x), want, 1e-12, 1e-12, f'{dims} {remove}')
    mon.check('arguments_unchanged', rem == remove and list(dd) == dims)
    mon.close('ptrace_preserves_trace', x.tr(), np.trace(m), 1e-11, 1e-11)
    k = ref.ket(rng, D)
    K = op(k)
    with mon.guard('operand_unchanged', K):
        y = K.ptrace(dims=dims, remove=remove)
    mon.close('ptrace_ket', dat(y), ref_ptrace(k @ k.conj().T, dims,
                                               remove), 1e-12, 1e-12)
    w = np.linalg.eigvalsh((dat(y) + dat(y).conj().T) / 2)
    mon.check('reduced_state_positive', w.min() > -1e-10)
    mon.close('reduced_state_normalised', y.tr(), 1., 1e-11)
    z = M.ptrace(dims=dims, remove=remove, do_copy=False)
    mon.check('ptrace_inplace', z is M)
    mon.close('ptrace_inplace', dat(M), want, 1e-12, 1e-12)
    bad = list(dims)
    bad[0] += 1
    mon.raises('ptrace_rejects_dims', (AssertionError, ValueError),
               op(m).ptrace, bad, remove)
    mon.sig('ptrace', dims, remove)


def product_states(mon, rng, idx):
    """ptrace and kron are inverse on products."""
    n = int(rng.integers(2, 4))
    dims = [int(x) for x in rng.integers(2, 4, size=n)]
    rs = [ref.rho(rng, d) for d in dims]
    full = op(rs[0])
    for r in rs[1:]:
        full = full.kron(op(r)) if idx % 2 else full.kron(r.copy())
    want = rs[0]
    for r in rs[1:]:
        want = np.kron(want, r)
    mon.close('kron', dat(full), want, 1e-12, 1e-12)
    for i in range(n):
        x = full.ptrace(dims, [j for j in range(n) if j != i])
        mon.close('ptrace_of_product', dat(x), rs[i], 1e-11, 1e-11)
    if n > 2:
        x = full.ptrace(dims, [1])
        mon.close('ptrace_of_product', dat(x), np.kron(rs[0], rs[2]),
                  1e-11, 1e-11)
    a, b = cplx(rng, dims[0], 1), cplx(rng, 1, dims[1])
    mon.close('kron_rectangular', dat(op(a).kron(op(b))), np.kron(a, b),
              1e-12, 1e-12)
    mon.raises('kron_rejects', (ValueError, NotImplementedError, TypeError),
               full.kron, 3)
    mon.sig('product', dims)


def vectorise(mon, rng, idx):
    d = int(rng.integers(1, 6))
    m = cplx(rng, d, d) if idx % 2 else ref.rho(rng, d)
    u = ref.unitary(rng, d)
    M, U = op(m), op(u)
    with mon.guard('operand_unchanged', M, U, m, u):
        v = matrix.ket_vectorize_density_matrix(M)
        va = matrix.ket_vectorize_density_matrix(m)
        S = matrix.convert_unitary_to_super_operator(U)
        Sa = matrix.convert_unitary_to_super_operator(u)
        mon.check('type_preserved', type(v) is DenseOperator and type(
            va) is np.ndarray and type(S) is DenseOperator and type(
            Sa) is np.ndarray)
        mon.close('vectorise', dat(v), vec(m), 0, 0)
        mon.close('vectorise', va, vec(m), 0, 0)
        mon.close('super_operator', dat(S), ref.unitary_super(u), 1e-12,
                  1e-12)
        mon.close('super_operator', Sa, ref.unitary_super(u), 1e-12, 1e-12)
        back = matrix.convert_ket_vectorized_density_matrix_to_square(v)
        mon.close('unvectorise', dat(back), m, 0, 0)
        backa = matrix.convert_ket_vectorized_density_matrix_to_square(
            va.copy())
        mon.close('unvectorise', backa, m, 0, 0)
        out = matrix.convert_ket_vectorized_density_matrix_to_square(S * v)
        mon.close('evolution', dat(out), u @ m @ u.conj().T, 1e-11, 1e-11)
    # results are private
    v *= 2.
    back *= 3.
    S *= 2.
    mon.close('operand_unchanged', dat(M), m, 0, 0)
    mon.close('operand_unchanged', dat(U), u, 0, 0)
    w = ref.unitary(rng, d)
    W = matrix.convert_unitary_to_super_operator(op(w))
    S = matrix.convert_unitary_to_super_operator(op(u))
    SW = matrix.convert_unitary_to_super_operator(op(u) * op(w))
    mon.close('super_homomorphism', dat(S * W), dat(SW), 1e-11, 1e-11)
    if d > 1:
        mon.raises('vectorise_rejects', ValueError,
                   matrix.ket_vectorize_density_matrix, op(cplx(rng, d, 1)))
        mon.raises('vectorise_rejects', ValueError,
                   matrix.convert_ket_vectorized_density_matrix_to_square,
                   op(cplx(rng, d, d)))
    mon.raises('super_rejects', ValueError,
               matrix.convert_unitary_to_super_operator, 'x')
    mon.sig('vec', d, idx % 2)


def closest(mon, rng, idx):
    d = int(rng.integers(1, 6))
    k = idx % 4
    if k == 0:
        a = cplx(rng, d, d)
    elif k == 1:
        a = ref.unitary(rng, d)
    elif k == 2:
        a = ref.unitary(rng, d + 2)[:d, :d]
    else:
        a = cplx(rng, d, d).real.astype(complex)
    s = np.linalg.svd(a, compute_uv=False)
    if s.min() < 1e-3:
        return
    # polar decomposition by Newton's iteration
    x = a.copy()
    for _ in range(60):
        x = (x + np.linalg.inv(x).conj().T) / 2
    A = op(a)
    with mon.guard('operand_unchanged', A, a):
        c1 = matrix.closest_unitary(A)
        c2 = util.closest_unitary(a)
        mon.close('closest_unitary', dat(c1), x, 0, 1e-8)
        mon.close('closest_unitary_util', np.asarray(c2), x, 0, 1e-8)
        mon.check('type_preserved', type(c1) is DenseOperator)
    y = dat(c1)
    mon.close('closest_is_unitary', y @ y.conj().T, np.eye(d), 0, 1e-10)
    for _ in range(3):
        w = ref.unitary(rng, d)
        for norm in (2, 'fro'):
            mon.check('closest_is_optimal',
                      np.linalg.norm(a - y, norm)
                      <= np.linalg.norm(a - w, norm) + 1e-9)
    mon.sig('closest', d, k)


def truncate(mon, rng, idx):
    d = int(rng.integers(2, 7))
    k = int(rng.integers(1, d + 1))
    ind = [int(i) for i in rng.permutation(d)[:k]]
    if idx % 3:
        ind = sorted(ind)
    m = cplx(rng, d, d)
    M = op(m)
    want = np.array([[m[i, j] for j in ind] for i in ind])
    with mon.guard('operand_unchanged', M):
        x = M.truncate_to_subspace(ind)
        mon.close('truncate', dat(x), want, 0, 0)
        x *= 2.
        mon.close('truncate_none', dat(M.truncate_to_subspace(None)), m,
                  0, 0)
        if np.linalg.svd(want, compute_uv=False).min() > 1e-3:
            y = M.truncate_to_subspace(ind, map_to_closest_unitary=True)
            mon.close('truncate_unitary', dat(y),
                      dat(matrix.closest_unitary(op(want))), 0, 1e-9)
    v = cplx(rng, d, 1)
    for vec_, name in ((v, 'ket'), (v.T.conj().copy(), 'bra')):
        V = op(vec_)
        w = vec_[ind] if name == 'ket' else vec_[:, ind]
        with mon.guard('operand_unchanged', V):
            x = V.truncate_to_subspace(ind)
            mon.close('truncate_' + name, dat(x), w, 0, 0)
            y = V.truncate_to_subspace(ind, map_to_closest_unitary=True)
            mon.close('rescale_' + name, dat(y), w / np.linalg.norm(w),
                      1e-12)
            mon.close('rescaled_norm', y.norm('fro'), 1., 1e-12)
    mon.sig('truncate', d, ind)


WORKLOADS = dict(ptrace=(ptrace, 500, 6000),
                 product_states=(product_states, 150, 1500),
                 vectorise=(vectorise, 300, 3000),
                 closest=(closest, 300, 3000),
                 truncate=(truncate, 300, 3000))
REQUIRED = ['ptrace', 'ptrace_ket', 'ptrace_inplace', 'kron', 'vectorise',
            'unvectorise', 'super_operator', 'closest_unitary',
            'closest_unitary_util', 'closest_is_optimal', 'truncate',
            'truncate_unitary', 'rescale_ket', 'rescale_bra',
            'ptrace_rejects_dims', 'evolution']
