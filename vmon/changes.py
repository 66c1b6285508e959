"""In-place changes of an operator, tracked by plain arrays."""
import copy
import pickle

import numpy as np

from .ref import cplx, herm, op


def change(rng, A, a, skew=True):
    """Changes the operator A with content a, returns (A, a, name).

    The content stays skew Hermitian if it was and if `skew` is set.
    """
    d = len(a)
    k = int(rng.integers(15))
    r = float(rng.choice([-1., .5, 2., .3]))
    z = r if skew else complex(r, rng.normal())
    b = -1j * herm(rng, d) if skew else cplx(rng, d, d)
    i, j = (int(x) for x in rng.integers(d, size=2))
    if k == 0:
        A *= z
        return A, a * z, 'imul'
    if k == 1:
        A += op(b.copy())
        return A, a + b, 'iadd'
    if k == 2:
        A -= op(b.copy())
        return A, a - b, 'isub'
    if k == 3:
        A /= z
        return A, a / z, 'itruediv'
    if k in (4, 5):
        a = a.copy()
        v = 1j * rng.normal() if skew and i == j else complex(*rng.normal(
            size=2))
        for p, w in ((i, j), v), ((j, i), -np.conj(v)):
            if w is not v and (not skew or i == j):
                continue
            if k == 4:
                A[p] = w
            else:
                A.data[p] = w
            a[p] = w
        return A, a, ['setitem', 'data_item'][k - 4]
    if k == 6:
        A.data = b.astype(complex)
        return A, b, 'data_replaced'
    if k == 7:
        A.data *= r
        return A, a * r, 'data_scaled'
    if k == 8:
        out = A.dag(do_copy=False)
        return (A if out is None else out), a.conj().T, 'dag'
    if k == 9:
        out = A.conj(do_copy=False)
        return (A if out is None else out), a.conj(), 'conj'
    if k == 10:
        out = A.transpose(do_copy=False)
        return (A if out is None else out), a.T, 'transpose'
    if k == 11:
        B = A.copy()
        A *= 3.
        return B, a, 'copy'
    if k == 12:
        B = copy.deepcopy(A)
        A *= 3.
        return B, a, 'deepcopy'
    if k == 13:
        return pickle.loads(pickle.dumps(A)), a, 'pickle'
    A.data[...] = b
    return A, b, 'data_filled'
