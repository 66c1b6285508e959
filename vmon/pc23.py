"""C23: rotation angles and axes of single qubit gates."""
import numpy as np

from . import gen, ref
from .ref import op

PROPERTY = 'C23'
RULE = ('Random 2x2 unitaries given by angle (generic, close to 0, close to '
        'and equal to pi), axis (generic, along coordinate axes, with tiny '
        'components) and global phase (random and multiples of a quarter '
        'turn), exact and with rounding errors of matrix products, and '
        'final propagators of qubit pulses. The gate is rebuilt from the '
        'returned angle and axis with an explicit rotation formula; '
        'non-unitary matrices have to be refused. Distinct by the classes of '
        'angle, axis and phase.')
ASSUMES = ['rotations by less than 2e-6 may be reported as identity (the '
           'documented cut-off of the implementation is 1e-6 in the sine of '
           'half the angle)']

S = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]],
             dtype=complex)


def rotation(b, n):
    return np.cos(b / 2) * np.eye(2) + 1j * np.sin(b / 2) * np.einsum(
        'k,kij->ij', n, S)


def draw(rng):
    ang = ['generic', 'small', 'near pi', 'pi', 'half'][rng.integers(5)]
    b = dict(generic=rng.uniform(.01, np.pi), pi=np.pi, half=np.pi / 2,
             small=10 ** rng.uniform(-5.5, -1))
    b['near pi'] = np.pi - 10 ** rng.uniform(-12, -1)
    ax = ['generic', 'coordinate', 'plane', 'tiny'][rng.integers(4)]
    n = rng.normal(size=3)
    if ax == 'coordinate':
        n = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
    elif ax == 'plane':
        n[rng.integers(3)] = 0
    elif ax == 'tiny':
        n = n * 10. ** rng.uniform(-10, 0, size=3)
    n = n / np.linalg.norm(n)
    ph = ['none', 'quarter', 'random'][rng.integers(3)]
    al = dict(none=0., quarter=np.pi / 2 * rng.integers(4),
              random=rng.uniform(0, 2 * np.pi))[ph]
    return b[ang], n, al, (ang, ax, ph)


def phase_free(u, v):
    """Distance up to a global phase."""
    o = np.trace(v.conj().T @ u)
    return np.linalg.norm(u - v * o / abs(o))


def judge(mon, u, b, n, note):
    from qopt.cost_functions import angle_axis_representation
    arg = u if note[-1] else op(u)
    keep = u.copy()
    beta, m = angle_axis_representation(arg)
    mon.check('input_unchanged', np.array_equal(
        getattr(arg, 'data', arg) if not isinstance(arg, np.ndarray)
        else arg, keep), note)
    m = np.asarray(m)
    mon.check('axis_is_real', m.shape == (3,) and not np.iscomplexobj(m),
              f'{m} {note}')
    mon.check('axis_normalized', abs(np.linalg.norm(m) - 1) < 1e-7,
              f'{m} {note}')
    mon.check('angle_range', -1e-12 <= beta <= np.pi + 1e-12 and not
              np.iscomplexobj(beta), f'{beta} {note}')
    mon.close('gate_rebuilt', phase_free(u, rotation(beta, m)), 0, 0, 3e-8,
              lambda: f'{beta} {m} {note}')
    if b is None:
        return beta, m
    mon.close('angle', beta, b, 0, 3e-8, f'{note}')
    if np.pi - b > 1e-3 and b > 1e-4:
        mon.close('axis', m, n, 0, 3e-8 + 1e-10 / b, f'{note}')
    elif b > 1:
        # axes are equal or (for half turns) opposite
        d = min(np.linalg.norm(m - n), np.linalg.norm(m + n))
        mon.close('axis_of_half_turn', d, 0, 0, 3e-8, f'{note}')
    return beta, m


def gates(mon, rng, idx):
    b, n, al, cls = draw(rng)
    u = np.exp(1j * al) * rotation(b, n)
    noisy = bool(rng.random() < .5)
    if noisy:
        w = ref.unitary(rng, 2)
        u = w.conj().T @ (w @ u)
    note = f'{cls} noisy={noisy}', bool(rng.random() < .5)
    mon.describe(angle=b, axis=n, phase=al)
    beta, m = judge(mon, u, b, n, note)
    # global phase, inverse
    from qopt.cost_functions import angle_axis_representation as aa
    if np.pi - b > 1e-3 and b > 1e-4:
        b2, m2 = aa(u * np.exp(1j * rng.uniform(0, 7)))
        mon.close('phase_independent', [b2, *m2], [beta, *m], 0, 1e-7
                  + 1e-10 / b, note)
        b2, m2 = aa(u.conj().T)
        mon.close('inverse', [b2, *m2], [beta, *(-np.asarray(m))], 0, 1e-7
                  + 1e-10 / b, note)
        # rotating the frame rotates the axis
        w = ref.unitary(rng, 2)
        r = np.einsum('iab,bc,jcd,da->ij', S, w, S, w.conj().T).real / 2
        b2, m2 = aa(w @ u @ w.conj().T)
        mon.close('frame', [b2, *m2], [beta, *(r @ m)], 0, 1e-7
                  + 1e-10 / b, note)
    mon.sig(*cls, noisy)


def pulses(mon, rng, idx):
    p = gen.Problem(rng, d=2, initial='none', n_t=int(rng.integers(1, 5)))
    s = p.schroedinger()
    y = p.params(rng)
    s.set_optimization_parameters(y)
    u = p.solve(p.amps(y), p.times())[1][-1]
    from qopt.cost_functions import angle_axis_representation as aa
    b, m = aa(s.forward_propagators[-1])
    c = abs(np.trace(u)) / 2
    want = 2 * np.arctan2(np.sqrt(max(0., 1 - c * c)), c)
    mon.close('angle_of_pulse', b, want, 0, 5e-6, p.name())
    mon.close('pulse_rebuilt', phase_free(u, rotation(b, m)), 0, 0, 5e-6,
              p.name())
    mon.sig('pulse', p.sig())


def identity(mon, rng, idx):
    from qopt.cost_functions import angle_axis_representation as aa
    al = [0, np.pi, np.pi / 2, rng.uniform(0, 7)][rng.integers(4)]
    b, m = aa(np.exp(1j * al) * np.eye(2))
    mon.check('identity', b == 0 and np.linalg.norm(m) == 1, f'{b} {m}')
    mon.sig('identity', round(float(al), 3))


def refused(mon, rng, idx):
    from qopt.cost_functions import angle_axis_representation as aa
    u = ref.unitary(rng, 2)
    k = int(rng.integers(8))
    if k >= 5:
        # u u^dagger deviates from the identity in one particular way
        e = rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, -.1)
        if k == 5:
            g = np.array([[1, e], [e, 1]], dtype=complex)
        elif k == 6:
            ph = [1j, np.exp(1j * rng.uniform(0, 7))][rng.integers(2)]
            g = np.array([[1, e * ph], [e * np.conj(ph), 1]])
        else:
            # trace two or determinant one
            x = 1 + e
            g = np.diag([x, [2 - x, 1 / x][rng.integers(2)]]).astype(complex)
        w, v = np.linalg.eigh(g)
        u = [(v * np.sqrt(w)) @ v.conj().T @ u,
             u @ (v * np.sqrt(w)) @ v.conj().T,
             np.linalg.cholesky(g)][rng.integers(3)]
    elif k == 0:
        u = u * (1 + 10 ** rng.uniform(-4, 0))
    elif k == 1:
        d = np.eye(2)
        j = int(rng.integers(2))
        d[j, j] += rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -.2)
        u = [d @ u, u @ d][rng.integers(2)]
    elif k == 2:
        u = ref.cplx(rng, 2, 2)
    elif k == 3:
        u = u.copy()
        u[rng.integers(2), rng.integers(2)] += 10 ** rng.uniform(-2, 0)
    else:
        # diagonal, one element with the wrong modulus
        u = np.diag(np.exp(1j * rng.uniform(0, 7, size=2)))
        u[rng.integers(2)] *= rng.choice([.5, 1.5, .99])
    if np.linalg.norm(u @ u.conj().T - np.eye(2)) > 5e-5:
        mon.raises('non_unitary_refused', ValueError, aa, u)
        mon.raises('non_unitary_refused', ValueError, aa, op(u))
    mon.sig('refused', k)


WORKLOADS = dict(gates=(gates, 1500, 40000), pulses=(pulses, 100, 2000),
                 identity=(identity, 20, 200), refused=(refused, 200, 4000))
REQUIRED = ['gate_rebuilt', 'angle', 'axis', 'axis_of_half_turn',
            'angle_range', 'axis_normalized', 'phase_independent', 'inverse',
            'frame', 'angle_of_pulse', 'identity', 'non_unitary_refused']
