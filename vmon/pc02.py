"""C02: matrix exponentials."""
import numpy as np
from scipy.linalg import schur

from .changes import change
from .ref import cplx, herm, op, dat, expm, unitary, dissipator_super, \
    hamiltonian_super

PROPERTY = 'C02'
RULE = ('Matrices of dimension 1-8 from thirteen families (skew Hermitian, '
        'degenerate, zero, normal, general, Liouvillian, nilpotent, decay with '
        'rounding errors, fast decay, many rotations, ...) times'
        ' a real, negative, imaginary, complex or zero tau, expressed in units '
        'of time between 1e-12 and 1e12, are exponentiated '
        'with every method; the oracle is an own scaling-and-squaring Taylor '
        'series, the exact polynomial for the Taylor methods, and the group, '
        'determinant and unitarity laws. The same operator is exponentiated '
        'again after it was changed in place in all public ways. Matrices '
        'whose calculated eigenvectors are dependent are searched for.')
ASSUMES = ['the spectral method is only claimed for diagonalisable matrices; '
           'its tolerance grows with the condition number of the eigenvectors']


def family(rng, idx):
    f = ['skew', 'skew_deg', 'general', 'normal', 'zero', 'lindblad',
         'nilpotent', 'diag', 'hermitian', 'diag_deg', 'decay', 'stiff',
         'fast'][idx % 13]
    d = int(rng.integers(1, 9))
    if f == 'skew':
        a = -1j * herm(rng, d)
    elif f == 'skew_deg':
        a = -1j * herm(rng, d, kind='degenerate')
    elif f == 'general':
        a = cplx(rng, d, d) / np.sqrt(d)
    elif f == 'normal':
        u = unitary(rng, d)
        a = u @ np.diag(cplx(rng, d)) @ u.conj().T
    elif f == 'zero':
        a = np.zeros((d, d), complex)
    elif f == 'lindblad':
        d = int(rng.integers(2, 4))
        a = hamiltonian_super(herm(rng, d)) + dissipator_super(
            cplx(rng, d, d) * .5)
    elif f == 'stiff':
        # decay which is much faster than the rest of the dynamics
        d = int(rng.integers(2, 4))
        l = np.zeros((d, d), complex)
        for k in range(1, d):
            l[0, k] = 10 ** rng.uniform(.2, 1.7)
        a = hamiltonian_super(herm(rng, d)) + dissipator_super(l)
    elif f == 'fast':
        a = -1j * herm(rng, d) * 10 ** rng.uniform(1, 4)
    elif f == 'nilpotent':
        a = np.triu(cplx(rng, d, d), 1)
    elif f == 'diag':
        a = np.diag(cplx(rng, d))
    elif f == 'hermitian':
        a = herm(rng, d)
    elif f == 'decay':
        # rounding errors in the place of zeros
        d = int(rng.integers(2, 4))
        noise = 10 ** -rng.uniform(10, 25)
        a = hamiltonian_super(np.diag(rng.normal(size=d)) * rng.integers(2)
                              + noise * herm(rng, d))
        for _ in range(int(rng.integers(1, 3))):
            l = noise * cplx(rng, d, d)
            l[rng.integers(d), rng.integers(d)] += rng.uniform(.1, 1)
            a = a + dissipator_super(l)
    else:
        v = cplx(rng, d, d) + 2 * np.eye(d)
        w = rng.choice([0, 1, 1j, -.5], size=d)
        a = v @ np.diag(w) @ np.linalg.inv(v)
    return f, a


def tau_of(rng):
    k = rng.integers(8)
    r = float(rng.choice([1e-3, .1, 1, 2.5])) * float(rng.uniform(.5, 1.5))
    return [1, r, -r, 0, 1j * r, complex(r, rng.normal()), np.float64(r),
            np.complex128(complex(-r, .3))][k]


def suitable(f, tau):
    """Without exponential growth."""
    if f == 'stiff' and np.real(tau) < 0:
        return -tau
    if f == 'fast' and np.imag(tau):
        return abs(tau)
    return tau


def units(rng, a, tau):
    """The same exponent, expressed in other units of time."""
    if rng.random() < .5:
        return a, tau
    w = 10. ** int(rng.integers(-12, 13))
    return a * w, tau / w


def cond_of(a):
    # not balanced
    t, z = schur(a, output='complex')
    v = np.linalg.eig(t)[1]
    with np.errstate(all='ignore'):
        c = np.linalg.cond(v)
    return c if np.isfinite(c) else np.inf


def methods(mon, rng, idx):
    f, a = family(rng, idx)
    tau = tau_of(rng)
    tau = suitable(f, tau)
    d = len(a)
    want = expm(a * complex(tau))
    # rounding errors of the phases
    scale = max(1, np.max(np.abs(want))) * max(1, np.linalg.norm(a * tau))
    a, tau = units(rng, a, tau)
    skew = np.allclose(a, -a.conj().T, atol=1e-14 * np.abs(a).max())
    A = op(a)
    mon.describe(family=f, d=d, tau=tau)
    with mon.guard('operand_unchanged', A):
        for m in ('approx', 'Frechet'):
            mon.close('expm_' + m, dat(A.exp(tau, method=m)), want,
                      1e-10, 1e-10 * scale, f'{f} tau={tau}')
        c = cond_of(a)
        if c < 1e5:
            tol = 1e-11 * max(c, 10) * scale
            mon.close('expm_spectral', dat(A.exp(tau, method='spectral')),
                      want, 0, tol, f'{f} tau={tau} cond={c:.1e}')
            mon.close('expm_default', dat(A.exp(tau)), want, 0, tol, f)
            mon.close('prop', dat(A.prop(tau)), want, 0, tol, f)
            # the default time is one
            B = op(a * complex(tau))
            mon.close('expm_default_time', dat(B.exp()), want, 0, tol, f)
            mon.close('expm_default_time', dat(B.prop()), want, 0, tol, f)
            for m in ('approx', 'Frechet', 'spectral'):
                mon.close('expm_default_time', dat(B.exp(method=m)), want,
                          0, max(tol, 1e-10 * scale), f)
        if skew:
            x = dat(A.exp(tau, method='spectral', is_skew_hermitian=True))
            mon.close('expm_spectral_skew', x, want, 1e-11, 1e-11 * scale,
                      f'{f} tau={tau}')
            if np.imag(tau) == 0:
                mon.close('unitary', x @ x.conj().T, np.eye(d), 0, 1e-11)
        b = a * complex(tau)
        i = np.eye(d)
        bb = b @ b
        sc = 1 + np.max(np.abs(b)) ** 3
        mon.close('first_order', dat(A.exp(tau, method='first_order')),
                  i + b, 1e-12, 1e-12 * sc)
        mon.close('second_order', dat(A.exp(tau, method='second_order')),
                  i + b + bb / 2, 1e-12, 1e-12 * sc)
        mon.close('third_order', dat(A.exp(tau, method='third_order')),
                  i + b + bb / 2 + bb @ b / 6, 1e-12, 1e-12 * sc)
        mon.raises('unknown_method', (ValueError, NotImplementedError),
                   A.exp, tau, method='no_such_method')
    mon.sig(f, d, type(tau).__name__, tau == 0, np.real(tau) < 0)


def laws(mon, rng, idx):
    f, a = family(rng, idx)
    d = len(a)
    m = ['approx', 'Frechet', 'spectral'][idx % 3]
    if m == 'spectral' and cond_of(a) > 1e4:
        return
    if f == 'stiff':
        # only forwards in time
        a = a / np.linalg.norm(a) * 5
    A = op(a)
    t1, t2 = rng.uniform(-1.5, 1.5, size=2)
    e1, e2 = dat(A.exp(t1, method=m)), dat(A.exp(t2, method=m))
    e12 = dat(A.exp(t1 + t2, method=m))
    s = max(np.max(np.abs(x)) for x in (e1, e2, e12, np.eye(1)))
    tol = 1e-8 * s * s * d * max(1, np.linalg.norm(a) / 100)
    mon.close('group_law', e1 @ e2, e12, 0, tol, f)
    mon.close('inverse', e1 @ dat(A.exp(-t1, method=m)), np.eye(d), 0,
              tol * max(1, np.max(np.abs(dat(A.exp(-t1, method=m))))))
    mon.close('commutes_with_generator', e1 @ a, a @ e1, 0,
              tol * (1 + np.max(np.abs(a))))
    mon.close('dagger', dat(A.dag().exp(t1, method=m)), e1.conj().T, 0, tol)
    mon.close('zero_time', dat(A.exp(0., method=m)), np.eye(d), 0, tol)
    mon.sig('law', f, d, m)


def history(mon, rng, idx):
    """The same operator is changed in place between the calculations."""
    d = int(rng.integers(1, 6))
    skew = bool(rng.random() < .6)
    a = -1j * herm(rng, d) if skew else cplx(rng, d, d) / d
    A = op(a.copy())
    names = []
    for n in range(int(rng.integers(2, 8))):
        if n:
            A, a, name = change(rng, A, a, skew)
            names.append(name)
        if np.linalg.norm(a) > 30:
            break
        note = f'd={d} skew={skew} {names}'
        mon.describe(d=d, skew=skew, changes=list(names))
        for __ in range(int(rng.integers(1, 4))):
            tau = float(rng.uniform(-1, 1))
            want = expm(a * tau)
            scale = max(1, np.max(np.abs(want)))
            m = ['spectral', 'spectral', 'Frechet', 'approx'][
                rng.integers(4)]
            if m == 'spectral' and not skew:
                c = cond_of(a)
                if c > 1e4:
                    continue
                tol = 1e-10 * c * scale
            else:
                tol = 1e-9 * scale
            kw = dict(is_skew_hermitian=bool(rng.random() < .7)) \
                if skew else {}
            mon.close('after_change_' + m, dat(A.exp(tau, method=m, **kw)),
                      want, 0, tol, f'{note} {kw}')
        if rng.random() < .3 and (skew or cond_of(a) < 1e4):
            w, v = A.spectral_decomposition()
            mon.close('after_change_decomposition', a @ v, v * w, 0,
                      1e-8 * max(1, np.linalg.norm(a)), note)
        mon.close('content', dat(A), a, 1e-12, 1e-12, note)
    mon.sig('history', d, skew, *names)


def dependent(rng, n=40):
    """
    A matrix which can be diagonalised, but whose numerically calculated
    eigenvectors to degenerate eigenvalues are dependent, if one is found.

    """
    found = None
    for _ in range(n):
        l = np.zeros((3, 3), complex)
        l[0, 1:] = 10 ** rng.uniform(.2, 1.7, size=2)
        a = hamiltonian_super(herm(rng, 3)) + dissipator_super(l)
        c = min(cond_of(a), 1e20)
        if found is None or c > found[0]:
            found = c, a
        if c > 1e10:
            break
    return found


def degenerate(mon, rng, idx):
    c, a = dependent(rng)
    tau = 10 ** rng.uniform(-4, 0)
    want = expm(a * tau)
    s = max(1, np.max(np.abs(want)))
    mon.describe(cond=c, tau=tau)
    for w in 10. ** rng.integers(-9, 10, size=3):
        mon.close('degenerate_spectral',
                  dat(op(a * w).exp(tau / w, method='spectral')), want, 0,
                  1e-6 * s, f'cond={c:.1e} tau={tau}')
        mon.close('degenerate_default', dat(op(a * w).prop(tau / w)), want,
                  0, 1e-6 * s, f'cond={c:.1e} tau={tau}')
    mon.sig(int(np.log10(c)), int(np.log10(tau)))


WORKLOADS = dict(methods=(methods, 1600, 20000), laws=(laws, 600, 6000),
                 history=(history, 500, 8000),
                 degenerate=(degenerate, 300, 4000))
REQUIRED = ['degenerate_spectral', 'degenerate_default',
            'after_change_spectral', 'after_change_Frechet',
            'after_change_approx', 'after_change_decomposition',
            'expm_default_time',
            'expm_approx', 'expm_Frechet', 'expm_spectral', 'expm_default',
            'expm_spectral_skew', 'first_order', 'second_order',
            'third_order', 'prop', 'unknown_method', 'group_law', 'unitary']
