"""C03: Frechet derivatives of the matrix exponential."""
import numpy as np

from .changes import change
from .pc02 import family, tau_of, cond_of, suitable, units, dependent
from .ref import cplx, herm, op, dat, expm, frechet

PROPERTY = 'C03'
RULE = ('The matrices of C02 (thirteen families, dimension 1-8, real, complex '
        'and zero tau, units of time) with random, Hermitian, commuting and zero directions; the'
        ' oracle is the block matrix theorem evaluated with an own matrix '
        'exponential, exact differentiated polynomials for the Taylor methods,'
        ' and linearity in the direction. The same operator and direction are '
        'used again after in-place changes in all public ways.')
ASSUMES = ['the finite difference method approx is only claimed to its finite '
           'difference accuracy']


def direction(rng, a, idx):
    d = len(a)
    k = idx // 13 % 5
    if k == 0:
        return 'full', cplx(rng, d, d)
    if k == 1:
        return 'skew', -1j * herm(rng, d)
    if k == 2:
        return 'commuting', a @ a + .5 * a
    if k == 3:
        e = np.zeros((d, d), complex)
        e[rng.integers(d), rng.integers(d)] = 1
        return 'unit', e
    return 'herm', herm(rng, d)


def methods(mon, rng, idx):
    f, a = family(rng, idx)
    tau = tau_of(rng)
    d = len(a)
    kind, e = direction(rng, a, idx)
    tau = suitable(f, tau)
    t = complex(tau)
    want = frechet(a * t, e * t)
    ex = expm(a * t)
    # rounding errors of the phases
    scale = max(1, np.max(np.abs(want)), np.max(np.abs(ex))) \
        * max(1, np.linalg.norm(a * t))
    n_a, n_e = 1 + np.max(np.abs(a * t)), 1 + np.max(np.abs(e * t))
    unit, tau = units(rng, 1., tau)
    a, e, t = a * unit, e * unit, complex(tau)
    skew = np.allclose(a, -a.conj().T, atol=1e-14 * np.abs(a).max())
    A, E = op(a), op(e)
    mon.describe(family=f, direction=kind, d=d, tau=tau)
    note = f'{f} {kind} tau={tau}'
    c = cond_of(a)
    def run(name, tol, extol, want=want, ex=ex, **kw):
        mon.close('dexp_' + name, dat(A.dexp(E, tau, **kw)), want, 0, tol,
                  note)
        p, g = A.dexp(E, tau, compute_expm=True, **kw)
        mon.close('dexp_' + name, dat(g), want, 0, tol, note + ' with expm')
        if extol is not None:
            mon.close('expm_of_' + name, dat(p), ex, 0, extol, note)

    with mon.guard('operand_unchanged', A, E):
        run('Frechet', 1e-9 * scale, 1e-9 * scale, method='Frechet')
        if c < 1e4:
            # the derivative carries the squared condition number at worst
            tol = 1e-11 * max(c, 10) ** 2 * scale * n_e
            run('spectral', tol, tol, method='spectral')
            mon.close('dexp_default', dat(A.dexp(E, tau)), want, 0, tol,
                      note)
            # the default time is one
            B, F = op(a * t), op(e * t)
            mon.close('dexp_default_time', dat(B.dexp(F)), want, 0, tol,
                      note)
            mon.close('dexp_default_time', dat(B.dexp(F, method='spectral')),
                      want, 0, tol, note)
            mon.close('dexp_default_time', dat(B.dexp(F, method='Frechet')),
                      want, 0, max(tol, 1e-9 * scale), note)
        if skew:
            run('spectral_skew', 1e-10 * scale * n_e, 1e-9 * scale,
                method='spectral', is_skew_hermitian=True)
        if c < 1e3:
            # rounding errors of the two exponentials, divided by epsilon
            fd = 1e-3 * scale * d * max(1, c / 20)
            run('approx', fd, None, method='approx')
            mon.close('dexp_approx_epsilon',
                      dat(A.dexp(E, tau, method='approx', epsilon=1e-6)),
                      want, 0, fd * n_a ** 2 * n_e ** 2, note)
        s3 = 1e-12 * n_a ** 3 * d * d * n_e
        p1 = e * t
        p2 = p1 + (a @ e + e @ a) * t * t / 2
        p3 = p2 + (a @ a @ e + a @ e @ a + e @ a @ a) * t ** 3 / 6
        for name, p in (('first_order', p1), ('second_order', p2),
                        ('third_order', p3)):
            mon.close('dexp_' + name, dat(A.dexp(E, tau, method=name)), p,
                      0, s3, note)
        # a plain array is accepted as direction
        mon.close('dexp_array_direction',
                  dat(A.dexp(e.copy(), tau, method='Frechet')), want, 0,
                  1e-9 * scale, note)
        mon.raises('unknown_method', (ValueError, NotImplementedError),
                   A.dexp, E, tau, method='no_such_method')
    mon.sig(f, kind, d, type(tau).__name__)


def linearity(mon, rng, idx):
    f, a = family(rng, idx)
    m = ['Frechet', 'spectral', 'second_order', 'third_order'][idx % 4]
    c = cond_of(a)
    if m == 'spectral' and c > 1e3:
        return
    d = len(a)
    A = op(a)
    e1, e2 = cplx(rng, d, d), cplx(rng, d, d)
    al = complex(rng.normal(), rng.normal())
    tau = suitable(f, float(rng.uniform(-1, 1.5)))
    if m.endswith('order'):
        a = a / max(1, np.linalg.norm(a))
    A = op(a)
    g1, g2 = (dat(A.dexp(op(e), tau, method=m)) for e in (e1, e2))
    g = dat(A.dexp(op(al * e1 + e2), tau, method=m))
    big = max(1, np.linalg.norm(a * tau)) * max(1, np.max(np.abs(
        expm(a * tau))))
    s = max(1, np.max(np.abs(g)), abs(al) * np.max(np.abs(g1)))
    mon.close('linear_in_direction', g, al * g1 + g2, 0,
              1e-10 * s * big * max(c, 3) ** 2 if m == 'spectral'
              else 1e-9 * s * big,
              f'{f} {m}')
    mon.sig('lin', f, m, d)


def history(mon, rng, idx):
    """Operator and direction are changed in place between derivatives."""
    d = int(rng.integers(1, 5))
    skew = bool(rng.random() < .6)
    a = -1j * herm(rng, d) if skew else cplx(rng, d, d) / d
    e = -1j * herm(rng, d) if skew else cplx(rng, d, d)
    A, E = op(a.copy()), op(e.copy())
    names = []
    for n in range(int(rng.integers(2, 7))):
        if n:
            k = rng.integers(3)
            if k != 1:
                A, a, name = change(rng, A, a, skew)
                names.append(name)
            if k != 0:
                E, e, name = change(rng, E, e, skew)
                names.append('direction_' + name)
        if np.linalg.norm(a) > 20:
            break
        note = f'd={d} skew={skew} {names}'
        mon.describe(d=d, skew=skew, changes=list(names))
        for __ in range(int(rng.integers(1, 3))):
            tau = float(rng.uniform(-1, 1))
            p, want = expm(a * tau), frechet(a * tau, e * tau)
            scale = max(1, np.max(np.abs(want)), np.max(np.abs(p)))
            m = ['spectral', 'Frechet'][rng.integers(2)]
            tol = 1e-8 * scale
            if m == 'spectral' and not skew:
                c = np.linalg.cond(np.linalg.eig(a)[1])
                if not c < 1e3:
                    continue
                tol = 1e-9 * c ** 2 * scale
            kw = dict(is_skew_hermitian=bool(rng.random() < .7)) \
                if skew else {}
            if rng.random() < .5:
                mon.close('after_change_' + m, dat(A.dexp(
                    E, tau, method=m, **kw)), want, 0, tol, f'{note} {kw}')
            else:
                q, g = A.dexp(E, tau, compute_expm=True, method=m, **kw)
                mon.close('after_change_' + m, dat(g), want, 0, tol,
                          f'{note} {kw}')
                mon.close('after_change_expm', dat(q), p, 0, tol, note)
        mon.close('content', np.array([dat(A), dat(E)]), np.array([a, e]),
                  1e-12, 1e-12, note)
    mon.sig('history', d, skew, *names)


def degenerate(mon, rng, idx):
    c, a = dependent(rng)
    e = cplx(rng, 9, 9)
    tau = 10 ** rng.uniform(-4, 0)
    want, p = frechet(a * tau, e * tau), expm(a * tau)
    s = max(1, np.max(np.abs(want)))
    mon.describe(cond=c, tau=tau)
    w = 10. ** int(rng.integers(-9, 10))
    x, d = op(a * w).dexp(op(e * w), tau / w, compute_expm=True,
                          method='spectral')
    mon.close('degenerate_exp', dat(x), p, 0, 1e-5 * s, f'cond={c:.1e}')
    mon.close('degenerate_spectral', dat(d), want, 0, 1e-5 * s,
              f'cond={c:.1e} tau={tau}')
    mon.close('degenerate_spectral',
              dat(op(a * w).dexp(op(e * w), tau / w, method='spectral')),
              want, 0, 1e-5 * s, f'cond={c:.1e} tau={tau}')
    mon.sig(int(np.log10(c)), int(np.log10(tau)))


WORKLOADS = dict(methods=(methods, 1200, 15000),
                 linearity=(linearity, 300, 3000),
                 history=(history, 400, 6000),
                 degenerate=(degenerate, 200, 3000))
REQUIRED = ['degenerate_spectral', 'degenerate_exp',
            'after_change_spectral', 'after_change_Frechet',
            'after_change_expm',
            'dexp_default_time',
            'dexp_Frechet', 'dexp_spectral', 'dexp_spectral_skew',
            'dexp_approx', 'dexp_first_order', 'dexp_second_order',
            'dexp_third_order', 'expm_of_Frechet', 'expm_of_spectral_skew',
            'linear_in_direction', 'unknown_method']
