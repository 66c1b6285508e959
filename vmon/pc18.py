"""C18: noise traces have the requested statistics and shapes."""
import numpy as np
from scipy import special, stats

PROPERTY = 'C18'
RULE = ('Random standard deviations, spectra (white, 1/f^a, Lorentzian, band '
        'limited, a single line), sampling intervals over nine orders of '
        'magnitude, odd and even lengths, low frequency extension ratios, '
        'trace numbers and operator numbers. Deterministic samples are '
        'compared with quantiles computed by root finding; random samples '
        'with the exact covariance matrix of the requested spectrum at '
        'bounds of at least 7 standard errors. Distinct by shape, sampling '
        'mode, spectrum and extension ratio.')
ASSUMES = ['random numbers of numpy are Gaussian and independent',
           'statistical bounds have a false alarm probability below 1e-10 '
           'per run']

SIGMA = 8.


# -- elementary distributions ------------------------------------------------
def distributions(mon, rng, idx):
    from qopt import noise
    std = float(10 ** rng.uniform(-6, 6))
    std2 = float(10 ** rng.uniform(-3, 3))
    mean = float(rng.normal() * std)
    x = rng.normal(size=7) * std * 1.5
    y = rng.normal(size=7) * std2 * 1.5
    want = stats.norm(scale=std).pdf(x)
    mon.close('bell_curve_1dim', noise.bell_curve_1dim(x, std), want, 1e-11,
              0)
    mon.close('bell_curve_1dim', noise.bell_curve_1dim(float(x[0]), std),
              want[0], 1e-11, 0)
    mon.close('bell_curve_2dim', noise.bell_curve_2dim(x, std, y, std2),
              want * stats.norm(scale=std2).pdf(y), 1e-11, 0)
    p = rng.uniform(.001, .999, size=6)
    got = noise.inverse_cumulative_gaussian_distribution_function(
        p, std, mean)
    mon.close('inverse_cdf', stats.norm(mean, std).cdf(got), p, 1e-9, 1e-12)
    n = int(rng.integers(1, 60))
    s = noise.sample_1dim_gaussian_distribution(std, n, mean) if \
        rng.random() < .5 else \
        noise.sample_1dim_gaussian_distribution(std, n) + mean
    mon.check('sample_count', np.shape(s) == (n,), np.shape(s))
    mon.close('equal_probability', stats.norm(mean, std).cdf(s),
              (np.arange(n) + .5) / n, 1e-9, 1e-12)
    d = (s - mean) / std
    mon.close('symmetric', d, -d[::-1], 1e-8, 1e-8)
    mon.sig('dist', n, round(np.log10(std)))


def quasi_static(mon, rng, idx):
    from qopt import noise
    k = int(rng.integers(1, 4))
    n = int(rng.integers(1, 25))
    n_t = int(rng.integers(1, 6))
    # any unit
    std = [float(10 ** rng.uniform(-12, 9)) for _ in range(k)]
    given = [list, np.array, tuple][rng.integers(3)](std)
    before = list(given)
    redraw = bool(rng.random() < .5)
    corr = bool(rng.random() < .7) and n > 1
    kw = {}
    if rng.random() < .5:
        kw['sampling_mode'] = 'uncorrelated_deterministic'
    if not (corr and rng.random() < .5):
        kw['correct_std_for_discrete_sampling'] = corr
    note = f'k={k} n={n} n_t={n_t} corr={corr} redraw={redraw} {sorted(kw)}'
    mon.describe(setup=note)
    g = noise.NTGQuasiStatic(given, n_t, n_traces=n,
                             always_redraw_samples=redraw, **kw)
    order = rng.permutation(4)
    for w in order:
        if w == 0:
            mon.check('n_traces', g.n_traces == n * k, note)
        elif w == 1:
            mon.check('n_samples', g.n_samples_per_trace == n_t, note)
        elif w == 2:
            mon.check('n_operators', g.n_noise_operators == k, note)
        else:
            s = g.noise_samples
    s2 = g.noise_samples
    mon.check('list_unmodified', list(given) == before, note)
    if not mon.check('shape', s.shape == (k, n * k, n_t),
                     f'{s.shape} {note}'):
        return
    mon.check('deterministic', np.array_equal(s, s2), note)
    mon.check('constant_in_time', np.all(s == s[:, :, :1]), note)
    for i in range(k):
        own = s[i, i * n:(i + 1) * n, 0]
        other = np.delete(s[i, :, 0], np.arange(i * n, (i + 1) * n))
        mon.check('separately_sampled', not np.any(other), note)
        z = special.ndtri((np.arange(n) + .5) / n)
        if corr:
            z = z / np.sqrt(np.mean(z ** 2))
            mon.close('corrected_std', np.std(own), std[i], 1e-9, 0, note)
        mon.close('quantiles', own, std[i] * z, 1e-8, 1e-8 * std[i], note)
    mon.sig('qs', note)


def quasi_static_random(mon, rng, idx):
    from qopt import noise
    k = int(rng.integers(1, 4))
    n = int(rng.integers(1000, 4000))
    n_t = int(rng.integers(1, 4))
    std = [float(10 ** rng.uniform(-12, 9)) for _ in range(k)]
    redraw = bool(rng.random() < .5)
    g = noise.NTGQuasiStatic(list(std), n_t, n_traces=n,
                             sampling_mode='monte_carlo',
                             always_redraw_samples=redraw,
                             correct_std_for_discrete_sampling=bool(
                                 rng.random() < .5))
    note = f'mc k={k} n_t={n_t} redraw={redraw}'
    mon.describe(setup=note, n=n)
    s = np.array(g.noise_samples)
    if not mon.check('shape', s.shape == (k, n, n_t) and g.n_traces == n,
                     f'{s.shape} {note}'):
        return
    t = np.array(g.noise_samples)
    mon.check('redraw', np.array_equal(s, t) != redraw, note)
    mon.check('constant_in_time', np.all(s == s[:, :, :1]), note)
    z = s[:, :, 0] / np.array(std)[:, None]
    gaussian(mon, z.T, np.eye(k), note)
    if redraw:
        zz = np.concatenate((z, t[:, :, 0] / np.array(std)[:, None]))
        gaussian(mon, zz.T, np.eye(2 * k), note)
    # consecutive traces are independent
    h = n // 2 * 2
    zz = np.concatenate((z[:, :h:2], z[:, 1:h:2]))
    gaussian(mon, zz.T, np.eye(2 * k), note)
    for row in z:
        d = stats.kstest(row, 'norm').pvalue
        mon.check('normal_distribution', d > 1e-12, f'{d} {note}')
    mon.sig(note)


def gaussian(mon, z, cov, note):
    """z (samples, dim) has mean zero and covariance cov."""
    m = z.shape[0]
    c = z.T @ z / m
    v = np.diag(cov)
    se = np.sqrt((np.outer(v, v) + cov ** 2) / m)
    tiny = 1e-12 * max(np.max(v), 1e-300)
    dev = np.max(np.abs(c - cov) / (se + tiny))
    # sums of products of Gaussians have exponential tails: more room than
    # for a Gaussian estimator
    bound = SIGMA + 30 / np.sqrt(m) * 2
    mon.check('covariance', dev < bound, lambda: f'{dev:.1f} standard errors '
              f'{note}\nfound={np.array2string(c, threshold=30)}\n'
              f'expected={np.array2string(cov, threshold=30)}')
    dev = np.max(np.abs(z.mean(axis=0)) / np.sqrt((v + tiny) / m))
    mon.check('mean_zero', dev < SIGMA, lambda: f'{dev:.1f} standard errors '
              f'{note}')


# -- coloured noise -----------------------------------------------------------
def spectrum(rng, dt, n):
    fn = .5 / dt
    s0 = 10 ** rng.uniform(-6, 3)
    kind = ['white', 'pink', 'lorentz', 'band', 'line', 'step'][
        rng.integers(6)]
    a = rng.uniform(.3, 2)
    k0 = int(rng.integers(1, max(2, n // 2)))
    f0 = k0 / n / dt

    def s(f):
        f = np.asarray(f)
        if kind == 'white':
            return s0 * np.ones_like(f)
        if kind == 'pink':
            return s0 / (f * dt) ** a
        if kind == 'lorentz':
            return s0 / (1 + (f / (.2 * fn)) ** 2)
        if kind == 'band':
            return s0 * ((f > .20123 * fn) & (f < .70123 * fn))
        if kind == 'line':
            return s0 * (np.abs(f - f0) < .25 / n / dt)
        return s0 * (1 + 8 * (f < .50123 * fn))
    return s, kind


def reference_covariance(s, dt, n, n_used):
    """Of a stationary process with one sided density s on the grid k/(n dt),
    without the zero frequency."""
    c = np.zeros(n_used)
    lag = np.arange(n_used)
    for k in range(1, n // 2 + 1):
        f = k / (n * dt)
        p = float(s(np.array([f]))[0]) / (n * dt)
        if 2 * k == n:
            # the two sided density at the Nyquist frequency occurs once
            p /= 2
        c += p * np.cos(2 * np.pi * k * lag / n)
    return c[np.abs(lag[:, None] - lag[None, :])]


class Recorder:
    def __init__(self, f):
        self.f, self.seen = f, []

    def __call__(self, x):
        self.seen.append(np.array(x, dtype=float).ravel())
        return self.f(x)


def frequencies(mon, rec, dt, note):
    f = np.concatenate(rec.seen)
    mon.check('no_zero_frequency', np.all(f > 0), note)
    mon.check('up_to_nyquist', np.all(f <= .5 / dt * (1 + 1e-12)), note)


def colored(mon, rng, idx):
    from qopt import noise
    n_t = int(rng.integers(2, 17))
    ratio = [1, 1, 2, 3, 5][rng.integers(5)]
    dt = float(10 ** rng.uniform(-9, 3))
    k = int(rng.integers(1, 4))
    n = int(rng.integers(1000, 3000))
    s, kind = spectrum(rng, dt, n_t * ratio)
    rec = Recorder(s)
    redraw = bool(rng.random() < .6)
    kw = {} if ratio == 1 and rng.random() < .5 else dict(
        low_frequency_extension_ratio=ratio)
    if not (redraw and rng.random() < .5):
        kw['always_redraw_samples'] = redraw
    note = f'{kind} n_t={n_t} ratio={ratio} k={k} redraw={redraw}'
    mon.describe(setup=note, dt=dt, n=n)
    g = noise.NTGColoredNoise(n_t, rec, dt, n_traces=n, n_noise_operators=k,
                              **kw)
    x = np.array(g.noise_samples)
    if not mon.check('shape', x.shape == (k, n, n_t)
                     and g.n_traces == n and g.n_noise_operators == k
                     and g.n_samples_per_trace == n_t,
                     f'{x.shape} {note}'):
        return
    y = np.array(g.noise_samples)
    frequencies(mon, rec, dt, note)
    one = reference_covariance(s, dt, n_t * ratio, n_t)
    scale = np.sqrt(max(one[0, 0], 1e-300))
    mon.check('redraw', np.array_equal(x, y) != redraw or not one.any(),
              note)
    if ratio == 1:
        mon.check('no_offset', np.max(np.abs(x.sum(axis=2))) <=
                  1e-9 * n_t * scale * 10, note)
    one = one / scale ** 2
    x, y = x / scale, y / scale
    # all operators together: equal covariances, no cross correlations
    z = x.transpose(1, 0, 2).reshape(n, k * n_t)
    gaussian(mon, z, np.kron(np.eye(k), one), note)
    h = n // 2 * 2
    z = np.concatenate((x[0, :h:2], x[0, 1:h:2]), axis=1)
    gaussian(mon, z, np.kron(np.eye(2), one), note)
    if redraw:
        z = np.concatenate((x[-1], y[-1]), axis=1)
        gaussian(mon, z, np.kron(np.eye(2), one), note)
    mon.sig(note)


def fast(mon, rng, idx):
    """Long traces: every periodogram bin is exponentially distributed."""
    from qopt import noise
    n = int(rng.integers(2, 700))
    dt = float(10 ** rng.uniform(-9, 3))
    shape = [(40,), (5, 8), (2, 4, 5)][rng.integers(3)]
    pot = bool(rng.random() < .4)
    want = n
    if pot:
        want = 1
        while want * 2 <= n:
            want *= 2
    s, kind = spectrum(rng, dt, want)
    rec = Recorder(s)
    note = f'{kind} n={n} {shape} pot={pot}'
    mon.describe(setup=note, dt=dt)
    kw = dict(r_power_of_two=True) if pot else {}
    x = noise.fast_colored_noise(rec, dt, float(n) if rng.random() < .2
                                 else n, shape, **kw)
    if not mon.check('length', x.shape == shape + (want,),
                     f'{x.shape} {note}'):
        return
    mon.check('real', not np.iscomplexobj(x), note)
    frequencies(mon, rec, dt, note)
    x = x.reshape(-1, want)
    m = len(x)
    ft = np.array([x @ np.exp(-2j * np.pi * np.arange(want) * k / want)
                   for k in range(want // 2 + 1)]).T
    k = np.arange(want // 2 + 1)
    mid = (k > 0) & (2 * k != want)
    f = k / (want * dt)
    dens = np.zeros(len(k))
    dens[1:] = s(f[1:])
    top = max(np.max(dens), 1e-300)
    per = 2 * dt / want * np.abs(ft) ** 2 / top
    dens = dens / top
    mon.check('no_offset', np.max(per[:, 0]) < 1e-12, note)
    q = .5e-12 / max(want, 2)
    for which, shape_par in ((mid, m), ((2 * k == want), m / 2)):
        if not np.any(which):
            continue
        on = which & (dens > 1e-9)
        off = which & (dens <= 1e-9)
        mon.check('empty_bins', not np.any(off) or np.max(
            per[:, off]) < 1e-8, note)
        if np.any(on):
            r = per[:, on] / dens[on]
            a = r.mean(axis=0)
            lo, hi = stats.gamma(shape_par, scale=1 / shape_par).ppf(
                [q, 1 - q])
            mon.check('spectral_density', np.all((a > lo) & (a < hi)),
                      lambda: f'{note} {a.min()} {a.max()} not in '
                              f'[{lo}, {hi}]')
            t = shape_par * on.sum()
            lo, hi = stats.gamma(t, scale=1 / t).ppf([1e-12, 1 - 1e-12])
            mon.check('total_power', lo < r.mean() < hi,
                      f'{note} {r.mean()} not in [{lo}, {hi}]')
    on = mid & (dens > 1e-9)
    if on.sum() > 3:
        # phases are uniform, neighbouring bins independent
        ph = ft[:, on] / np.abs(ft[:, on])
        mon.check('phases', abs(ph.mean()) < 6 / np.sqrt(ph.size), note)
        cr = (ph[:, 1:] * ph[:, :-1].conj())
        mon.check('phases', abs(cr.mean()) < 7 / np.sqrt(cr.size), note)
        cr = (ph[1:] * ph[:-1].conj())
        mon.check('phases', abs(cr.mean()) < 7 / np.sqrt(cr.size), note)
    mon.sig('fast', kind, want % 2, int(np.log2(want)), len(shape), pot)


def stored(mon, rng, idx):
    """Precalculated samples."""
    from qopt import noise
    k, n, n_t = (int(v) for v in rng.integers(1, 5, size=3))
    s = rng.normal(size=(k, n, n_t))
    keep = s.copy()
    infer = bool(rng.random() < .5)
    g = noise.NTGQuasiStatic(
        [1.] * k, None if infer else n_t, n_traces=None if infer else n,
        noise_samples=s, always_redraw_samples=False,
        correct_std_for_discrete_sampling=False,
        sampling_mode='monte_carlo')
    note = f'stored {k} {n} {n_t} infer={infer}'
    mon.check('stored_returned', np.array_equal(g.noise_samples, keep)
              and np.array_equal(g.noise_samples, keep), note)
    mon.check('stored_shapes', (g.n_noise_operators, g.n_traces,
                                g.n_samples_per_trace) == (k, n, n_t), note)
    mon.check('stored_unmodified', np.array_equal(s, keep), note)
    g2 = noise.NTGQuasiStatic([1.] * k, n_t, n_traces=n, noise_samples=s,
                              always_redraw_samples=True,
                              correct_std_for_discrete_sampling=False,
                              sampling_mode='monte_carlo')
    mon.check('stored_redrawn', not np.array_equal(g2.noise_samples, keep)
              and np.array_equal(s, keep), note)
    g3 = noise.NTGQuasiStatic([1.] * k, n_t, n_traces=n,
                              correct_std_for_discrete_sampling=False,
                              sampling_mode='monte_carlo')
    mon.check('redrawn_by_default', not np.array_equal(
        g3.noise_samples, np.array(g3.noise_samples)), note)
    g4 = noise.NTGColoredNoise(n_t + 1, lambda f: 1 / f, .1, n_traces=n)
    mon.check('one_operator', g4.n_noise_operators == 1
              and g4.noise_samples.shape == (1, n, n_t + 1), note)
    # the switch may be changed later
    g2.always_redraw_samples = False
    a = np.array(g2.noise_samples)
    mon.check('stored_kept', np.array_equal(g2.noise_samples, a), note)
    g2.always_redraw_samples = True
    mon.check('stored_redrawn', not np.array_equal(g2.noise_samples, a),
              note)
    mon.sig(note)


def refusals(mon, rng, idx):
    from qopt import noise

    def s(f):
        return 1 / f
    for corr in ('uncorrelated_deterministic', 'monte_carlo'):
        mon.raises('refused', RuntimeWarning, noise.NTGQuasiStatic, [1.], 3,
                   1, sampling_mode=corr)
    mon.raises('refused', RuntimeError, noise.NTGQuasiStatic, [0.], 3, 4)
    mon.raises('refused', ValueError, lambda: noise.NTGQuasiStatic(
        [1.], 3, 4, sampling_mode='other').noise_samples)
    mon.raises('refused', ValueError, lambda: noise.NTGQuasiStatic(
        [1.], 3, 4, sampling_mode='other',
        correct_std_for_discrete_sampling=False).noise_samples)
    for r in (0, .5, -1):
        mon.raises('refused', ValueError, noise.NTGColoredNoise, 4, s, .1,
                   low_frequency_extension_ratio=r)
    for dt in ([.1, .1], np.array([.1])):
        mon.raises('refused', ValueError, noise.NTGColoredNoise, 4, s, dt)
    for kw in (dict(n_traces=None), dict(n_noise_operators=None)):
        g = noise.NTGColoredNoise(4, s, .1, **kw)
        mon.raises('refused', ValueError, lambda: g.noise_samples)
    g = noise.NTGColoredNoise(None, s, .1)
    mon.raises('refused', ValueError, lambda: g.noise_samples)
    mon.sig('refusals')


def periodogram(mon, rng, idx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from qopt import noise
    n = int(rng.integers(100, 300))
    avg = int(rng.integers(100, 300))
    dt = float(10 ** rng.uniform(-9, 2))
    s0 = 10 ** rng.uniform(-4, 3)
    kind = ['white', 'lorentz'][rng.integers(2)]

    def s(f):
        return s0 * np.ones_like(f) if kind == 'white' else \
            s0 / (1 + (f * dt * 5) ** 2)
    g = noise.NTGColoredNoise(n, s, dt, n_traces=3)
    mode = [None, 'semilogy', 'semilogx', 'loglog'][rng.integers(4)]
    draw = bool(rng.random() < .5)
    note = f'{kind} {mode} draw={draw} odd={n % 2}'
    plt.close('all')
    usual = draw and mode is None
    dev = g.plot_periodogram(avg) if usual else g.plot_periodogram(
        avg, log_plot=mode, draw_plot=draw)
    f = np.fft.rfftfreq(n, dt)
    ref = np.sqrt(np.sum(s(f[1:-1]) ** 2) / avg)
    mon.check('periodogram', .4 * ref < dev < 2. * ref,
              f'{dev} expected about {ref} {note}')
    mon.check('figures', len(plt.get_fignums()) == int(draw), note)
    if draw:
        lines = plt.gca().get_lines()
        mon.check('lines', len(lines) == 2, note)
        mon.close('plotted', lines[0].get_xdata(), f, 1e-9, 0, note)
        mon.close('plotted', lines[1].get_ydata(), s(f), 1e-9, 0, note)
        y = np.asarray(lines[0].get_ydata())
        mon.close('plotted', np.linalg.norm(y[1:-1] - s(f)[1:-1]), dev,
                  1e-9, 0, note)
        lab = plt.gca().get_legend().get_texts()
        mon.check('lines', [t.get_text() for t in lab]
                  == ['Periodogram', 'Spectral Noise Density'], note)
        mon.check('lines', plt.gca().get_xscale() == (
            'log' if mode in ('semilogx', 'loglog') else 'linear')
            and plt.gca().get_yscale() == (
            'log' if mode in ('semilogy', 'loglog') else 'linear'), note)
    plt.close('all')
    mon.raises('refused', ValueError, g.plot_periodogram, 3, scaling='other')
    mon.sig(note)


def two_dim(mon, rng, idx):
    """Two dimensional samples: going through a fine grid row by row, between
    two samples lies the same probability. (Deprecated and slow: thorough
    runs only.)"""
    from scipy.special import ndtr
    from qopt import noise
    a, b = (float(v) for v in 10 ** rng.uniform(-3, 3, size=2))
    n = int(rng.integers(1, 12))
    x, y = noise.sample_2dim_gaussian_distribution(a, b, n)
    mon.check('two_dim_number', len(x) == len(y) == n, f'{len(x)} {n}')
    x, y = np.array(x) / a, np.array(y) / b
    h = 1e-3
    grid = -5 + h * np.arange(10000)
    for i, (u, v) in enumerate(zip(x, y)):
        row = np.exp(-grid ** 2 / 2)
        row /= row.sum()
        k = int(np.round((u + 5) / h))
        mon.check('two_dim_grid', abs(u - grid[k]) < 1e-6 and abs(
            v - grid[int(np.clip(np.round((v + 5) / h), 0, 9999))]) < 1e-6,
            f'{u} {v}')
        mass = row[:k].sum() + row[k] * ndtr(v)
        mon.close('two_dim_mass', mass, (i + 1) / (n + 1), 0, 1e-6,
                  f'sample {i} of {n}')
    mon.sig('two_dim', n, a, b)


def single(mon, rng, idx):
    """The number of traces and operators is one if not given."""
    from qopt import noise
    n_t, k = int(rng.integers(1, 9)), int(rng.integers(1, 4))
    std = [float(x) for x in rng.uniform(.1, 3, size=k)]
    given = rng.normal(size=(1, 1, n_t))

    class Own(noise.NoiseTraceGenerator):
        def _sample_noise(self):
            self._noise_samples = given

    class Pulled(noise.NoiseTraceGenerator):
        def _sample_noise(self):
            self._noise_samples = np.zeros((
                self.n_noise_operators, self.n_traces,
                self.n_samples_per_trace))
    kinds = [
        (lambda: noise.NTGQuasiStatic(
            list(std), n_t, correct_std_for_discrete_sampling=False),
            (k, k, n_t)),
        (lambda: noise.NTGQuasiStatic(
            list(std), n_t, sampling_mode='monte_carlo',
            correct_std_for_discrete_sampling=False), (k, 1, n_t)),
        (lambda: noise.NTGColoredNoise(n_t, lambda f: 1 / f, .1), (1, 1, n_t)),
        (lambda: noise.NTGColoredNoise(
            n_t, lambda f: 1 / f, .1, n_noise_operators=k), (k, 1, n_t)),
        (lambda: Own(n_samples_per_trace=n_t, always_redraw_samples=True),
         (1, 1, n_t)),
        (lambda: Pulled(n_samples_per_trace=n_t,
                        always_redraw_samples=False), (1, 1, n_t))]
    make, want = kinds[idx % len(kinds)]
    note = f'{idx % len(kinds)} {want}'
    # no standard deviation of a single trace
    mon.raises('refused', RuntimeWarning, noise.NTGQuasiStatic, [1.], n_t)
    g = make()
    x = np.array(g.noise_samples)
    mon.check('single_trace', x.shape == want and (
        g.n_noise_operators, g.n_traces, g.n_samples_per_trace) == want,
        f'{x.shape} {g.n_traces} {g.n_noise_operators} {note}')
    if idx % len(kinds) == 0 and k == 1:
        mon.close('single_trace_value', x, np.zeros_like(x), 0, 1e-9, note)
    if idx % len(kinds) == 4:
        mon.close('own_samples', x, given, 0, 0, note)
    mon.sig('single', note)


WORKLOADS = dict(single=(single, 60, 400), distributions=(distributions, 200, 4000),
                 quasi_static=(quasi_static, 200, 4000),
                 quasi_static_random=(quasi_static_random, 60, 800),
                 colored=(colored, 120, 2000), fast=(fast, 150, 2500),
                 stored=(stored, 60, 600), refusals=(refusals, 2, 4),
                 periodogram=(periodogram, 40, 400),
                 two_dim=(two_dim, 0, 3))
REQUIRED = ['single_trace', 'bell_curve_1dim', 'bell_curve_2dim', 'inverse_cdf',
            'equal_probability', 'corrected_std', 'quantiles',
            'separately_sampled', 'covariance', 'spectral_density',
            'total_power', 'redraw', 'stored_returned', 'refused',
            'periodogram', 'plotted', 'redrawn_by_default', 'one_operator']
