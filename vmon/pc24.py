"""C24: what the energy spectrum and Bloch sphere plots show."""
import numpy as np

from . import gen, ref
from .ref import op

PROPERTY = 'C24'
RULE = ('Random lists of hermitian Hamiltonians (real, complex, diagonal, '
        'avoided crossings, 2 to 6 levels) are plotted with the Agg backend '
        'and the points and colours are read back from the figure, for every '
        'point compared with an independent diagonalization; Bloch vector '
        'plots of random propagator sequences and of solvers are read back '
        'from the Bloch object and compared with expectation values of '
        'independently propagated states. Distinct by kind of Hamiltonian, '
        'dimension and options, and by solver signature.')
ASSUMES = ['colours are only compared for levels separated by more than 1e-3',
           'the colour of a level is the mean of the colours of the basis '
           'states weighted with the modulus of the components, scaled to '
           'the maximum 1']

S = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]],
             dtype=complex)


def basis_colors(d):
    """blue - red - green"""
    import matplotlib
    return np.array([matplotlib.colormaps['brg'](x)[:3]
                     for x in (np.arange(d) / (d - 1.))])


def hamiltonians(rng):
    d = int(rng.integers(2, 7))
    n = int(rng.integers(1, 9))
    kind = ['complex', 'real', 'diagonal', 'crossing', 'commuting',
            'isospectral', 'repeated'][rng.integers(7)]
    x = np.sort(rng.normal(size=n)) if rng.random() < .7 else rng.normal(
        size=n)
    hs = []
    a, b = ref.herm(rng, d), ref.herm(rng, d)
    w = np.sort(rng.normal(size=d)) * 2
    for t in x:
        if kind == 'complex':
            h = a + t * b
        elif kind == 'real':
            h = (a + t * b).real.astype(complex)
        elif kind == 'diagonal':
            h = np.diag(np.diag(a) + t * np.diag(b)).astype(complex)
        elif kind == 'crossing':
            h = np.diag(t * np.arange(d)).astype(complex) + .2 * (
                np.eye(d, k=1) + np.eye(d, k=-1))
        elif kind == 'isospectral':
            u = ref.unitary(rng, d)
            h = (u * w) @ u.conj().T
            h = (h + h.conj().T) / 2
        elif kind == 'repeated' and hs:
            # a level of an earlier one or the very same
            h = hs[rng.integers(len(hs))] * rng.choice([1., 1., -1.])
        else:
            h = a * (1.5 + t) + 0j
        hs.append(h)
    return d, n, kind, x, hs


def spectrum(mon, rng, idx):
    import matplotlib.pyplot as plt
    from qopt.energy_spectrum import plot_energy_spectrum
    d, n, kind, x, hs = hamiltonians(rng)
    color = bool(rng.random() < .7)
    own = bool(rng.random() < .5)
    ops = [op(h) for h in hs]
    keep = [h.copy() for h in hs]
    kw = {}
    if rng.random() < .4:
        kw['s'] = float(rng.uniform(1, 50))
    if rng.random() < .4:
        kw['marker'] = 'x'
    plt.close('all')
    ax0 = None
    if own:
        fig, axs = plt.subplots(1, 2)
        ax0 = axs[0]
        plt.sca(axs[1])
    default = color and rng.random() < .5
    if not default:
        kw['use_spectral_decomposition'] = color
    xin = x.copy()
    ax = plot_energy_spectrum(ops, xin, 'the label', *(
        [ax0] if own else []), **kw)
    if own:
        mon.check('drawn_on_given_axes', ax is ax0 and not len(
            axs[1].collections), kind)
    note = f'{kind} d={d} n={n} {kw}'
    mon.check('x_label', ax.get_xlabel() == 'the label', note)
    mon.check('input_unchanged', np.array_equal(x, xin) and all(
        np.array_equal(o.data, k) for o, k in zip(ops, keep)), note)
    pts, cols = [], []
    for c in ax.collections:
        o = np.asarray(c.get_offsets())
        f = np.asarray(c.get_facecolors() if len(c.get_facecolors())
                       else c.get_edgecolors())
        pts.append(o)
        cols.append(np.broadcast_to(f, (len(o), f.shape[1])) if len(f) == 1
                    else f)
        if 's' in kw:
            mon.check('marker_size', np.all(c.get_sizes() == kw['s']), note)
    pts = np.concatenate(pts)
    cols = np.concatenate(cols)
    mon.check('number_of_points', len(pts) == n * d and len(cols) == n * d,
              f'{len(pts)} {len(cols)} {note}')
    bc = basis_colors(d)
    for k in range(n):
        sel = np.flatnonzero(pts[:, 0] == x[k])
        if not mon.check('levels_per_x', len(sel) == d, note):
            continue
        sel = sel[np.argsort(pts[sel, 1], kind='stable')]
        w, v = np.linalg.eigh(hs[k])
        mon.close('eigenvalues', pts[sel, 1], w, 1e-9, 1e-10, note)
        if not color:
            mon.check('black', np.all(cols[sel, :3] == 0), note)
            continue
        gaps = np.diff(w)
        for j in range(d):
            g = min(gaps[j - 1] if j else 9, gaps[j] if j < d - 1 else 9)
            if g < 1e-3:
                continue
            c = np.abs(v[:, j]) @ bc
            mon.close('colour', cols[sel[j], :3], c / c.max(), 0, 1e-6,
                      lambda: f'{note} level {j}')
    # one scatter per level: the series are ordered levels
    if len(ax.collections) == d:
        ys = np.array([np.asarray(c.get_offsets())[:, 1]
                       for c in ax.collections])
        mon.check('series_are_levels', np.all(np.diff(ys, axis=0) > -1e-9),
                  note)
    plt.close('all')
    mon.describe(kind=kind, d=d, x=x)
    mon.sig('spectrum', kind, d, color, own, default)


def color_map(mon, rng, idx):
    from qopt.energy_spectrum import vector_color_map
    d, n = int(rng.integers(2, 8)), int(rng.integers(1, 6))
    kind = ['basis', 'unitary', 'real', 'complex'][rng.integers(4)]
    if kind == 'basis':
        v = np.eye(d)[rng.integers(d, size=n)]
    elif kind == 'unitary':
        v = ref.unitary(rng, d)
    elif kind == 'real':
        v = rng.normal(size=(n, d))
    else:
        v = ref.cplx(rng, n, d)
    keep = v.copy()
    c = vector_color_map(v)
    mon.check('input_unchanged', np.array_equal(v, keep), kind)
    bc = basis_colors(d)
    want = np.array([sum(abs(a) * b for a, b in zip(r, bc)) for r in v])
    want = np.array([r / max(r) for r in want])
    mon.close('mixing', c, want, 0, 1e-12, f'{kind} d={d}')
    mon.check('rgb_range', np.all(c >= 0) and np.all(c <= 1) and np.allclose(
        c.max(-1), 1), kind)
    # global phase and scale of a vector do not matter
    f = rng.uniform(.1, 5, size=len(v)) * np.exp(1j * rng.uniform(
        0, 7, size=len(v)))
    mon.close('phase_and_scale', vector_color_map(f[:, None] * v), want, 0,
              1e-12, kind)
    mon.sig('color_map', kind, d)


def bloch_points(b):
    pts = [np.asarray(p, dtype=float) for p in b.points]
    return pts


def bloch(mon, rng, idx):
    import matplotlib.pyplot as plt
    from qopt.plotting import plot_bloch_vector_evolution
    plt.close('all')
    n = int(rng.integers(1, 8)) if rng.random() < .8 else int(
        rng.integers(40, 400))
    us = [ref.unitary(rng, 2) for _ in range(n)]
    if rng.random() < .5:
        us[0] = np.eye(2, dtype=complex)
    mixed = rng.random() < .2
    psi = ref.cplx(rng, 2)
    if rng.random() < .4:
        psi = np.eye(2, dtype=complex)[rng.integers(2)]
    psi = psi / np.linalg.norm(psi)
    kw = {}
    if rng.random() < .3:
        kw['figsize'] = [3, 3]
    if rng.random() < .3:
        kw['view'] = [10, 20]
    ops = [op(u) for u in us]
    st = op(psi.reshape(2, 1))
    b = plot_bloch_vector_evolution(ops, st, True, **kw)
    pts = bloch_points(b)
    want = []
    for u in us:
        p = u @ psi
        want.append([(p.conj() @ s @ p).real for s in S])
    want = np.array(want).T
    mon.check('one_line', len(pts) == 1, len(pts))
    mon.close('bloch_vector', pts[0], want, 0, 1e-9, f'n={n} {kw}')
    mon.check('propagators_unchanged', all(
        np.array_equal(o.data, u) for o, u in zip(ops, us)) and np.array_equal(
        st.data[:, 0], psi))
    r = plot_bloch_vector_evolution(ops, st)
    mon.check('returned_on_demand', r is None)
    d = int(rng.choice([3, 4]))
    mon.raises('one_qubit_only', ValueError, plot_bloch_vector_evolution,
               [op(ref.unitary(rng, d))], op(np.eye(d)[:, :1] + 0j))
    plt.close('all')
    mon.describe(n=n, psi=psi)
    mon.sig('bloch', n, sorted(kw), mixed)


def bloch_of_solver(mon, rng, idx):
    """Evolution of the solver's propagators and the solver's own plot."""
    import matplotlib.pyplot as plt
    from qopt.plotting import plot_bloch_vector_evolution
    plt.close('all')
    p = gen.Problem(rng, d=2, initial='none', n_t=int(rng.integers(2, 6)))
    s = p.schroedinger()
    y = p.params(rng)
    s.set_optimization_parameters(y)
    props = p.solve(p.amps(y), p.times())[1]
    psi = np.array([1, 0], dtype=complex)
    b = plot_bloch_vector_evolution(
        s.forward_propagators, op(psi.reshape(2, 1)), return_bloch=True)
    want = np.array([[(q.conj() @ a @ q).real for a in S]
                     for q in (u @ psi for u in props)]).T
    mon.close('bloch_vector_of_solver', bloch_points(b)[0], want, 0, 1e-7,
              p.name())
    plt.close('all')
    mon.sig('bloch_of_solver', p.sig())


def solver_plot(mon, rng, idx):
    """The sphere drawn by the solver for new parameters."""
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d.art3d import Line3DCollection
    plt.close('all')
    if idx % 10 == 9:
        p = gen.Problem(rng, d=3, initial='none', n_t=2)
        s = p.schroedinger()
        mon.raises('one_qubit_only', ValueError, s.plot_bloch_sphere,
                   p.params(rng))
        return
    p = gen.Problem(rng, d=2, initial='none', n_t=int(rng.integers(2, 6)))
    s = p.schroedinger()
    if rng.random() < .4:
        # parameters of an earlier evaluation may not show up
        s.plot_bloch_sphere(p.params(rng))
    y = p.params(rng)
    mon.check('returned_on_demand', s.plot_bloch_sphere(y) is None)
    plt.close('all')
    if rng.random() < .5:
        s.set_optimization_parameters(y)
        b = s.plot_bloch_sphere(return_Bloch=True)
    else:
        b = s.plot_bloch_sphere(y, True)
    lc = [c for c in b.axes.collections if isinstance(c, Line3DCollection)]
    segs = [np.asarray(c._segments3d) for c in lc]
    segs = [g for g in segs if len(g) == 499]
    if not mon.check('trajectory_drawn', len(segs) == 1, len(lc)):
        return
    g = segs[0]
    line = np.concatenate([g[:, 0], g[-1:, 1]])
    mon.check('trajectory_connected', np.array_equal(g[1:, 0], g[:-1, 1]))
    # the axes of the plot are rotated (qutip): (x, y) -> (y, -x)
    got = np.array([-line[:, 1], line[:, 0], line[:, 2]])
    hs = p.hams(p.amps(y))
    times = np.asarray(p.times(), dtype=float)
    edges = np.concatenate([[0], np.cumsum(times)])
    psi = np.array([1, 0], dtype=complex)
    want = np.empty((3, 500))
    start = [psi]
    for h, t in zip(hs, times):
        w, v = np.linalg.eigh(h)
        start.append(v @ (np.exp(-1j * w * t) * (v.conj().T @ start[-1])))
    eig = [np.linalg.eigh(h) for h in hs]
    ts = np.linspace(0, edges[-1], 500)
    for k, t in enumerate(ts):
        j = min(int(np.searchsorted(edges, t, side='right')) - 1,
                len(times) - 1)
        w, v = eig[j]
        q = v @ (np.exp(-1j * w * (t - edges[j])) * (v.conj().T @ start[j]))
        want[:, k] = [(q.conj() @ a @ q).real for a in S]
    mon.close('trajectory', got, want, 0, 1e-7, p.name())
    plt.close('all')
    mon.sig('solver_plot', p.sig())


WORKLOADS = dict(solver_plot=(solver_plot, 40, 400),
                 spectrum=(spectrum, 120, 1500),
                 color_map=(color_map, 200, 5000),
                 bloch=(bloch, 80, 600),
                 bloch_of_solver=(bloch_of_solver, 40, 400))
REQUIRED = ['eigenvalues', 'colour', 'black', 'mixing', 'bloch_vector',
            'bloch_vector_of_solver', 'trajectory', 'one_qubit_only', 'x_label',
            'drawn_on_given_axes']
