"""C26: pulse plots show the transferred and the raw pulse."""
import numpy as np
import matplotlib.pyplot as plt

from . import tfmodel
from .ref import mem, size
from .pc10 import has, taus, units

PROPERTY = 'C26'
RULE = ('Random transfer functions (as C10, nested) with random time grids '
        'plot random pulses; the drawn rectangles are read back from the '
        'figures and compared with the rectangles of the loop model: '
        'position, width and height of every transferred slice and of every '
        'raw slice behind the start padding, one figure for each control.')
ASSUMES = ['matplotlib draws the rectangles it stores',
           'the raw pulse of a concatenation is the one of its second part '
           '(documented)']


def outline(ref, y, tau):
    """Raw pulse, its durations and the padding of the plotted part."""
    if ref.kind == 'concat':
        return outline(ref.b, ref.a.apply(y, tau), ref.a.times(tau))
    if ref.kind == 'parallel':
        return y, tau, pads(ref.a, len(tau))
    return y, tau, pads(ref, len(tau))


def pads(ref, n_y):
    b = getattr(ref, 'bound', None)
    if b is None:
        return 0
    if b[0] != 'x':
        return b[1] if b[0] == 'n' else 0
    if ref.kind == 'custom':
        return b[1] * (len(ref.matrix) // (2 * b[1] + n_y))
    return b[1] * ref.over


def rects(starts, widths, heights):
    return np.array([[s, w, h] for s, w, h in zip(starts, widths, heights)])


def drawn(ax, fill):
    return np.array([[p.get_x(), p.get_width(), p.get_height()]
                     for p in ax.patches if bool(p.get_fill()) == fill])


def pulse_plot(mon, rng, idx):
    plt.close('all')
    n_c = size(rng, 1, 4, 12)
    n_t = size(rng, 1, 6)
    equal = bool(rng.random() < .5)
    unit = units(rng)
    tf, ref = tfmodel.make(rng, n_c, n_t, equal, unit=unit)
    name = f'{tfmodel.describe(ref)} unit {unit}'
    mon.describe(tf=name, n_ctrl=n_c, n_t=n_t, equal=equal)
    tau = taus(rng, n_t, equal, unit)
    if rng.random() < .4 and not has(ref, 'custom'):
        grid = np.concatenate(([0.], np.cumsum(tau))) + unit * float(rng.normal())
        if equal:
            grid = np.arange(n_t + 1) * tau[0]
        tf.set_absolute_times(list(grid) if rng.random() < .5 else grid)
    else:
        tf.set_times(tau.copy())
    y = mem(rng, rng.normal(size=(n_t, n_c)))
    y0 = y.copy()
    for _ in range(int(rng.integers(1, 3))):
        plt.close('all')
        kw = {}
        if ref.kind != 'concat' and rng.random() < .5:
            kw = dict(xlabel='tx', ylabel='ty')
        tf.plot_pulse(y, **kw)
        mon.close('argument_unchanged', y, y0, 0, 0, name)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        if not mon.check('one_figure_per_control', len(figs) == n_c and
                         all(len(f.axes) == 1 for f in figs), name):
            return
        x, xt = ref.apply(y0, tau), ref.times(tau)
        ry, rt, pad = outline(ref, y0, tau)
        x_start = np.cumsum(xt) - xt
        y_start = np.cumsum(rt) - rt + np.sum(xt[:pad])
        scale = np.array([unit, unit, 1.])
        for k, f in enumerate(figs):
            note = f'{name} n_t={n_t} control {k}'
            mon.close('transferred_pulse', drawn(f.axes[0], True) / scale,
                      rects(x_start, xt, x[:, k]) / scale, 1e-10, 1e-10, note)
            mon.close('raw_pulse', drawn(f.axes[0], False) / scale,
                      rects(y_start, rt, ry[:, k]) / scale, 1e-10, 1e-10, note)
        if kw:
            ax = figs[-1].axes[0]
            mon.check('labels', (ax.get_xlabel(), ax.get_ylabel()) ==
                      ('tx', 'ty'))
        # the plot leaves the transfer function as it was
        mon.close('value_after_plot', tf(y), x, 1e-11, 1e-11, name)
        mon.close('times_after_plot', tf.x_times, xt, 1e-12, 1e-12 * unit, name)
    plt.close('all')
    mon.sig(name, n_c, n_t, equal)


WORKLOADS = dict(pulse_plot=(pulse_plot, 80, 900))
REQUIRED = ['transferred_pulse', 'raw_pulse', 'one_figure_per_control',
            'labels', 'value_after_plot', 'argument_unchanged']
