"""C06: a solver never answers with stale or foreign results."""
import numpy as np

from . import gen, ref
from .ref import dat

PROPERTY = 'C06'
RULE = ('Histories of 8-25 operations on a live solver (Schroedinger, Monte '
        'Carlo, Lindblad): new / repeated / earlier parameters, parameter '
        'arrays mutated by the caller after they were passed, rejected '
        'parameters (wrong shape, amplitude function raising), changed '
        'times, reads of the cached properties in any order. After every '
        'read the observed value is compared with the reference solution of '
        'the last accepted parameters and times. Distinct by the sequence of '
        'operation kinds.')
ASSUMES = ['returned operators are not modified by the caller',
           'set_times keeps the number of time steps']


class Refuse(Exception):
    pass


class Faults:
    """Fails the n-th call of an operator method or of a user function."""
    methods = ('exp', 'dexp', '__mul__', '__rmul__', '__imul__', '__add__',
               '__iadd__', '__isub__', 'kron', 'copy', 'conj', 'transpose',
               'identity_like')

    def __init__(self):
        self.left = self.error = None
        self.hits = self.calls = 0

    def point(self):
        if self.left is None:
            return
        self.calls += 1
        if self.left == 0:
            self.left = None
            self.hits += 1
            raise self.error('injected')
        self.left -= 1

    def wrap(self, f):
        def g(*a, **kw):
            self.point()
            return f(*a, **kw)
        return g

    def __enter__(self):
        from qopt.matrix import DenseOperator
        self.saved = {}
        for n in self.methods:
            if n in DenseOperator.__dict__:
                f = DenseOperator.__dict__[n]
                self.saved[n] = f
                setattr(DenseOperator, n, self.wrap(f))
        return self

    def __exit__(self, *a):
        from qopt.matrix import DenseOperator
        for n, f in self.saved.items():
            setattr(DenseOperator, n, f)


def run(mon, rng, kind, faults=None):
    tfk = 'random' if rng.random() < .7 else None
    if kind == 'lindblad':
        p = gen.LindbladProblem(rng, n_t=int(rng.integers(1, 4)), tf=tfk,
                                d=int(rng.integers(2, 4)))
    elif kind == 'mc':
        p = gen.MonteCarloProblem(rng, tf=tfk, always_redraw=False,
                                  n_t=int(rng.integers(1, 4)))
    else:
        p = gen.Problem(rng, tf=tfk)
    if faults is not None:
        # the functions of the user can fail as well
        for n in ('weights', 'dweights', 'naf_values'):
            if hasattr(p, n):
                setattr(p, n, faults.wrap(getattr(p, n)))
    # generators of open systems can be close to defective
    m = gen.METHODS[rng.integers(2 if kind == 'lindblad' else 3)]
    kw = dict(exponential_method=m)
    deriv = bool(rng.random() < .4)
    kw['calculate_unitary_derivatives' if kind == 'lindblad' else
       'calculate_propagator_derivatives'] = deriv
    # a user amplitude function which refuses some inputs
    amp = p.qamp()
    armed = [False]
    if amp is not None:
        inner = amp

        class Guarded(type(amp).__mro__[1]):
            def __call__(self, x):
                if armed[0]:
                    raise Refuse()
                return inner(x)

            def derivative_by_chain_rule(self, g, x):
                return inner.derivative_by_chain_rule(g, x)
        kw['amplitude_function'] = Guarded()
    # the array is reused by the caller
    given = p.tau.copy()
    s = {'lindblad': getattr(p, 'lindblad', None),
         'mc': getattr(p, 'monte_carlo', None),
         'plain': p.schroedinger}[kind](tau=given, **kw)
    given *= rng.uniform(.2, 3)
    tau = p.tau.copy()
    y = p.params(rng)
    handed = y.copy()
    s.set_optimization_parameters(handed)
    cache = {}
    past = [y.copy()]
    trace = []

    def want():
        key = (y.tobytes(), tau.tobytes())
        if key not in cache:
            x = p.transferred(y, tau)
            u = p.u_of(x)
            t = p.times(tau)
            c = dict(x=x, t=t)
            if kind == 'lindblad':
                gs = p.generators(u, x)
                props = [ref.expm(g * dt) for g, dt in zip(gs, t)]
                c['prop'], c['fwd'], c['rev'] = gen.products(
                    props, p.start(), p.d ** 2)
                dirs = p.directions(u, x)
            else:
                hs = p.hams(u)
                c['prop'], c['fwd'], c['rev'] = gen.solve(
                    hs, t, p.start(), p.d)
                gs = [-1j * h for h in hs]
                dirs = [[-1j * h for h in p.h_ctrl]] * len(t)
            c['dprop'] = [[ref.frechet(g * dt, e[k] * dt) for g, dt, e in zip(
                gs, t, dirs)] for k in range(p.n_ctrl)]
            if kind == 'mc':
                smp = s.noise_trace_generator.noise_samples
                nh = p.noisy_hams(y, smp) if tau is None else _noisy(
                    p, x, u, y, smp)
                sol = [gen.solve(h, t, p.start(), p.d) for h in nh]
                for i, n in enumerate(('prop_n', 'fwd_n', 'rev_n')):
                    c[n] = [q[i] for q in sol]
                c['dprop_n'] = [[[ref.frechet(
                    -1j * h * dt, -1j * e * dt) for h, dt in zip(tr, t)]
                    for e in p.h_ctrl] for tr in nh]
            cache[key] = c
        return cache[key]

    reads = dict(prop='propagators', fwd='forward_propagators',
                 rev='reversed_propagators',
                 dprop='frechet_deriv_propagators', t='transferred_time',
                 x='transferred_parameters')
    if kind == 'mc':
        reads.update(prop_n='propagators_noise',
                     fwd_n='forward_propagators_noise',
                     rev_n='reversed_propagators_noise',
                     dprop_n='frechet_deriv_propagators_noise')
    names = list(reads)
    def wild(times):
        # nothing a method resolves in double precision; depends on the times
        x = p.transferred(y, times)
        return np.max(np.abs(x)) > 60 or np.max(np.abs(p.u_of(x))) \
            > 30 * p.amp_unit

    for step in range(int(rng.integers(8, 26))):
        if wild(tau):
            mon.event('skipped_wild')
            return
        o = ['new', 'same', 'past', 'mutate', 'reject', 'refuse', 'times',
             'read', 'read', 'read', 'read', 'pulse', 'bump', 'bump',
             'rearrange'][rng.integers(15)]
        if faults is not None and rng.random() < .4:
            o = 'crash' if rng.random() < .85 else 'refuse_times'
        trace.append(o)
        note = f'{kind} {p.name()} step {step}: {trace}'
        if o == 'new':
            y = p.params(rng)
            past.append(y.copy())
            handed = y.copy()
            s.set_optimization_parameters(handed)
        elif o == 'same':
            handed = y.copy()
            s.set_optimization_parameters(handed)
        elif o == 'past':
            y = past[rng.integers(len(past))].copy()
            handed = y.copy()
            s.set_optimization_parameters(handed)
        elif o == 'mutate':
            # the caller reuses his buffer, as optimizers do
            handed[...] = p.params(rng)
        elif o == 'rearrange':
            # same values at other places, other signs
            y = [y[::-1], y[:, ::-1], -y, np.roll(y, 1, 0)][
                rng.integers(4)].copy()
            past.append(y.copy())
            handed = y.copy()
            s.set_optimization_parameters(handed)
        elif o == 'bump':
            # in place update, then passed again
            handed[...] = y
            i, j = rng.integers(len(y)), rng.integers(y.shape[1])
            handed[i, j] += [.25, 1e-3, 1e-5, 2e-7 * max(
                1, abs(y[i, j])), -2 * y[i, j]][rng.integers(5)]
            y = handed.copy()
            past.append(y.copy())
            s.set_optimization_parameters(handed)
        elif o == 'reject':
            if p.rtf.kind == 'identity' and p.amp_name.startswith('custom'):
                continue
            bad = [np.ones((len(y) + 1, y.shape[1])),
                   np.ones((len(y), y.shape[1] + 1)),
                   np.ones(len(y))][rng.integers(3)]
            mon.raises('rejected', Exception,
                       s.set_optimization_parameters, bad)
        elif o == 'refuse':
            if amp is None:
                continue
            armed[0] = True
            try:
                new = p.params(rng)
                if np.array_equal(new, y):
                    continue
                mon.raises('rejected', Refuse,
                           s.set_optimization_parameters, new)
            finally:
                armed[0] = False
        elif o == 'times':
            tau = p.tau * float(rng.choice([.5, 1., 2.])) if p.equal else \
                rng.uniform(.05, 1, size=p.n_t) * p.unit
            arg = tau.copy()
            s.set_times(arg)
            arg *= rng.uniform(.2, 3)
        elif o == 'crash':
            n = names[rng.integers(len(names))]
            trace[-1] = 'crash ' + n
            faults.error = [Refuse, KeyboardInterrupt, ValueError,
                            MemoryError][rng.integers(4)]
            faults.left = int(2 ** rng.uniform(0, 7)) - 1
            hits = faults.hits
            try:
                got = getattr(s, reads[n])
            except (Refuse, KeyboardInterrupt, ValueError, MemoryError):
                if faults.hits == hits:
                    raise
                got = None
            finally:
                faults.left = None
            mon.event('interrupted' if faults.hits > hits else
                      'completed')
            if got is not None:
                mon.close('fresh_' + n, dat(got), np.array(want()[n]),
                          1e-8, 1e-8, note)
        elif o == 'refuse_times':
            if amp is None:
                continue
            new = tau * 2 if p.equal else p.unit * rng.uniform(
                .05, 1, size=p.n_t)
            if wild(new):
                continue
            armed[0] = True
            try:
                s.set_times(new.copy())
                refused = False
            except Refuse:
                refused = True
            finally:
                armed[0] = False
            old = tau
            if refused:
                # the times of the pulse may or may not have been taken over,
                # but no read gives anything in between
                n = names[rng.integers(len(names))]
                try:
                    got = dat(getattr(s, reads[n]))
                except Exception:
                    got = None
                    mon.event('refused_read')
                if got is not None and got.dtype != object:
                    good = []
                    for tau in (old, new):
                        w = np.array(want()[n])
                        good.append(got.shape == w.shape and np.allclose(
                            got, w, 1e-8, 1e-8))
                    mon.check('refused_times', any(good), note + ' ' + n)
                elif got is not None and n not in 'tx':
                    mon.check('refused_times', False, note + ' ' + n)
            tau = new
            s.set_times(tau.copy())
            handed = y.copy()
            s.set_optimization_parameters(handed)
        elif o == 'pulse':
            if kind == 'lindblad' or p.d < 2:
                continue
            ps = s.create_pulse_sequence()
            w = want()
            f = [np.eye(p.d)]
            for q in w['prop']:
                f.append(q @ f[-1])
            mon.close('fresh_pulse_sequence', np.asarray(ps.propagators),
                      np.array(f), 1e-8, 1e-8, note)
        else:
            n = names[rng.integers(len(names))]
            got = getattr(s, reads[n])
            ok = mon.close('fresh_' + n, dat(got), np.array(want()[n]),
                           1e-8, 1e-8, note)
            if not ok:
                return
    for n in names if not wild(tau) else []:
        mon.close('fresh_' + n, dat(getattr(s, reads[n])),
                  np.array(want()[n]), 1e-8, 1e-8, f'{kind} end: {trace}')
    mon.event('history_steps', len(trace))
    mon.describe(kind=kind, problem=p.name(), operations=trace)
    mon.sig(kind, *trace)


def _noisy(p, x, u, y, samples):
    n = p.naf_values(np.transpose(samples, (2, 1, 0)), x, u, y)
    hs = p.hams(u)
    return [[hs[t] + sum(n[t, k, o] * h for o, h in enumerate(p.h_noise))
             for t in range(len(hs))] for k in range(p.n_traces)]


def plain(mon, rng, idx):
    run(mon, rng, 'plain')


def monte_carlo(mon, rng, idx):
    run(mon, rng, 'mc')


def lindblad(mon, rng, idx):
    run(mon, rng, 'lindblad')


def interrupted(mon, rng, idx):
    """A calculation which is interrupted leaves nothing incomplete."""
    with Faults() as f:
        run(mon, rng, ['plain', 'mc', 'lindblad'][idx % 3], f)
    mon.event('fault_points', f.calls)


def unsupported(mon, rng, idx):
    """What a solver cannot calculate, it refuses every time."""
    which = ['method', 'approximation', 'processes', 'count'][idx % 4] \
        if idx % 8 < 4 else ['method', 'approximation'][idx % 2]
    kind = 'mc' if which in ('processes', 'count') else [
        'plain', 'mc', 'lindblad'][rng.integers(3)]
    kw = dict(method=dict(exponential_method='unknown'),
              approximation=dict(frechet_deriv_approx_method='unknown'),
              processes=dict(processes=2),
              count=dict(processes=[0, -1, 'two', 1.5][rng.integers(4)])
              )[which]
    a = dict(n_t=int(rng.integers(1, 4)), tf='random' if rng.random() < .5
             else None)
    if kind == 'lindblad':
        p = gen.LindbladProblem(rng, d=2, **a)
    elif kind == 'mc':
        p = gen.MonteCarloProblem(rng, always_redraw=False, **a)
    else:
        p = gen.Problem(rng, **a)
    if which != 'method':
        kw['exponential_method'] = gen.METHODS[rng.integers(2)]
    deriv = bool(rng.random() < .3)
    kw['calculate_unitary_derivatives' if kind == 'lindblad' else
       'calculate_propagator_derivatives'] = deriv
    build = {'lindblad': getattr(p, 'lindblad', None),
             'mc': getattr(p, 'monte_carlo', None),
             'plain': p.schroedinger}[kind]
    s = build(**kw)
    y = p.params(rng)
    s.set_optimization_parameters(y.copy())
    if which == 'method':
        other = {}
    else:
        other = dict(exponential_method=kw['exponential_method'])
    if kind == 'mc':
        other['noise_trace_generator'] = s.noise_trace_generator
    good = build(**other)
    good.set_optimization_parameters(y.copy())
    reads = ['propagators', 'forward_propagators', 'reversed_propagators',
             'frechet_deriv_propagators']
    if kind == 'mc':
        reads += [n + '_noise' for n in reads]
    trace = []
    for step in range(8 if which == 'processes' else 14):
        n = reads[rng.integers(len(reads))]
        trace.append(n)
        note = f'{which} {kw} {p.name()} {trace}'
        try:
            got = getattr(s, n)
        except Exception as e:
            mon.event('refused')
            mon.sig(which, kind, n, deriv, type(e).__name__)
            continue
        want = np.array(dat(getattr(good, n)))
        try:
            got = np.array(dat(got), dtype=complex)
        except Exception:
            mon.check('no_placeholders', False, note)
            return
        mon.close('no_placeholders', got, want, 1e-8, 1e-8, note)
    mon.describe(refused=which, problem=p.name(), reads=trace)


def tiny(mon, rng, idx):
    """Updates which are only just larger than rounding errors, as in finite
    differences: a live solver agrees with a fresh one to rounding."""
    kind = ['plain', 'mc', 'lindblad'][idx % 3]
    tfk = 'random' if rng.random() < .5 else None
    m = gen.METHODS[rng.integers(2)]
    if kind == 'lindblad':
        p = gen.LindbladProblem(rng, n_t=int(rng.integers(1, 4)), tf=tfk,
                                d=2)
    elif kind == 'mc':
        p = gen.MonteCarloProblem(rng, tf=tfk, always_redraw=False,
                                  n_t=int(rng.integers(1, 4)))
    else:
        p = gen.Problem(rng, tf=tfk)
    build = {'lindblad': getattr(p, 'lindblad', None),
             'mc': getattr(p, 'monte_carlo', None),
             'plain': p.schroedinger}[kind]
    s = build(exponential_method=m)
    names = ['propagators', 'forward_propagators', 'reversed_propagators',
             'transferred_parameters', 'frechet_deriv_propagators']
    if kind == 'mc':
        names += ['propagators_noise', 'forward_propagators_noise',
                  'reversed_propagators_noise']
    y = p.params(rng)
    s.set_optimization_parameters(y.copy())
    note = f'{kind} {p.name()} {m}'
    mon.describe(problem=note)
    for step in range(4):
        for n in names:
            if rng.random() < .6:
                getattr(s, n)
        y = y.copy()
        if rng.random() < .8:
            i, j = rng.integers(len(y)), rng.integers(y.shape[1])
            y[i, j] += 10 ** rng.uniform(-10.5, -3)
        else:
            y = y * (1 + 10 ** rng.uniform(-10, -3))
        s.set_optimization_parameters(y.copy())
        f = build(exponential_method=m)
        f.set_optimization_parameters(y.copy())
        for n in names:
            a, b = dat(getattr(s, n)), dat(getattr(f, n))
            mon.close('tiny_update', a, b, 0,
                      1e-13 * (1 + np.max(np.abs(b))), f'{n} {note}')
    mon.sig('tiny', kind, *p.sig())


def twins(mon, rng, idx):
    """Two solvers built from the same operators do not disturb each other."""
    p = gen.Problem(rng, tf='random' if idx % 2 else None)
    kw = p.kwargs()
    from qopt.solver_algorithms import SchroedingerSolver
    shared = {k: kw[k] for k in ('h_drift', 'h_ctrl', 'initial_state')}
    sol = []
    for _ in range(2):
        sol.append(SchroedingerSolver(
            tau=p.tau.copy(), transfer_function=p.qtf(),
            amplitude_function=p.qamp(), exponential_method=gen.METHODS[
                rng.integers(3)], **shared))
    ys = [p.params(rng) for _ in range(2)]
    for s, y in zip(sol, ys):
        s.set_optimization_parameters(y.copy())
    for step in range(8):
        i = int(rng.integers(2))
        if rng.random() < .4:
            ys[i] = p.params(rng)
            sol[i].set_optimization_parameters(ys[i].copy())
        props, fwd, rev = p.solve(p.amps(ys[i]), p.times())
        mon.close('twin_forward', dat(sol[i].forward_propagators),
                  np.array(fwd), 1e-8, 1e-8, p.name())
        mon.close('twin_reversed', dat(sol[i].reversed_propagators),
                  np.array(rev), 1e-8, 1e-8, p.name())
        sol[i].frechet_deriv_propagators
    mon.sig('twins', *p.sig())


WORKLOADS = dict(plain=(plain, 500, 8000), monte_carlo=(monte_carlo, 250,
                                                       3000),
                 lindblad=(lindblad, 200, 2500), twins=(twins, 150, 1500),
                 tiny=(tiny, 150, 2000),
                 interrupted=(interrupted, 450, 6000),
                 unsupported=(unsupported, 120, 1000))
REQUIRED = ['fresh_prop', 'fresh_fwd', 'fresh_rev', 'fresh_dprop',
            'fresh_t', 'fresh_x', 'fresh_prop_n', 'fresh_fwd_n',
            'fresh_rev_n', 'fresh_dprop_n', 'fresh_pulse_sequence',
            'rejected', 'twin_forward', 'tiny_update', 'refused_times',
            'no_placeholders']
