"""C14: gradients of the cost functions."""
import numpy as np

from . import costs, ref
from .costs import Skip
from .lean import lean
from .ref import fd_checked

PROPERTY = 'C14'
RULE = ('Random control problems (Schroedinger, Monte Carlo with recorded '
        'draws, Lindblad with control dependent dissipation) with every cost '
        'function which offers a gradient (state, state on a subspace, '
        'operation in Hilbert and Liouville space, noise, leakage; '
        'computational subspaces, rescaling, closest unitary, systematic '
        'errors neglected or not); oracle: sixth order central differences '
        'of the independent reference cost by the control amplitudes at '
        'random and at special points (perfect gate, no controls).')
ASSUMES = ['noise amplitudes do not depend on the control amplitudes',
           'exact (not GRAPE approximated) propagator derivatives',
           'rescaled states / closest unitaries have full rank',
           'FilterFunction infidelity: see C20']


def grads(mon, rng, idx):
    kind = costs.KINDS[idx % len(costs.KINDS)]
    kw = dict(tf='random' if rng.random() < .3 else None,
              amp='random' if rng.random() < .3 else 'none')
    c = costs.make(rng, kind, **kw)
    p = c.p
    if p.n_x * p.n_ctrl > 24:
        return
    a = p.amp_unit
    s, cost = c.build()
    mon.describe(kind=kind, problem=c.note, method=c.method)
    note = f'{kind} {c.note} {c.method} always={c.always}'
    for rnd in range(2):
        y = p.params(rng)
        if rng.random() < .1:
            y = 0 * y
        s.set_optimization_parameters(y.copy())
        order = rng.random() < .5
        if order:
            value = cost.costs()
        g = np.array(cost.grad())
        if not order:
            value = cost.costs()
        x = p.transferred(y)
        u = p.u_of(x)
        smp = c.samples(s)
        try:
            want = c.value(u, x, smp)
            # per unit of the control amplitudes
            num, err = fd_checked(lambda v: c.value(v * a, x, smp), u / a)
        except Skip:
            mon.event('skipped_rank_deficient')
            continue
        mon.close('value', value, want, 0, 1e-7, note)
        if g.ndim == 3 and g.shape[1] == 1:
            g = g[:, 0]
        mon.close('gradient:' + kind, g * a, num, 1e-6, 1e-6 + err, note)
        mon.check('real', np.isrealobj(g), note)
        g2 = np.array(cost.grad())
        mon.close('gradient_repeated', a * g2.reshape(g.shape), a * g, 0, 1e-13,
                  note)
    mon.sig(kind, c.note, c.method, c.always)


def stationary(mon, rng, idx):
    """At the target the fidelity is maximal: the gradient vanishes."""
    from qopt import cost_functions as cf
    from . import gen
    kind = idx % 3
    p = gen.Problem(rng, initial=['ket', 'none', 'none'][kind],
                    n_t=int(rng.integers(1, 5)))
    y = p.params(rng)
    f = p.solve(p.amps(y), p.times())[1][-1]
    s = p.schroedinger(exponential_method=gen.METHODS[rng.integers(3)])
    s.set_optimization_parameters(y)
    ph = np.exp(1j * rng.uniform(0, 7))
    if kind == 0:
        c = cf.StateInfidelity(s, ref.op((f * ph).conj().T))
    elif kind == 1:
        c = cf.OperationInfidelity(s, ref.op(f * ph))
    else:
        c = cf.LeakageError(s, list(range(p.d)))
    mon.close('minimum_value', c.costs(), 0., 0, 1e-9, p.name())
    g = c.grad()
    mon.close('minimum_gradient', p.amp_unit * g, np.zeros((p.n_x, p.n_ctrl)), 0, 1e-8,
              p.name())
    mon.sig('stationary', kind, *p.sig())


def descent(mon, rng, idx):
    """A small step against the gradient lowers the cost observed from the
    same objects."""
    kind = costs.KINDS[idx % len(costs.KINDS)]
    c = costs.make(rng, kind, tf=None, amp='none')
    p = c.p
    s, cost = c.build()
    y = p.params(rng)
    s.set_optimization_parameters(y.copy())
    try:
        smp = c.samples(s) if kind != 'noise' else (
            s.propagators_noise and c.samples(s))
        c.value(p.amps(y), p.transferred(y), smp)
    except Skip:
        return
    a = cost.costs()
    g = np.array(cost.grad()).reshape(y.shape)
    n = np.linalg.norm(g)
    if not np.isfinite(n) or n < 1e-3:
        return
    vals = []
    for h in (1e-4, -1e-4):
        s.set_optimization_parameters(y + h * g / n)
        vals.append(cost.costs())
    mon.close('directional', (vals[0] - vals[1]) / 2e-4, n, 1e-3, 1e-4,
              c.note)
    mon.check('descent', vals[1] < a < vals[0] or n < 1e-2, c.note)
    mon.sig('descent', kind, c.note)


def helpers(mon, rng, idx):
    """The functions behind the gradients, called with propagators."""
    from qopt import cost_functions as cf
    op = ref.op
    d = int(rng.choice([2, 2, 3, 4]))
    n_t, n_c = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    tau = rng.uniform(.1, 1.5, size=n_t)
    ctrl = [ref.herm(rng, d) for _ in range(n_c)]
    props = [ref.unitary(rng, d) for _ in range(n_t)]
    target = ref.unitary(rng, d)
    fwd = ref.ordered(props, d)
    # product of all the steps behind t
    rest = [np.eye(d, dtype=complex)]
    for q in props[::-1]:
        rest.append(rest[-1] @ q)
    total = fwd[-1]
    overlap = np.trace(target.conj().T @ total)
    scalar = bool(rng.random() < .5)
    if scalar:
        tau[:] = tau[0]
    du = [[-1j * tau[t] * h @ props[t] for t in range(n_t)] for h in ctrl]
    want = np.zeros((n_t, n_c))
    for k in range(n_c):
        for t in range(n_t):
            x = np.trace(target.conj().T @ rest[n_t - 1 - t] @ du[k][t]
                         @ fwd[t])
            want[t, k] = 2 / d ** 2 * (np.conj(overlap) * x).real
    a_fwd, a_rest = [op(x) for x in fwd], [op(x) for x in rest]
    a_props, a_ctrl = [op(x) for x in props], [op(x) for x in ctrl]
    note = f'd={d} n_t={n_t} n_c={n_c}'
    args = a_fwd + a_rest + a_props + a_ctrl
    with mon.guard('arguments_unchanged', *args):
        got = cf.derivative_entanglement_fidelity(
            a_ctrl, a_fwd, a_rest, list(tau) if rng.random() < .5 else tau,
            op(target))
        mon.close('helper_grape', got, want, 1e-10, 1e-10, note)
        got = cf.derivative_entanglement_fidelity_with_du(
            target=op(target), forward_propagators=a_fwd,
            propagator_derivatives=[[op(x) for x in r] for r in du],
            reversed_propagators=a_rest)
        mon.close('helper_with_du', got, want, 1e-10, 1e-10, note)
        if d == 2:
            a_du = np.empty((n_t, n_c), dtype=object)
            a_h = np.empty((n_t, n_c), dtype=object)
            for t in range(n_t):
                for k in range(n_c):
                    a_du[t, k] = op(du[k][t])
                    a_h[t, k] = a_ctrl[k]
            got = cf.derivative_average_gate_fid_with_du(
                a_props, a_fwd, a_du, op(target))
            mon.close('helper_average_with_du', got, 2 / 3 * want, 1e-10,
                      1e-10, note)
            if scalar:
                got = cf.derivative_average_gate_fidelity(
                    a_h, a_props, a_fwd, tau[0], op(target))
                mon.close('helper_average_grape', got, 2 / 3 * want, 1e-10,
                          1e-10, note)
    mon.sig('helpers', note)


def factors(mon, rng, idx):
    """The derivatives of the fidelities, called with propagators which
    belong to no solver, on computational subspaces."""
    from qopt import cost_functions as cf
    from .pc13 import channel_fid, ent_fid, subspace
    from .pc04 import ref_ptrace
    op = ref.op
    k = idx % 4
    n_t, n_c = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    dims, remove, resc = None, None, False
    if k == 3:
        dims = [int(x) for x in rng.integers(1, 4, size=rng.integers(1, 4))]
        remove = [int(i) for i in rng.permutation(len(dims))[
            :rng.integers(0, len(dims) + 1)]]
        d = int(np.prod(dims))
        if d < 2:
            return
    else:
        d = int(rng.integers(2, 5 if k < 2 else 4))
    n = d ** 2 if k == 2 else d
    props = [ref.unitary(rng, n) if rng.random() < .5 else ref.cplx(
        rng, n, n) / np.sqrt(n) for _ in range(n_t)]
    du = [[ref.cplx(rng, n, n) for _ in props] for _ in range(n_c)]
    rest = [np.eye(n, dtype=complex)]
    for q in props[::-1]:
        rest.append(rest[-1] @ q)
    fwd = [ref.ket(rng, d) if k in (0, 3) else np.eye(n, dtype=complex)]
    for q in props:
        fwd.append(q @ fwd[-1])
    sub = subspace(rng, d) if k < 3 and rng.random() < .6 else None
    if k < 2:
        resc = bool(rng.random() < .5) and sub is not None
    ds = len(sub) if sub else d
    if k == 3:
        ds = int(np.prod([m for i, m in enumerate(dims) if i not in remove]))
    tgt = ref.ket(rng, ds).conj().T if k in (0, 3) else ref.unitary(rng, ds)
    part = fwd[-1][sub] if sub and k == 0 else fwd[-1][np.ix_(
        sub, sub)] if sub and k == 1 else np.eye(1)
    if resc and np.linalg.svd(part)[1].min() < .2:
        mon.event('skipped_rank_deficient')
        return

    def value(x):
        if k == 0:
            v = x[sub] if sub else x
            v = v / np.linalg.norm(v) if resc else v
            return abs((tgt @ v)[0, 0]) ** 2
        if k == 1:
            return ent_fid(tgt, x, sub, resc)
        if k == 2:
            return channel_fid(tgt, x, sub)
        return (tgt @ ref_ptrace(x @ x.conj().T, dims, remove)
                @ tgt.conj().T)[0, 0].real
    want = np.empty((n_t, n_c))
    for t, c in np.ndindex(n_t, n_c):
        e = rest[n_t - 1 - t] @ du[c][t] @ fwd[t]
        h = 1e-3 / max(1., np.linalg.norm(e))
        want[t, c] = sum(w * value(fwd[-1] + m * h * e) for m, w in zip(
            (-3, -2, -1, 1, 2, 3), (-1, 9, -45, 45, -9, 1))) / 60 / h
    args = [op(x) for x in fwd], [[op(x) for x in r] for r in du], [
        op(x) for x in rest]
    note = f'd={d} n_t={n_t} n_c={n_c} sub={sub} {resc} {dims} {remove}'
    mon.describe(function=k, setup=note)
    with mon.guard('arguments_unchanged', *args[0], *args[2],
                   *[x for r in args[1] for x in r]):
        if k == 0:
            f, kw = cf.derivative_state_fidelity, dict(
                computational_states=sub, rescale_propagated_state=resc)
        elif k == 1:
            f, kw = cf.derivative_entanglement_fidelity_with_du, dict(
                computational_states=sub, map_to_closest_unitary=resc)
        elif k == 2:
            f, kw = cf.deriv_entanglement_fid_sup_op_with_du, dict(
                computational_states=sub)
        else:
            f, kw = cf.derivative_state_fidelity_subspace, None
        if kw is None:
            got = f(op(tgt), *args, dims, remove)
        else:
            got = lean(rng, f, op(tgt), *args, **kw)
    mon.close('factors:' + f.__name__, got, want, 1e-6, 1e-6, note)
    mon.sig('factors', k, note)


def offered(mon, rng, idx):
    """A gradient which is not implemented is refused; it is never a wrong
    one. Judged by differences of the costs of the same object."""
    from qopt import cost_functions as cf
    from . import gen
    k = idx % 7
    note = None
    if k < 3:
        mode = ['scalar', 'vector', 'rotation_axis'][k]
        d = 2 if k == 2 else int(rng.integers(2, 4))
        p = gen.Problem(rng, d=d, n_t=int(rng.integers(1, 4)), tf=None,
                        amp='none', initial='none')
        s = p.schroedinger()
        t = ref.unitary(rng, d)
        t = t * np.exp(-1j * np.angle(t[0, 0]))
        c = cf.OperatorMatrixNorm(s, ref.op(t), mode=mode)
        note = mode
    elif k == 6:
        p = gen.LindbladProblem(rng, tf=None, amp='none', d=2)
        s = p.lindblad()
        c = cf.LeakageLiouville(s, [0])
    else:
        p = gen.MonteCarloProblem(
            rng, tf=None, amp='none', d=2, always_redraw=False, naf=0,
            initial='ket' if k == 3 else 'none')
        s = p.monte_carlo()
        if k == 3:
            c = cf.StateNoiseInfidelity(s, ref.op(ref.ket(rng, 2)),
                                        neglect_systematic_errors=False)
        elif k == 4:
            c = cf.LiouvilleMonteCarloEntanglementInfidelity(
                s, ref.op(ref.unitary(rng, 2)))
        else:
            c = cf.IncoherentLeakageError(s, [0])
    y = p.params(rng)

    def value(v):
        s.set_optimization_parameters(v)
        if k in (3, 4, 5):
            s.propagators_noise
        return np.atleast_1d(np.array(c.costs(), dtype=float))
    value(y)
    note = f'{type(c).__name__} {note} {p.name()}'
    try:
        g = np.array(c.grad())
    except NotImplementedError:
        mon.event('not_offered')
        mon.sig('offered', note)
        return
    # fails for costs with kinks only next to a kink
    num, err = fd_checked(value, y)
    num = np.moveaxis(num, -1, 1)
    if g.ndim == 2:
        g = g[:, None]
    mon.close('offered_gradient', g, num, 1e-5, 1e-5 + err, note)
    mon.sig('offered', note)


WORKLOADS = dict(factors=(factors, 120, 2500), offered=(offered, 70, 1000), helpers=(helpers, 80, 2000), grads=(grads, 700, 9000), stationary=(stationary, 90, 1500),
                 descent=(descent, 180, 3000))
REQUIRED = ['value',
            'factors:derivative_state_fidelity',
            'factors:derivative_entanglement_fidelity_with_du',
            'factors:deriv_entanglement_fid_sup_op_with_du',
            'factors:derivative_state_fidelity_subspace',
            'not_offered', 'helper_grape', 'helper_average_with_du',
            'helper_average_grape', 'helper_with_du', 'minimum_gradient', 'descent', 'directional'] + [
    'gradient:' + k for k in costs.KINDS]
