"""C13: fidelities and infidelities have the documented value."""
import numpy as np

from . import gen, ref
from .lean import lean
from .ref import dat, op

PROPERTY = 'C13'
RULE = ('Random states, density matrices, unitaries, truncated propagators '
        'and channels in dimension 1-6 with random (unsorted) computational '
        'subspaces and tensor decompositions handed to the fidelity '
        'functions, and random control problems evaluated by every cost '
        'function class; oracles: explicit sums over basis states, Choi '
        'states, metamorphic relations (global phase, common rotation, '
        'Hilbert space = Liouville space, channel average = average over '
        'traces).')
ASSUMES = ['targets are normalised states or unitaries',
           'truncated propagators mapped to the closest unitary have full '
           'rank']


def subspace(rng, d):
    k = int(rng.integers(1, d + 1))
    return [int(x) for x in rng.permutation(d)[:k]]


def polar(m):
    a, _, b = np.linalg.svd(m)
    return a @ b


class Skip(Exception):
    pass


def well(v, least=1e-3):
    """Rescaling needs a state / operator of full rank."""
    if np.linalg.svd(v)[1].min() < least:
        raise Skip()
    return v


def ent_fid(target, prop, sub=None, closest=False, least=1e-3):
    if sub is not None:
        prop = prop[np.ix_(sub, sub)]
        if closest:
            prop = polar(well(prop, least))
    d = len(target)
    s = sum(np.vdot(target[:, i], prop[:, i]) for i in range(d))
    return abs(s) ** 2 / d ** 2


def channel_fid(target, sup, sub=None):
    """<Phi| (T^dag E)(Phi) |Phi> with the maximally entangled state on the
    subspace, element by element."""
    full = int(round(np.sqrt(len(sup))))
    sub = list(range(full)) if sub is None else sub
    d = len(sub)
    out = 0
    for i in range(d):
        for j in range(d):
            e = np.zeros((full, full), complex)
            e[sub[i], sub[j]] = 1
            r = ref.unvec(sup @ ref.vec(e))[np.ix_(sub, sub)]
            out += (target.conj().T @ r @ target)[i, j]
    return out.real / d ** 2


def ptrace(rho, dims, remove):
    n = len(dims)
    t = rho.reshape(list(dims) * 2)
    keep = [i for i in range(n) if i not in remove]
    out = 0
    for idx in np.ndindex(*[dims[i] for i in remove]):
        sl = [slice(None)] * (2 * n)
        for r, v in zip(remove, idx):
            sl[r] = v
            sl[n + r] = v
        out = out + t[tuple(sl)]
    k = int(np.prod([dims[i] for i in keep])) if keep else 1
    return np.reshape(out, (k, k))


def give(rng, m):
    """As array or as operator."""
    return np.array(m) if rng.random() < .4 else op(m)


def states(mon, rng, idx):
    from .costs import DEFAULTS, brief
    from qopt.cost_functions import state_fidelity, state_fidelity_subspace
    d = int(rng.integers(1, 7))
    psi = ref.ket(rng, d)
    if rng.random() < .3:
        psi[rng.integers(d)] = 0
        psi = psi / max(np.linalg.norm(psi), 1e-3)
    sub = subspace(rng, d) if rng.random() < .6 else None
    resc = bool(rng.random() < .5) and sub is not None and \
        np.linalg.norm(psi[sub]) > 1e-3
    ds = len(sub) if sub else d
    tgt = ref.ket(rng, ds).conj().T
    if rng.random() < .2:
        tgt = psi[sub].conj().T if sub else psi.conj().T
        n = np.linalg.norm(tgt)
        tgt = tgt / n if n > 1e-6 else ref.ket(rng, ds).conj().T
    part = psi[sub] if sub else psi
    if resc:
        part = part / np.linalg.norm(part)
    want = abs(sum(tgt[0, i] * part[i, 0] for i in range(ds))) ** 2
    a, b = give(rng, tgt), give(rng, psi)
    mon.describe(d=d, sub=sub, rescale=resc)
    note = f'd={d} sub={sub} rescale={resc}'
    with mon.guard('arguments_unchanged', a, b):
        got = state_fidelity(a, b, **brief(rng, dict(
            computational_states=sub, rescale_propagated_state=resc),
            **DEFAULTS))
    mon.close('state_fidelity', got, want, 0, 1e-10, note)
    mon.check('range', -1e-12 <= got <= 1 + 1e-9, note)
    ph = np.exp(1j * rng.uniform(0, 7))
    mon.close('global_phase', state_fidelity(
        give(rng, tgt), give(rng, psi * ph), computational_states=sub,
        rescale_propagated_state=resc), got, 0, 1e-10, note)
    if sub is None:
        u = ref.unitary(rng, d)
        mon.close('common_rotation', state_fidelity(
            give(rng, tgt @ u.conj().T), give(rng, u @ psi)), got, 0, 1e-10,
            note)
        mon.close('equal_states', state_fidelity(
            give(rng, psi.conj().T), give(rng, psi)),
            np.linalg.norm(psi) ** 4, 0, 1e-10, note)
    # product spaces
    while True:
        dims = [int(x) for x in rng.integers(1, 4, size=rng.integers(1, 4))]
        if 1 < np.prod(dims) <= 18:
            break
    n = len(dims)
    remove = [int(x) for x in rng.permutation(n)[:rng.integers(0, n)]]
    keep = [i for i in range(n) if i not in remove]
    big = int(np.prod(dims))
    dk = int(np.prod([dims[i] for i in keep]))
    tgt = ref.ket(rng, dk).conj().T
    kind = ['ket', 'square', 'vector'][idx % 3]
    if kind == 'ket':
        k = ref.ket(rng, big)
        r = k @ k.conj().T
        arg = k
    else:
        r = ref.rho(rng, big)
        arg = r if kind == 'square' else ref.vec(r)
    want = (tgt @ ptrace(r, dims, remove) @ tgt.conj().T)[0, 0].real
    note = f'{kind} dims={dims} remove={remove}'
    a, b = give(rng, tgt), give(rng, arg)
    with mon.guard('arguments_unchanged', a, b):
        got = state_fidelity_subspace(a, b, dims=dims, remove=remove)
    mon.close('state_fidelity_subspace', got, want, 0, 1e-10, note)
    mon.check('range', -1e-12 <= got <= 1 + 1e-9, note)
    # operators which are no states: the modulus of the overlap
    arg = ref.cplx(rng, big, big)
    want = abs((tgt @ ptrace(arg, dims, remove) @ tgt.conj().T)[0, 0])
    got = state_fidelity_subspace(op(tgt), op(ref.vec(arg)), dims=dims,
                                  remove=remove)
    mon.close('complex_overlap', np.abs(got), want, 1e-4, 1e-4, note)
    if d > 1:
        mon.raises('not_scalar', (ValueError, AssertionError),
                   state_fidelity, give(rng, psi), give(rng, psi))
    mon.sig('states', d, sub, resc, kind, dims, remove)


def gates(mon, rng, idx):
    from qopt.cost_functions import entanglement_fidelity, \
        entanglement_fidelity_super_operator, averge_gate_fidelity
    d = int(rng.integers(1, 6))
    u = ref.unitary(rng, d)
    sub = subspace(rng, d) if rng.random() < .6 else None
    ds = len(sub) if sub else d
    t = ref.unitary(rng, ds)
    if rng.random() < .2 and sub is None:
        t = u * np.exp(1j * rng.uniform(0, 7))
    v = u[np.ix_(sub, sub)] if sub else u
    closest = bool(rng.random() < .5) and sub is not None and \
        np.linalg.svd(v)[1].min() > 1e-3
    note = f'd={d} sub={sub} closest={closest}'
    mon.describe(d=d, sub=sub, closest=closest)
    want = ent_fid(t, u, sub, closest)
    a, b = give(rng, t), give(rng, u)
    with mon.guard('arguments_unchanged', a, b):
        got = lean(rng, entanglement_fidelity, a, b, computational_states=sub,
                   map_to_closest_unitary=closest)
    mon.close('entanglement_fidelity', got, want, 0, 1e-10, note)
    mon.check('range', -1e-12 <= got <= 1 + 1e-9, note)
    ph = np.exp(1j * rng.uniform(0, 7))
    mon.close('global_phase', entanglement_fidelity(
        give(rng, t), give(rng, ph * u), computational_states=sub,
        map_to_closest_unitary=closest), got, 0, 1e-10, note)
    if sub is None:
        w = ref.unitary(rng, d)
        mon.close('common_rotation', entanglement_fidelity(
            give(rng, t @ w), give(rng, u @ w)), got, 0, 1e-10, note)
        mon.close('common_rotation', entanglement_fidelity(
            give(rng, w @ t), give(rng, w @ u)), got, 0, 1e-10, note)
        mon.close('equal_gates', entanglement_fidelity(
            give(rng, u), give(rng, u)), 1., 0, 1e-10, note)
        # a target in the place of the propagator and vice versa
        mon.close('symmetric', entanglement_fidelity(
            give(rng, u), give(rng, t)), got, 0, 1e-10, note)
    # Liouville space
    s = ref.unitary_super(u)
    a, b = give(rng, t), give(rng, s)
    with mon.guard('arguments_unchanged', a, b):
        gs = entanglement_fidelity_super_operator(
            a, b, computational_states=sub)
    mon.close('channel_fidelity', gs, channel_fid(t, s, sub), 0, 1e-9, note)
    if not closest:
        mon.close('hilbert_equals_liouville', gs, got, 0, 1e-9, note)
    # mixture of unitaries and dissipation
    us = [ref.unitary(rng, d) for _ in range(int(rng.integers(2, 4)))]
    p = rng.dirichlet(np.ones(len(us)))
    mix = sum(x * ref.unitary_super(y) for x, y in zip(p, us))
    mon.close('mixture', entanglement_fidelity_super_operator(
        give(rng, t), give(rng, mix), computational_states=sub),
        sum(x * ent_fid(t, y, sub) for x, y in zip(p, us)), 0, 1e-9, note)
    ch = ref.expm(ref.hamiltonian_super(ref.herm(rng, d)) + sum(
        ref.dissipator_super(ref.cplx(rng, d, d) * .5) for _ in range(2)))
    gc = entanglement_fidelity_super_operator(
        give(rng, t), give(rng, ch), computational_states=sub)
    mon.close('channel_fidelity', gc, channel_fid(t, ch, sub), 0, 1e-9,
              note)
    mon.check('range', -1e-9 <= gc <= 1 + 1e-9, note)
    # linear in the channel: differences of channels, derivatives
    dif = s - ch * float(rng.uniform(.5, 2))
    mon.close('linear_in_channel', entanglement_fidelity_super_operator(
        give(rng, t), give(rng, dif), computational_states=sub),
        channel_fid(t, dif, sub), 0, 1e-9, note)
    # average gate fidelity of a qubit
    a, b = ref.unitary(rng, 2), ref.unitary(rng, 2)
    f = ent_fid(b, a)
    oa, ob = op(a), op(b)
    with mon.guard('arguments_unchanged', oa, ob):
        ga = averge_gate_fidelity(oa, ob)
    mon.close('average_gate_fidelity', ga, (2 * f + 1) / 3, 0, 1e-9)
    # by definition: the mean over the states of a 2-design
    six = [np.array([[1], [0]]), np.array([[0], [1]])] + [
        np.array([[1], [x]]) / np.sqrt(2) for x in (1, -1, 1j, -1j)]
    av = np.mean([abs((k.conj().T @ b.conj().T @ a @ k)[0, 0]) ** 2
                  for k in six])
    mon.close('average_gate_fidelity', ga, av, 0, 1e-9)
    mon.sig('gates', d, sub, closest)


class Final:
    """Stands for a solver which arrived at the given propagator."""

    def __init__(self, final):
        self.forward_propagators = [op(np.eye(len(final))), op(final)]


def matrix_norm(mon, rng, idx):
    from qopt.cost_functions import OperatorMatrixNorm
    d = int(rng.integers(2, 5))
    mode = ['scalar', 'vector', 'rotation_axis'][idx % 3]
    if mode == 'rotation_axis':
        d = 2
    u, t = ref.unitary(rng, d), ref.unitary(rng, d)
    if abs(u[0, 0]) < 1e-3:
        return
    t = t * np.exp(-1j * np.angle(t[0, 0]))
    ot, s = op(t), Final(u)
    c = OperatorMatrixNorm(solver=s, target=ot, mode=mode)
    with mon.guard('arguments_unchanged', ot, *s.forward_propagators):
        got = np.array(c.costs())
    if mode == 'rotation_axis':
        def rot(m):
            m = m / np.sqrt(np.linalg.det(m))
            cb = np.trace(m).real / 2
            n = np.array([np.imag(np.trace(m @ x)) / 2
                          for x in (ref.SX, ref.SY, ref.SZ)])
            if cb < 0:
                cb, n = -cb, -n
            s = np.linalg.norm(n)
            return 2 * np.arctan2(s, cb) * n / s, 2 * np.arctan2(s, cb)
        (a, ba), (b, bb) = rot(t), rot(u)
        if min(ba, bb) < 1e-3 or max(ba, bb) > np.pi - 1e-3:
            return
        want = a - b
    else:
        diff = u * np.exp(-1j * np.angle(u[0, 0])) - t
        if mode == 'scalar':
            want = np.sum(np.abs(diff))
        else:
            want = np.concatenate([diff.real.reshape(-1),
                                   diff.imag.reshape(-1)])
    mon.close('matrix_norm_' + mode, got, want, 0, 1e-6, f'{mode} d={d}')
    c2 = OperatorMatrixNorm(solver=Final(u * np.exp(
        1j * rng.uniform(0, 7))), target=ot, mode=mode)
    mon.close('matrix_norm_phase', c2.costs(), got, 0, 1e-6, f'{mode} d={d}')
    if mode != 'rotation_axis':
        c3 = OperatorMatrixNorm(solver=Final(t), target=ot, mode=mode)
        mon.close('matrix_norm_zero', np.max(np.abs(c3.costs())), 0., 0,
                  1e-9)
        mon.check('matrix_norm_labels', len(c.label) == np.size(got))
        # an exchange of two states has no phase to compare with
        x = np.eye(d, dtype=complex)[np.r_[1, 0, 2:d]]
        x[2:, 2:] = ref.unitary(rng, d - 2) if d > 2 else x[2:, 2:]
        c4 = OperatorMatrixNorm(solver=Final(x), target=op(x), mode=mode)
        try:
            mon.close('matrix_norm_zero', np.max(np.abs(c4.costs())), 0., 0,
                      1e-9)
        except NotImplementedError:
            mon.event('matrix_norm_refused')
    mon.sig('norm', mode, d, round(abs(u[0, 0]), 2))


def classes(mon, rng, idx):
    """Cost function objects on live solvers."""
    from qopt import cost_functions as cf
    from .costs import DEFAULTS, brief
    k = idx % 6
    if k in (0, 1):
        p = gen.Problem(rng, initial='ket', d=[2, 3, 4, 6][
            rng.integers(4)] if k else None)
        s = p.schroedinger()
        if k == 0:
            sub = subspace(rng, p.d) if rng.random() < .5 else None
            resc = bool(rng.random() < .5) and sub is not None
            tgt = ref.ket(rng, len(sub) if sub else p.d)
            tg = op(tgt if rng.random() < .5 else tgt.conj().T)
            if tgt.size == 1:
                tg = op(tgt)
            c = cf.StateInfidelity(s, tg, **brief(rng, dict(
                computational_states=sub, rescale_propagated_state=resc),
                **DEFAULTS))

            def want(f, tgt=tgt.conj() if tg.shape == (1, 1) else tgt):
                v = f[sub] if sub else f
                if resc:
                    v = well(v) / np.linalg.norm(v)
                return 1 - abs(np.vdot(tgt, v)) ** 2
        else:
            dims = {2: [2], 3: [3], 4: [2, 2], 6: [[2, 3], [3, 2]][
                rng.integers(2)]}[p.d]
            rem = [] if len(dims) == 1 else [int(rng.integers(2))]
            dk = int(np.prod([x for i, x in enumerate(dims)
                              if i not in rem]))
            tgt = ref.ket(rng, dk)
            tg = op(tgt if rng.random() < .5 else tgt.conj().T)
            c = cf.StateInfidelitySubspace(s, tg, dims=dims, remove=rem)

            def want(f):
                r = ptrace(f @ f.conj().T, dims, rem)
                return 1 - (tgt.conj().T @ r @ tgt)[0, 0].real

        def ref_cost(y):
            return want(p.solve(p.amps(y), p.times())[1][-1])
        note = p.name()
    elif k == 2:
        p = gen.Problem(rng, initial=['none', 'unitary'][rng.integers(2)])
        s = p.schroedinger()
        sub = subspace(rng, p.d) if rng.random() < .5 else None
        closest = bool(rng.random() < .5) and sub is not None
        tgt = ref.unitary(rng, len(sub) if sub else p.d)
        c = cf.OperationInfidelity(s, op(tgt), **brief(rng, dict(
            computational_states=sub, map_to_closest_unitary=closest),
            **DEFAULTS))

        def ref_cost(y):
            f = p.solve(p.amps(y), p.times())[1][-1]
            return 1 - ent_fid(tgt, f, sub, closest)
        note = f'{p.name()} {sub} {closest}'
    elif k == 3:
        p = gen.LindbladProblem(rng)
        s = p.lindblad()
        sub = subspace(rng, p.d) if rng.random() < .5 else None
        tgt = ref.unitary(rng, len(sub) if sub else p.d)
        c = cf.OperationInfidelity(s, op(tgt), computational_states=sub,
                                   super_operator_formalism=True)

        def ref_cost(y):
            return 1 - channel_fid(tgt, p.solve_y(y)[1][-1], sub)
        note = f'{p.name()} {sub}'
    else:
        ket = k == 5
        p = gen.MonteCarloProblem(rng, initial='ket' if ket else 'none',
                                  always_redraw=False)
        s = p.monte_carlo()
        sub = subspace(rng, p.d) if rng.random() < .5 else None
        flag = bool(rng.random() < .5) and sub is not None
        neglect = bool(rng.random() < .5)
        d = len(sub) if sub else p.d
        tgt = ref.ket(rng, d) if ket else ref.unitary(rng, d)
        missing = bool(rng.random() < .4)
        # without a target, systematic errors cannot be measured
        opts = dict(computational_states=sub,
                    neglect_systematic_errors=neglect)
        neglect = neglect or missing
        if ket and tgt.size > 1:
            c = cf.StateNoiseInfidelity(
                s, None if missing else op(tgt), **brief(rng, dict(
                    opts, rescale_propagated_state=flag), **DEFAULTS))

            def one(f, t):
                v = f[sub] if sub else f
                if flag:
                    v = well(v) / np.linalg.norm(v)
                return 1 - abs(np.vdot(t, v)) ** 2

            def base(f):
                v = f[sub] if sub else f
                return well(v) / np.linalg.norm(v) if flag else v
            liouville = False
        elif ket:
            return
        else:
            liouville = bool(rng.random() < .4)
            if liouville:
                c = cf.LiouvilleMonteCarloEntanglementInfidelity(
                    s, op(tgt), computational_states=sub)
                neglect = flag = False
            else:
                c = cf.OperationNoiseInfidelity(
                    s, None if missing else op(tgt), **brief(rng, dict(
                        opts, map_to_closest_unitary=flag), **DEFAULTS))

            def base(f):
                v = f[np.ix_(sub, sub)] if sub else f
                return polar(well(v)) if flag else v

            def one(f, t):
                return 1 - ent_fid(t, f, sub, flag)

        def ref_cost(y):
            u, t = p.amps(y), p.times()
            smp = s.noise_trace_generator.log[-1]
            b = base(p.solve(u, t)[1][-1]) if neglect else tgt
            return np.mean([one(gen.solve(h, t, p.start(), p.d)[1][-1], b)
                            for h in p.noisy_hams(y, smp)])
        note = f'{p.name()} {sub} {flag} neglect={neglect} {liouville}'
    mon.describe(cost=type(c).__name__, problem=note)
    for _ in range(2):
        y = p.params(rng)
        s.set_optimization_parameters(y.copy())
        if k > 3:
            s.propagators_noise
        try:
            expected = ref_cost(y)
        except Skip:
            mon.event('skipped_rank_deficient')
            continue
        with mon.guard('solver_unchanged', *s.forward_propagators,
                       *s.propagators):
            got = c.costs()
            again = c.costs()
        mon.close('cost:' + type(c).__name__, got, expected, 0, 1e-7,
                  note)
        mon.check('reproducible', np.array_equal(got, again), note)
        mon.check('real_scalar', np.size(got) == 1 and np.isrealobj(got),
                  note)
    mon.sig(type(c).__name__, note)


def closed_limit(mon, rng, idx):
    """Without dissipation the Lindblad solver gives the Hilbert space
    result."""
    from qopt import cost_functions as cf
    p = gen.LindbladProblem(rng, way=2, prefactor=0)
    p.l_ops = [0 * l for l in p.l_ops]
    sub = subspace(rng, p.d) if rng.random() < .5 else None
    tgt = ref.unitary(rng, len(sub) if sub else p.d)
    a, b = p.schroedinger(), p.lindblad()
    y = p.params(rng)
    for s in (a, b):
        s.set_optimization_parameters(y)
    ca = cf.OperationInfidelity(a, op(tgt), computational_states=sub)
    cb = cf.OperationInfidelity(b, op(tgt), computational_states=sub,
                                super_operator_formalism=True)
    mon.close('closed_limit', cb.costs(), ca.costs(), 0, 1e-8, p.name())
    mon.sig('closed', *p.sig())


def labels(mon, rng, idx):
    """Every cost value is found by its name: given labels are kept, default
    labels are one per value and distinct, and the simulator passes them on."""
    from qopt import cost_functions as cf
    from qopt.simulator import Simulator
    d = 2
    n = int(rng.integers(1, 3))
    p = gen.Problem(rng, initial='none', d=d)
    s = p.schroedinger()
    m = gen.MonteCarloProblem(rng, initial='none', always_redraw=False)
    sm = m.monte_carlo()
    mk = gen.MonteCarloProblem(rng, initial='ket', always_redraw=False)
    smk = mk.monte_carlo()
    pk = gen.Problem(rng, initial='ket', d=d)
    sk = pk.schroedinger()
    lp = gen.LindbladProblem(rng)
    sl = lp.lindblad()
    t, k = op(ref.unitary(rng, d)), op(ref.ket(rng, d))
    comp = list(range(max(1, m.d - n)))
    lcomp = list(range(max(1, lp.d - n)))
    made = [
        (cf.OperatorMatrixNorm, (s, t), {}, 1),
        (cf.OperatorMatrixNorm, (s, t), dict(mode='vector'), 2 * d * d),
        (cf.OperatorMatrixNorm, (s, t), dict(mode='rotation_axis'), 3),
        (cf.StateInfidelity, (sk, k), {}, 1),
        (cf.StateInfidelitySubspace, (sk, k), dict(dims=[d], remove=[]), 1),
        (cf.StateNoiseInfidelity, (smk, op(ref.ket(rng, mk.d))),
         dict(neglect_systematic_errors=False), 1),
        (cf.OperationInfidelity, (s, t), {}, 1),
        (cf.OperationInfidelity, (sl, op(ref.unitary(rng, lp.d))),
         dict(super_operator_formalism=True), 1),
        (cf.OperationNoiseInfidelity, (sm, op(ref.unitary(rng, m.d))),
         dict(neglect_systematic_errors=False), 1),
        (cf.LiouvilleMonteCarloEntanglementInfidelity,
         (sm, op(ref.unitary(rng, m.d))), {}, 1),
        (cf.LeakageError, (s, [0]), {}, 1),
        (cf.IncoherentLeakageError, (sm, comp), {}, 1),
        (cf.LeakageLiouville, (sl, lcomp), {}, 1)]
    seen = []
    for cls, a, kw, size in made:
        name = cls.__name__ + ' ' + str(kw)
        given = [f'{name} {i} {rng.integers(1000)}' for i in range(size)]
        c = cls(*a, label=list(given), **kw)
        mon.check('given_labels', list(c.label) == given,
                  f'{name} {c.label}')
        f = cls(*a, **kw)
        mon.check('default_labels', len(f.label) == size
                  and len(set(f.label)) == size
                  and all(isinstance(x, str) and x for x in f.label),
                  f'{name} {f.label}')
        mon.check('labels_not_shared', f.label is not c.label and
                  cls(*a, **kw).label == f.label, name)
        seen.append((c, given))
    i = rng.choice(len(seen), 3, replace=False)
    fs = [seen[j][0] for j in i]
    sim = Simulator(solvers=list({id(f.solver): f.solver
                                  for f in fs}.values()), cost_funcs=fs)
    mon.check('simulator_labels', list(sim.cost_indices)
              == [x for j in i for x in seen[j][1]], str(i))
    mon.sig('labels', d, n)


WORKLOADS = dict(states=(states, 600, 12000), gates=(gates, 500, 10000),
                 matrix_norm=(matrix_norm, 150, 3000),
                 classes=(classes, 500, 9000),
                 closed_limit=(closed_limit, 60, 1000),
                 labels=(labels, 12, 200))
REQUIRED = ['linear_in_channel', 'state_fidelity', 'complex_overlap', 'state_fidelity_subspace', 'range',
            'global_phase', 'common_rotation', 'entanglement_fidelity',
            'channel_fidelity', 'hilbert_equals_liouville', 'mixture',
            'average_gate_fidelity', 'matrix_norm_scalar',
            'matrix_norm_vector', 'matrix_norm_rotation_axis',
            'cost:StateInfidelity', 'cost:StateInfidelitySubspace',
            'cost:OperationInfidelity', 'cost:StateNoiseInfidelity',
            'cost:OperationNoiseInfidelity',
            'cost:LiouvilleMonteCarloEntanglementInfidelity',
            'closed_limit', 'given_labels', 'default_labels',
            'simulator_labels', 'arguments_unchanged', 'solver_unchanged']
