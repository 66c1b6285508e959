"""C08: the Lindblad solver solves the master equation."""
import numpy as np

from qopt.matrix import convert_unitary_to_super_operator

from . import gen, ref
from .ref import dat, op
from .pc02 import cond_of

PROPERTY = 'C08'
RULE = ('Random open systems (dimension 1-3, 1-3 dissipators: dense, '
        'Hermitian, jump, nilpotent, also much faster than the rest), the dissipator given in each of the '
        'three documented ways with and without prefactors depending on '
        'controls and transferred parameters, random transfer and amplitude '
        'functions; oracles: own exponentials of generators assembled from '
        'the defining action on matrix units, Runge-Kutta integration of the '
        'master equation, complete positivity, trace preservation, '
        'semigroup/agreement with the unitary limit, Frechet derivatives.')
ASSUMES = ['column-wise vectorisation', 'a dissipator is always given']


def solve(mon, rng, idx):
    p = gen.LindbladProblem(rng, way=idx % 3 + 1, initial='random',
                            tf='random' if rng.random() < .6 else None,
                            n_t=int(rng.integers(1, 4)))
    if rng.random() < .3:
        # decay which is much faster than the rest of the dynamics
        fast = 10 ** rng.uniform(0, 2.5)
        p.l_ops = [l * np.sqrt(fast) for l in p.l_ops]
        p.dissipators = [x * fast for x in p.dissipators]
    m = [None, 'Frechet', 'spectral'][rng.integers(3)]
    kw = dict(exponential_method=m,
              calculate_unitary_derivatives=bool(rng.random() < .4))
    ops = []
    if p.way == 1:
        ops = kw['initial_diss_super_op'] = [op(x) for x in p.dissipators]
    elif p.way == 2:
        ops = kw['lindblad_operators'] = [op(x) for x in p.l_ops]
    s = p.lindblad(**kw)
    note = f'{p.name()} {m}'
    mon.describe(problem=p.name(), method=m)
    with mon.guard('inputs_unchanged', *(list(ops) + list(s.h_ctrl) + list(
            s.h_drift))):
        for rnd in range(2):
            y = p.params(rng, .7)
            x = p.transferred(y)
            u = p.u_of(x)
            t = p.times()
            gens = p.generators(u, x)
            if m == 'spectral' and max(cond_of(g) for g in gens) > 1e4:
                return
            big = max(np.linalg.norm(g) * dt for g, dt in zip(gens, t))
            if big > 3000:
                return
            mon.event('fast_decay', int(big > 40))
            tol = 1e-7 if m == 'spectral' else 1e-8
            s.set_optimization_parameters(y.copy())
            props, fwd, rev = p.solve_y(y)
            if rng.random() < .5:
                s.frechet_deriv_propagators
            mon.close('propagators', dat(s.propagators), np.array(props),
                      tol, tol, note)
            mon.close('forward', dat(s.forward_propagators), np.array(fwd),
                      tol, tol, note)
            mon.close('reversed', dat(s.reversed_propagators),
                      np.array(rev), tol, tol, note)
            dirs = p.directions(u, x)
            want = np.array([[ref.frechet(g * dt, e[k] * dt)
                              for g, dt, e in zip(gens, t, dirs)]
                             for k in range(p.n_ctrl)])
            dt_ = tol if m != 'spectral' else 1e-5
            # per unit of the control amplitudes
            a = p.amp_unit
            mon.close('derivatives', a * dat(s.frechet_deriv_propagators),
                      a * want, dt_, dt_, note)
            # physics of the observed propagators
            d = p.d
            for q in dat(s.propagators):
                c = ref.choi(q)
                w = np.linalg.eigvalsh((c + c.conj().T) / 2)
                mon.check('completely_positive', w.min() > -1e-6 * d,
                          lambda: f'{w} {note}')
                one = ref.vec(np.eye(d)).conj().T
                mon.close('trace_preserving', one @ q, one, 0, 1e-6, note)
    mon.sig(*p.sig(), m)


def integrate(mon, rng, idx):
    p = gen.LindbladProblem(rng, way=idx % 3 + 1, initial='vec',
                            n_t=int(rng.integers(1, 3)), tf=None,
                            amp='none')
    y = p.params(rng, .5)
    s = p.lindblad()
    s.set_optimization_parameters(y)
    r = ref.unvec(p.super_initial)
    w = p.weights(y, y)
    for t, (h, tau) in enumerate(zip(p.hams(y), p.times())):
        def f(r):
            out = -1j * (h @ r - r @ h)
            for l, a in zip(p.l_ops, w[t]):
                ld = l.conj().T
                out = out + a * (l @ r @ ld - .5 * (ld @ l @ r + r @ ld @ l))
            return out
        size = np.linalg.norm(h) + sum(
            a * np.linalg.norm(l) ** 2 for a, l in zip(w[t], p.l_ops))
        n = int(np.ceil(size * tau / .03)) + 1
        if n > 3000:
            return
        dt = tau / n
        for _ in range(n):
            k1 = f(r)
            k2 = f(r + dt / 2 * k1)
            k3 = f(r + dt / 2 * k2)
            k4 = f(r + dt * k3)
            r = r + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    out = ref.unvec(dat(s.forward_propagators[-1]))
    mon.close('master_equation', out, r, 0, 1e-5, p.name())
    mon.close('trace_one', np.trace(out), 1., 1e-7)
    mon.check('state_positive', np.linalg.eigvalsh(
        (out + out.conj().T) / 2).min() > -1e-7)
    mon.sig('ode', *p.sig())


def limits(mon, rng, idx):
    """Zero dissipation is the unitary evolution; the ways agree."""
    p = gen.LindbladProblem(rng, way=2, prefactor=1,
                            n_t=int(rng.integers(1, 4)))
    y = p.params(rng, .7)
    zero = p.lindblad(prefactor_function=lambda u, x: np.zeros(
        (len(u), p.n_l)), prefactor_derivative_function=lambda u, x:
        np.zeros((len(u), p.n_ctrl, p.n_l)))
    zero.set_optimization_parameters(y)
    s = p.schroedinger(initial_state=None)
    s.set_optimization_parameters(y)
    for a, b in zip(zero.forward_propagators, s.forward_propagators):
        mon.close('unitary_limit', dat(a),
                  dat(convert_unitary_to_super_operator(b)), 1e-8, 1e-8)
    outs = []
    x = p.transferred(y)
    if max(np.linalg.norm(g) * dt for g, dt in zip(
            p.generators(p.u_of(x), x), p.times())) > 60:
        return
    for way in (1, 2, 3):
        p.way = way
        q = p.lindblad()
        q.set_optimization_parameters(y)
        outs.append((dat(q.forward_propagators),
                     p.amp_unit * dat(q.frechet_deriv_propagators)))
    for o in outs[1:]:
        mon.close('ways_agree', o[0], outs[0][0], 1e-8, 1e-8, p.name())
        mon.close('ways_agree_derivative', o[1], outs[0][1], 1e-7, 1e-7,
                  p.name())
    # the documented priority: function over Lindblad operators over super
    # operators
    p.way = 3
    wrong = [op(5 * d) for d in p.dissipators]
    extra = dict(lindblad_operators=[op(2 * l) for l in p.l_ops],
                 prefactor_function=lambda u, x: 3 * p.weights(u, x),
                 prefactor_derivative_function=lambda u, x: 3 * p.dweights(
                     u, x))
    for way, more in ((3, {}), (2, {}), (3, extra)):
        p.way = way
        q = p.lindblad(initial_diss_super_op=wrong, **more)
        q.set_optimization_parameters(y)
        mon.close('priority', dat(q.forward_propagators), outs[0][0], 1e-8,
                  1e-8)
        mon.close('priority_derivative',
                  p.amp_unit * dat(q.frechet_deriv_propagators),
                  outs[0][1], 1e-7, 1e-7)
    # without derivative functions the dissipation counts as constant
    p.way = int(rng.integers(1, 4))
    q = p.lindblad(with_derivative=False)
    q.set_optimization_parameters(y)
    x = p.transferred(y)
    u = p.u_of(x)
    hs = [ref.hamiltonian_super(h) for h in p.h_ctrl]
    a = p.amp_unit
    mon.close('derivative_of_constant_dissipation', a * dat(
        q.frechet_deriv_propagators), np.array([[a * ref.frechet(
            g * dt, h * dt) for g, dt in zip(p.generators(u, x), p.times())]
            for h in hs]), 1e-7, 1e-7, p.name())
    mon.sig('limits', *p.sig())


WORKLOADS = dict(solve=(solve, 600, 8000), integrate=(integrate, 120, 1200),
                 limits=(limits, 90, 900))
REQUIRED = ['propagators', 'forward', 'reversed', 'derivatives',
            'completely_positive', 'trace_preserving', 'master_equation',
            'unitary_limit', 'ways_agree', 'priority', 'priority_derivative',
            'derivative_of_constant_dissipation', 'inputs_unchanged']
