"""Random (problem, solver, cost function) triples with reference costs as
function of the control amplitudes."""
import numpy as np

from . import gen, ref
from . import pc13
from .pc13 import Skip, channel_fid, polar, ptrace, subspace
from .ref import op


def well(v):
    # differences over 1e-2 have to be smooth
    return pc13.well(v, .05)


def ent_fid(target, prop, sub=None, closest=False):
    return pc13.ent_fid(target, prop, sub, closest, .05)


def brief(rng, kw, **defaults):
    """Options which have their documented default are left out at times."""
    for k, v in defaults.items():
        if k in kw and kw[k] is v and rng.random() < .6:
            del kw[k]
    return kw


DEFAULTS = dict(computational_states=None, rescale_propagated_state=False,
                map_to_closest_unitary=False, neglect_systematic_errors=True,
                super_operator_formalism=False)
KINDS = ['state', 'state_sub', 'operation', 'lindblad', 'noise', 'leakage']


class Cost:
    """p: problem; build() makes a fresh (solver, cost function) pair;
    value(u, x): reference cost; samples(solver) picks the draw."""


def make(rng, kind, **kw):
    from qopt import cost_functions as cf
    c = Cost()
    c.kind = kind
    c.method = gen.METHODS[rng.integers(3)]
    c.always = bool(rng.random() < .4)
    kw.setdefault('n_t', int(rng.integers(1, 4)))
    base = dict(exponential_method=c.method,
                calculate_propagator_derivatives=c.always)
    if kind == 'state':
        p = c.p = gen.Problem(rng, initial='ket', **kw)
        sub = subspace(rng, p.d) if rng.random() < .6 else None
        resc = bool(rng.random() < .6) and sub is not None
        tgt = ref.ket(rng, len(sub) if sub else p.d)

        opts = brief(rng, dict(computational_states=sub,
                               rescale_propagated_state=resc), **DEFAULTS)

        def build():
            s = p.schroedinger(**base)
            return s, cf.StateInfidelity(s, op(tgt.conj().T), **opts)

        def final(f):
            v = f[sub] if sub else f
            if resc:
                v = well(v) / np.linalg.norm(v)
            return 1 - abs(np.vdot(tgt, v)) ** 2
        c.note = f'{p.name()} sub={sub} rescale={resc}'
    elif kind == 'state_sub':
        kw.pop('d', None)
        d = [2, 4, 6][rng.integers(3)]
        p = c.p = gen.Problem(rng, initial='ket', d=d, **kw)
        dims = {2: [2], 4: [2, 2], 6: [[2, 3], [3, 2]][rng.integers(2)]}[d]
        rem = [] if len(dims) == 1 else [int(rng.integers(2))]
        tgt = ref.ket(rng, int(np.prod([
            x for i, x in enumerate(dims) if i not in rem])))

        def build():
            s = p.schroedinger(**base)
            return s, cf.StateInfidelitySubspace(
                s, op(tgt.conj().T), dims=dims, remove=rem)

        def final(f):
            r = ptrace(f @ f.conj().T, dims, rem)
            return 1 - (tgt.conj().T @ r @ tgt)[0, 0].real
        c.note = f'{p.name()} dims={dims} remove={rem}'
    elif kind == 'operation':
        p = c.p = gen.Problem(rng, initial=['none', 'unitary'][
            rng.integers(2)], **kw)
        sub = subspace(rng, p.d) if rng.random() < .6 else None
        closest = bool(rng.random() < .6) and sub is not None
        tgt = ref.unitary(rng, len(sub) if sub else p.d)

        opts = brief(rng, dict(computational_states=sub,
                               map_to_closest_unitary=closest), **DEFAULTS)

        def build():
            s = p.schroedinger(**base)
            return s, cf.OperationInfidelity(s, op(tgt), **opts)

        def final(f):
            return 1 - ent_fid(tgt, f, sub, closest)
        c.note = f'{p.name()} sub={sub} closest={closest}'
    elif kind == 'leakage':
        kw.setdefault('d', int(rng.integers(2, 5)))
        p = c.p = gen.Problem(rng, initial='none', **kw)
        sub = subspace(rng, p.d)

        def build():
            s = p.schroedinger(**base)
            return s, cf.LeakageError(s, computational_states=sub)

        def final(f):
            v = f[np.ix_(sub, sub)]
            return 1 - np.sum(np.abs(v) ** 2) / len(sub)
        c.note = f'{p.name()} sub={sub}'
    elif kind == 'lindblad':
        kw.setdefault('prefactor', int(rng.integers(2)))
        p = c.p = gen.LindbladProblem(rng, **kw)
        sub = subspace(rng, p.d) if rng.random() < .6 else None
        tgt = ref.unitary(rng, len(sub) if sub else p.d)
        m = c.method = gen.METHODS[rng.integers(2)]
        always = c.always

        def build():
            s = p.lindblad(exponential_method=m,
                           calculate_unitary_derivatives=always)
            return s, cf.OperationInfidelity(
                s, op(tgt), computational_states=sub,
                super_operator_formalism=True)

        def final(f):
            return 1 - channel_fid(tgt, f, sub)
        c.note = f'{p.name()} sub={sub}'
    else:
        p = c.p = gen.MonteCarloProblem(rng, initial='none', naf=0,
                                        always_redraw=False, **kw)
        sub = subspace(rng, p.d) if rng.random() < .6 else None
        closest = bool(rng.random() < .5) and sub is not None
        # the documented use neglects systematic errors
        neglect = bool(rng.random() < .6)
        # subtracting a non-unitary ideal evolution is only an infidelity
        # after mapping to the closest unitary
        tgt = ref.unitary(rng, len(sub) if sub else p.d)

        opts = brief(rng, dict(
            computational_states=sub, map_to_closest_unitary=closest,
            neglect_systematic_errors=neglect), **DEFAULTS)
        without = neglect and rng.random() < .6

        def build():
            s = p.monte_carlo(**base)
            return s, cf.OperationNoiseInfidelity(
                s, None if without else op(tgt), **opts)
        c.note = f'{p.name()} sub={sub} closest={closest} neglect={neglect}'
    if kind == 'noise':
        def value(u, x, smp):
            t = p.times()
            ideal = p.solve(u, t)[1][-1]
            if neglect:
                b = ideal[np.ix_(sub, sub)] if sub else ideal
                b = polar(well(b)) if closest else b
            else:
                b = tgt
            hs = p.hams(u)
            out = []
            for k in range(p.n_traces):
                h = [hs[i] + sum(smp[o, k, i] * q for o, q in enumerate(
                    p.h_noise)) for i in range(len(hs))]
                out.append(1 - ent_fid(b, gen.solve(
                    h, t, p.start(), p.d)[1][-1], sub, closest))
            return np.mean(out)
        c.samples = lambda s: s.noise_trace_generator.log[-1]
    elif kind == 'lindblad':
        def value(u, x, smp):
            g = p.generators(u, x)
            props = [ref.expm(a * t) for a, t in zip(g, p.times())]
            return final(gen.products(props, p.start(), p.d ** 2)[1][-1])
        c.samples = lambda s: None
    else:
        def value(u, x, smp):
            return final(p.solve(u, p.times())[1][-1])
        c.samples = lambda s: None
    c.build = build
    c.value = value
    return c


__all__ = ['make', 'KINDS', 'Skip']
