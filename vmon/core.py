"""Monitor object, case runner, verdicts, evidence.

A property module defines

    PROPERTY   id of the property
    RULE       how cases are made and what makes one non-trivial
    ASSUMES    list of assumptions
    WORKLOADS  {name: (function, n_quick, n_thorough)}
    REQUIRED   names of the monitor events which must have been observed

A workload function has the signature f(mon, rng, idx). Every random choice is
drawn from rng, which is derived from (seed, workload, idx), so a case is
replayed by naming these three.

Three-valued verdict: exit 0 held on everything observed, exit 1 violated
(with VIOLATION lines), exit 2 inconclusive (a deciding monitor was never
reached or the watchdog fired).
"""
import contextlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')


class CaseTimeout(Exception):
    pass


class Mon:
    """Collects what the monitors observe."""

    def __init__(self):
        self.events = Counter()
        self.sigs = set()
        self.violations = {}
        self.n_violations = 0
        self.cases = Counter()
        self.samples = {}
        self.cur = None
        self.desc = None
        self.inconclusive = []
        self.max_dev = {}

    # -- bookkeeping -------------------------------------------------------
    def begin(self, workload, seed, idx):
        self.cur = (workload, seed, idx)
        self.desc = {}
        self.cases[workload] += 1

    def end(self):
        wl = self.cur[0]
        if self.desc and len(self.samples.setdefault(wl, [])) < 2:
            self.samples[wl].append(
                dict(workload=wl, seed=self.cur[1], idx=self.cur[2],
                     **self.desc))

    def describe(self, **kw):
        self.desc.update({k: _jsonable(v) for k, v in kw.items()})

    def event(self, name, n=1):
        self.events[name] += n

    def sig(self, *parts):
        """Register the (non-trivial) shape of the current case."""
        self.sigs.add('|'.join(str(p) for p in parts))

    # -- verdicts ----------------------------------------------------------
    def fail(self, mech, msg=''):
        self.n_violations += 1
        if mech not in self.violations:
            wl, seed, idx = self.cur
            self.violations[mech] = dict(
                mechanism=mech, message=str(msg)[:2000], workload=wl,
                seed=seed, idx=idx, case=_jsonable(self.desc))

    def check(self, mech, cond, msg=''):
        self.events[mech] += 1
        if not cond:
            self.fail(mech, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, mech, got, want, rtol=1e-9, atol=1e-10, msg=''):
        """Compares with atol + rtol * max|want| as absolute bound."""
        self.events[mech] += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(complex)
            if g.shape != w.shape:
                self.fail(mech, f'shape {g.shape} != expected {w.shape} '
                                f'{msg}')
                return False
            if g.size == 0:
                return True
            d = np.abs(g - w)
            bound = atol + rtol * np.max(np.abs(w))
            m = np.max(d)
        except Exception as e:
            self.fail(mech, f'not comparable: {e!r} got={got!r:.300} {msg}')
            return False
        if np.isfinite(m) and bound > 0:
            r = float(m / bound)
            if r > self.max_dev.get(mech, 0):
                self.max_dev[mech] = r
        if not m <= bound:
            self.fail(mech, f'max deviation {m:.3e} > {bound:.3e} {msg}\n'
                            f'got={np.array2string(g, threshold=40)}\n'
                            f'want={np.array2string(w, threshold=40)}')
            return False
        return True

    def raises(self, mech, exc, f, *a, **k):
        self.events[mech] += 1
        try:
            f(*a, **k)
        except exc:
            return True
        except CaseTimeout:
            raise
        except Exception as e:
            self.fail(mech, f'unexpected exception {e!r}')
            return False
        self.fail(mech, 'no exception')
        return False

    def guard(self, name, *arrays):
        """Context: the given arrays/operators may not be modified."""
        return _Guard(self, name, arrays)

    # -- merge -------------------------------------------------------------
    def merge(self, o):
        self.events += o.events
        self.sigs |= o.sigs
        self.cases += o.cases
        self.n_violations += o.n_violations
        for k, v in o.violations.items():
            w = self.violations.get(k)
            if w is None or (v['workload'], v['idx']) < (w['workload'],
                                                         w['idx']):
                self.violations[k] = v
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, [])
            s += v
            s.sort(key=lambda x: x['idx'])
            del s[2:]
        self.inconclusive += o.inconclusive
        for k, v in o.max_dev.items():
            if v > self.max_dev.get(k, 0):
                self.max_dev[k] = v


def raw(a):
    d = getattr(a, 'data', None)
    if isinstance(d, np.ndarray):
        return d
    return np.asarray(a)


class _Guard:
    def __init__(self, mon, name, arrays):
        self.mon, self.name, self.arrays = mon, name, arrays

    def __enter__(self):
        self.snap = [np.array(raw(a), copy=True) for a in self.arrays]
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            for i, (a, s) in enumerate(zip(self.arrays, self.snap)):
                r = raw(a)
                self.mon.check(self.name,
                               r.shape == s.shape and np.array_equal(
                                   r, s, equal_nan=True),
                               f'argument {i} was modified')
        return False


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return f'array{x.shape}'
        return _jsonable(x.tolist())
    if isinstance(x, (np.generic,)):
        return _jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


def case_rng(seed, workload, idx):
    return np.random.default_rng(
        [int(seed) & 0xffffffff, zlib.crc32(workload.encode()), int(idx)])


def _alarm(signum, frame):
    raise CaseTimeout()


CASE_LIMIT = int(os.environ.get('VMON_CASE_LIMIT', '240'))


def run_case(mon, mod, workload, seed, idx):
    f = mod.WORKLOADS[workload][0]
    rng = case_rng(seed, workload, idx)
    # the code under test draws from the global generator
    np.random.seed(int(rng.integers(2 ** 31)))
    mon.begin(workload, seed, idx)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(
                all='ignore'):
            f(mon, rng, idx)
    except CaseTimeout:
        mon.inconclusive.append(
            f'case {workload}/{idx} exceeded {CASE_LIMIT}s')
    except MemoryError as e:
        mon.inconclusive.append(f'case {workload}/{idx}: {e!r}')
    except Exception as e:
        # valid input of the public interface: an exception is an observed
        # violation. Named by the exception type and where it was raised.
        tb = traceback.extract_tb(e.__traceback__)
        where = [fr for fr in tb if '/qopt/' in fr.filename]
        name = where[-1].name if where else tb[-1].name
        mon.fail(f'exception:{workload}:{type(e).__name__}:{name}',
                 ''.join(traceback.format_exception(e))[-1800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    mon.end()


def _quiet():
    warnings.showwarning = lambda *a, **k: None
    import logging
    logging.disable(logging.CRITICAL)


def _worker(modname, seed, tasks, deadline):
    import importlib
    _quiet()
    mod = importlib.import_module('vmon.' + modname)
    mon = Mon()
    skipped = 0
    devnull = open(os.devnull, 'w')
    with contextlib.redirect_stderr(devnull):
        for wl, idx in tasks:
            if time.time() > deadline:
                skipped += 1
                continue
            run_case(mon, mod, wl, seed, idx)
    return mon, skipped


def load_findings(prop):
    """Known findings: {mechanism: text}."""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        f = dict(t.split('=', 1) for t in line.split()[1:3])
        if f.get('property') == prop:
            out[f['mechanism']] = line.split(None, 3)[3]
    return out


def main(argv):
    import importlib
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    jobs = int(os.environ.get('VMON_JOBS', '8'))
    only = None
    it = iter(argv[1:])
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '--replay':
            replay = next(it)
        elif a == '--only':
            only = next(it)
        elif a == '--jobs':
            jobs = int(next(it))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    modname = 'p' + prop.lower()
    t0 = time.time()
    _quiet()
    import qopt
    if not os.path.abspath(qopt.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        print(f'INCONCLUSIVE property={prop}: qopt is imported from '
              f'{qopt.__file__}, not from {REPO}')
        return 2
    mod = importlib.import_module('vmon.' + modname)

    if replay:
        r = json.load(open(replay))
        mon = Mon()
        run_case(mon, mod, r['workload'], r['seed'], r['idx'])
        known = load_findings(prop)
        for m, v in mon.violations.items():
            print(('KNOWN ' if m in known else '') + m, v['message'])
        print('reproduced' if mon.violations else 'not reproduced')
        return 1 if mon.violations else 0

    n_col = 1 if tier == 'quick' else 2
    tasks = []
    for wl, spec in mod.WORKLOADS.items():
        if only and wl != only:
            continue
        n = spec[n_col]
        if tier == 'quick':
            n = int(n * getattr(mod, 'QUICK_SCALE', 3))
        tasks += [(wl, i) for i in range(n)]
    # interleave so that every worker and a shortened run see every workload
    order = case_rng(0, prop, 0).permutation(len(tasks))
    first = [i for i in range(len(tasks)) if tasks[i][1] < 2]
    rest = [i for i in order if tasks[i][1] >= 2]
    tasks = [tasks[i] for i in first + rest]
    budget = float(os.environ.get(
        'VMON_BUDGET', '420' if tier == 'quick' else '3000'))
    deadline = t0 + budget
    n_chunks = max(jobs * 4, 1)
    chunks = [tasks[i::n_chunks] for i in range(n_chunks)]
    chunks = [c for c in chunks if c]
    total = Mon()
    skipped = 0
    hard = budget + CASE_LIMIT + 60
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(hard))
    try:
        if jobs == 1:
            for c in chunks:
                m, s = _worker(modname, seed, c, deadline)
                total.merge(m)
                skipped += s
        else:
            with ProcessPoolExecutor(jobs) as ex:
                futs = [ex.submit(_worker, modname, seed, c, deadline)
                        for c in chunks]
                for fu in as_completed(futs):
                    m, s = fu.result()
                    total.merge(m)
                    skipped += s
    except CaseTimeout:
        total.inconclusive.append('watchdog')
    except BrokenProcessPool as e:
        total.inconclusive.append(f'worker died: {e!r}')
    finally:
        signal.alarm(0)

    known = load_findings(prop)
    new, seen = [], []
    for mech, v in sorted(total.violations.items()):
        (seen if mech in known else new).append(v)
    for v in seen:
        print(f'KNOWN-FINDING: property={prop} {known[v["mechanism"]]}')
    rdir = os.path.join(VERIF, 'replays')
    for i, v in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        name = f'{prop}-{seed}-{zlib.crc32(v["mechanism"].encode()):08x}.json'
        path = os.path.join(rdir, name)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, **v), f, indent=1)
        if i < 8:
            print(f'VIOLATION property={prop} replay={path} '
                  f'mechanism={v["mechanism"]}')
            print('   ' + v['message'].replace('\n', '\n   ')[:1200])

    missing = [] if only else [e for e in mod.REQUIRED
                               if total.events[e] == 0]
    wall = time.time() - t0
    n_cases = sum(total.cases.values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=n_cases,
            distinct_nontrivial=len(total.sigs),
            rule=mod.RULE,
            samples=[s for wl in total.samples for s in total.samples[wl]],
            cases_per_workload=dict(total.cases),
            cases_skipped_for_time=skipped,
            monitor_events=dict(sorted(total.events.items())),
            worst_fraction_of_tolerance={
                k: round(v, 6) for k, v in sorted(total.max_dev.items())},
            monitors_never_reached=missing,
            known_findings_seen=[v['mechanism'] for v in seen],
            inconclusive=total.inconclusive[:20],
        ),
        assumptions=list(getattr(mod, 'ASSUMES', [])),
        wall_s=round(wall, 2),
        violations=len(new))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    print(f'{prop} {tier} seed={seed}: {n_cases} cases, '
          f'{len(total.sigs)} distinct, '
          f'{sum(total.events.values())} monitor events, '
          f'{len(new)} violations, {len(seen)} known findings, '
          f'{skipped} skipped, {wall:.1f}s')
    if new:
        return 1
    if total.inconclusive or missing:
        print(f'INCONCLUSIVE property={prop} never reached: {missing} '
              f'{total.inconclusive[:5]}')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
