"""Exhaustive bounded exploration of configurations and call histories.

A *space* is a finite set of states. Each state is a complete description of a
situation (airplane, flight state, controls, propeller state, call history).
Two kinds are used:

Deviations: every subset of at most `bound` deviations of a menu, applied to
    each base situation. The transitions are the edges "one more deviation".
Product:    every combination of the values of some axes. The transitions are
    the edges "next value of one axis".

History spaces (mc/checks/c01.py, c02.py) enumerate call sequences and count
their own states and transitions.

The engine visits every state, replays it on the code under test and on the
reference model, and reports what it covered. Nothing is sampled: a run that
did not visit every state says so and fails.
"""
import hashlib
import importlib
import itertools
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, TimeoutError as FutureTimeout
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 3
QUICK_SECONDS = float(os.environ.get('MC_SECONDS', 780))  # the quick tier reports what it has covered by then
PROFILE = os.environ.get('MC_PROFILE')       # file for the time each case took


class CaseTimeout(BaseException):
    pass


class Degenerate(Exception):
    """The situation is outside the domain of the property (coincident
    vortices and the like); decided on the reference model alone."""


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def canon(x):
    """Canonical form of a state; two states with the same form are the same
    situation."""
    return hashlib.sha1(json.dumps(jsonable(x), sort_keys=True).encode()).digest()[:10]


class Deviations(object):
    """All subsets of at most `bound` deviations. A deviation is (group, name,
    function); deviations of one group exclude each other. The function
    changes the situation in place or returns False if it does not apply."""

    def __init__(self, name, bases, menu, bound, chunk=None):
        self.name, self.bases, self.menu, self.bound = name, bases, menu, bound
        self.chunk = chunk

    def ids(self):
        n = len(self.menu)
        for k in range(self.bound + 1):
            for b in range(len(self.bases)):
                for sub in itertools.combinations(range(n), k):
                    groups = [self.menu[i][0] for i in sub]
                    if len(set(groups)) == k:
                        yield (b,) + sub

    def make(self, cid):
        bname, base = self.bases[cid[0]]
        cfg = base()
        for i in cid[1:]:
            if self.menu[i][2](cfg) is False:
                return None
        return cfg

    def label(self, cid):
        return '/'.join([self.name, self.bases[cid[0]][0]] + [self.menu[i][1] for i in cid[1:]])

    def edges(self, cid):
        return len(cid) - 1

    def describe(self):
        return '%s: every subset of at most %d of %d deviations from %d base situations' % (
            self.name, self.bound, len(self.menu), len(self.bases))


class Product(object):
    """Every combination of the axis values. `make` gets the values."""

    def __init__(self, name, axes, make, chunk=None):
        self.name, self.axes, self._make = name, axes, make
        self.chunk = chunk

    def ids(self):
        return itertools.product(*[range(len(v)) for _, v in self.axes])

    def make(self, cid):
        return self._make(*[v[i] for (_, v), i in zip(self.axes, cid)])

    def label(self, cid):
        return self.name + '/' + ','.join('%s=%s' % (n, _short(v[i])) for (n, v), i in zip(self.axes, cid))

    def edges(self, cid):
        return sum(1 for i in cid if i > 0)

    def describe(self):
        return '%s: every combination of %s' % (
            self.name, ' x '.join('%d %s' % (len(v), n) for n, v in self.axes))


def _short(v):
    s = json.dumps(jsonable(v), sort_keys=True)
    return s if len(s) < 60 else s[:57] + '...'


class Ctx(object):
    """Collects what one case did."""

    def __init__(self):
        self.fails = []
        self.traces = 0
        self.obs = []
        self.extra_states = 0
        self.extra_edges = 0
        self.maxerr = 0.
        self.notes = {}

    def note(self, what, n=1):
        """Count something worth reporting."""
        self.notes[what] = self.notes.get(what, 0) + n

    def fail(self, text):
        self.fails.append(text)

    def close(self, what, got, want, scale, tol):
        """Require |got - want| <= tol * scale, entry by entry."""
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail('%s has shape %s, expected %s' % (what, g.shape, w.shape))
            return False
        if g.size == 0:
            return True
        s = np.maximum(np.asarray(scale, dtype=float), 1e-300)
        with np.errstate(all='ignore'):
            err = np.abs(g - w) / s
            err = np.where(np.isnan(g) | np.isnan(w), np.inf, err)
            err = np.where(np.isinf(g) & (g == w), 0., err)
        worst = float(np.max(err))
        if worst <= tol:
            self.maxerr = max(self.maxerr, worst)
            return True
        i = np.unravel_index(int(np.argmax(err)), err.shape) if err.ndim else ()
        where = '' if not err.ndim else str(list(int(j) for j in i))
        self.fail('%s%s is %.12g, expected %.12g (scale %.3g)' % (
            what, where, g[i], w[i], float(np.broadcast_to(s, err.shape)[i])))
        return False

    def equal(self, what, got, want):
        if got != want:
            self.fail('%s is %s, expected %s' % (what, _short(got), _short(want)))
            return False
        return True

    def true(self, what, cond):
        if not cond:
            self.fail(what)
        return bool(cond)

    def saw(self, x):
        """Note an observed outcome (to count distinct ones)."""
        self.obs.append(x)


_SPACES = None
_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _worker_init(scratch):
    os.environ['MC_SCRATCH'] = scratch
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def classify(tb_text, exc):
    """Whether an exception belongs to the code under test."""
    from . import impl
    frames = traceback.extract_tb(exc.__traceback__)
    root = os.path.realpath(os.path.join(impl.REPO, 'machup')) + os.sep
    if any(os.path.realpath(f.filename).startswith(root) for f in frames):
        return 'code'
    if frames and os.path.basename(frames[-1].filename) in ('ref.py', 'spec.py', 'engine.py', 'menu.py'):
        return 'harness'
    if any(os.path.basename(f.filename) in ('ref.py', 'spec.py', 'menu.py') for f in frames):
        return 'harness'
    return 'shape'


def run_case(si, cid, cfg=None, limit=60):
    space = _SPACES[si] if cfg is None else None
    ctx = Ctx()
    try:
        if cfg is None:
            cfg = space.make(cid)
        if cfg is None:
            return None
        key = canon(cfg)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            _MOD.check(cfg, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Degenerate:
        if not ctx.fails:
            return None
    except CaseTimeout:
        ctx.fail('did not finish within %d s' % limit)
    except SystemExit as e:
        ctx.fail('ended the process (exit %s)' % e.code)
    except Exception as e:
        tb = traceback.format_exc()
        kind = classify(tb, e)
        if kind == 'code':
            last = [f for f in traceback.extract_tb(e.__traceback__)][-1]
            ctx.fail('raised %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.name))
        elif kind == 'shape':
            ctx.fail('malformed result: %s: %s' % (type(e).__name__, str(e)[:200]))
        else:
            return ('error', tb)
    obs = canon(ctx.obs) if ctx.obs else None
    return ('ok', key, ctx.fails, ctx.traces, obs, ctx.extra_states, ctx.extra_edges, ctx.maxerr, ctx.notes)


def _run_chunk(items):
    limit = getattr(_MOD, 'CASE_LIMIT', 120)
    out = []
    for si, cid in items:
        t = time.time()
        r = run_case(si, cid, limit=limit)
        if PROFILE:
            with open(PROFILE, 'a') as f:
                f.write('%.2f %s\n' % (time.time() - t, _SPACES[si].label(cid)))
        out.append((si, cid, r))
        if r and r[0] == 'ok' and r[2]:
            break               # the run is going to fail: report it quickly
    return out


def load_known():
    """Committed findings: {(property, label)}."""
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property='):
                head, _, what = line[len('known: property='):].partition(' :: ')
                pid, _, label = head.partition(' case=')
                known[(pid, label)] = what
    return known


def write_replay(pid, space, cid, label, cfg, fails, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (pid, hashlib.sha1(label.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, space=space, id=list(cid), label=label, fails=fails,
                       situation=jsonable(cfg)), f, indent=1)
    return path


def main(pid, tier=None, replay=None, workers=None):
    global _SPACES, _MOD
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    os.environ['MC_SCRATCH'] = scratch
    os.environ.setdefault('MPLCONFIGDIR', scratch)
    pool = None
    try:
        _MOD = importlib.import_module('mc.checks.%s' % pid.lower())
        _SPACES = _MOD.spaces(tier)
        if replay:
            rec = json.load(open(replay))
            if rec['tier'] != tier:
                _SPACES = _MOD.spaces(rec['tier'])
            si = [i for i, s in enumerate(_SPACES) if s.name == rec['space']][0]
            _worker_init(scratch)
            r = run_case(si, tuple(rec['id']), limit=getattr(_MOD, 'CASE_LIMIT', 120))
            print(rec['label'])
            if r and r[0] == 'error':
                print(r[1])
                return 2
            for f in r[2]:
                print('  ' + f)
            print('reproduced' if r[2] else 'not reproduced')
            return 1 if r[2] else 0
        known = load_known()
        items = [(si, tuple(cid)) for si, s in enumerate(_SPACES) for cid in s.ids()]
        n = workers or min(8, os.cpu_count() or 1)
        chunks = []
        for si, s in enumerate(_SPACES):
            mine = [it for it in items if it[0] == si]
            size = getattr(s, 'chunk', None) or max(1, min(32, len(mine) // (n * 8) or 1))
            k = -(-len(mine) // size)       # neighbours cost about the same: spread them over the chunks
            chunks += [mine[i::k] for i in range(k)]
        seen, outcomes = set(), set()
        visited = skipped = edges = traces = xs = xe = 0
        maxerr = 0.
        counts = {}
        violations, found = [], []
        error = None
        samples = []
        ctxm = multiprocessing.get_context('fork')
        pool = ProcessPoolExecutor(max_workers=n, mp_context=ctxm, initializer=_worker_init, initargs=(scratch,))
        futs = [pool.submit(_run_chunk, c) for c in chunks]
        stop = False
        unfinished = 0
        deadline = time.time() + QUICK_SECONDS if tier == 'quick' else None
        for fu in futs:
            if stop:
                fu.cancel()
                continue
            try:
                results = fu.result(timeout=None if deadline is None else max(0., deadline - time.time()))
            except FutureTimeout:
                unfinished += 1
                fu.cancel()
                continue
            for si, cid, r in results:
                if r is None:
                    skipped += 1
                    continue
                if r[0] == 'error':
                    error = (si, cid, r[1])
                    stop = True
                    break
                _, key, fails, tr, obs, es, ee, me, notes = r
                for k, v in notes.items():
                    counts[k] = counts.get(k, 0) + v
                visited += 1
                seen.add((si, key))
                edges += _SPACES[si].edges(cid)
                traces += tr
                xs += es
                xe += ee
                maxerr = max(maxerr, me)
                if obs:
                    outcomes.add(obs)
                label = _SPACES[si].label(cid)
                if visited in (1, 2) or visited % max(1, len(items) // 6) == 0:
                    samples.append(label)
                if fails:
                    if (pid, label) in known:
                        found.append((label, known[(pid, label)]))
                        continue
                    violations.append((si, cid, label, fails))
                    if len(violations) >= MAX_VIOLATIONS:
                        stop = True
                        break
            if violations:
                stop = True
        stop = stop or unfinished > 0
        if stop:
            for fu in futs:
                fu.cancel()
        pool.shutdown(wait=not stop, cancel_futures=True)
        if stop:
            for pr in list((getattr(pool, '_processes', None) or {}).values()):
                try:
                    pr.kill()
                except Exception:
                    pass
        pool = None
        if error:
            print('harness error in %s' % _SPACES[error[0]].label(error[1]))
            print(error[2])
            return 2
        cov = dict(states=len(seen) + xs, transitions=edges + xe, traces_validated_against_impl=traces,
                   samples=samples[:8], situations_visited=visited, not_applicable_combinations=skipped,
                   distinct_outcomes=len(outcomes), exhaustive=not stop,
                   spaces=[s.describe() for s in _SPACES], largest_accepted_error=maxerr,
                   known_findings=len(found), parts_not_explored_in_time=unfinished, **counts)
        if hasattr(_MOD, 'coverage'):
            cov.update(_MOD.coverage(tier))
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                  assumptions=list(getattr(_MOD, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
                  violations=len(violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w') as f:
            json.dump(ev, f, indent=1)
        for label, what in found:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        for si, cid, label, fails in violations:
            try:
                cfg = _SPACES[si].make(cid)
            except Exception:
                cfg = None
            path = write_replay(pid, _SPACES[si].name, cid, label, cfg, fails, tier)
            print('%s' % label)
            for f in fails[:6]:
                print('    ' + f)
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if violations:
            return 1
        if traces == 0 or visited == 0 or len(outcomes) < 2:
            print('vacuous run: visited=%d compared=%d outcomes=%d' % (visited, traces, len(outcomes)))
            return 2
        if unfinished:
            print('time limit: %d of %d parts of the spaces were not explored' % (unfinished, len(chunks)))
        print('%s %s: %d states, %d transitions, %d comparisons with the code, %d distinct outcomes, %.1f s'
              % (pid, tier, cov['states'], cov['transitions'], traces, len(outcomes), time.time() - t0))
        return 0
    except BrokenProcessPool:
        print('a worker process died')
        return 2
    finally:
        if pool is not None:
            pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(scratch, ignore_errors=True)
