"""Explorer core: units, choice-point exploration, recording, replay, evidence.

A *check* is a module in /verif/checks exposing

    PROPERTY, LEVEL, TECHNIQUE, LEVEL_NOTE, RULE
    units(tier, seed) -> list of JSON-able unit descriptors
    run_unit(rec, unit) -> None        (rec: Recorder)

Every unit is a self-contained finite piece of the explored space.  run_unit
enumerates it completely (nested loops or a Chooser explored depth-first) on
the real code, comparing each execution with an independent reference model.
"""
import hashlib
import itertools
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

MAX_VIOLATIONS = 5        # per unit: stop exploring a unit after that many
UNIT_TIMEOUT = 400        # seconds; a unit takes a few seconds when all is well


class Violation(Exception):
    pass


class StopUnit(Exception):
    pass


class UnitTimeout(BaseException):
    pass


# ---------------------------------------------------------------- choices

class Chooser:
    """Replays a prefix of choices, then takes 0 at each further choice point
    and records the arity of each, so that `explore` can enumerate all
    executions depth-first (stateless exploration)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []
        self.arity = []
        self.labels = []

    def choose(self, n, label=None):
        assert n >= 1
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('non deterministic replay')
        self.trace.append(c)
        self.arity.append(n)
        self.labels.append(label)
        return c

    def pick(self, options, label=None):
        options = list(options)
        return options[self.choose(len(options), label)]


def explore(fn, max_deviations=None, limit=None):
    """Yield (result, chooser) for every execution of fn(chooser), depth first.

    max_deviations bounds the number of non-zero choices in an execution
    (used e.g. as preemption bound); limit is a hard cap that raises if hit,
    so that a bound is never silently truncated."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = fn(ch)
        n += 1
        if limit is not None and n > limit:
            raise RuntimeError('exploration limit exceeded')
        yield res, ch
        base = sum(1 for c in ch.trace[:len(prefix)] if c)
        for k in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            if max_deviations is not None and base + 1 > max_deviations:
                break
            # choices between len(prefix) and k are all zero
            for c in range(ch.arity[k] - 1, 0, -1):
                stack.append(tuple(ch.trace[:k]) + (c,))


# ---------------------------------------------------------------- recording

class Recorder:
    """Collects coverage and violations of one unit."""

    def __init__(self, pid, unit, only=None, seed=1, tier='quick'):
        self.pid, self.unit, self.only = pid, unit, only
        self.seed, self.tier = seed, tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.violations = []
        self.notes = {}
        self.samples = []
        self._case = None

    # coverage
    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, sample=None, n=1):
        self.traces += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(str(sample)[:600])

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # verdicts
    def fail(self, msg, finding=None):
        if finding is not None and any(v['finding'] == finding
                                       for v in self.violations):
            return
        self.violations.append(dict(case=self._case, msg=str(msg)[:2000],
                                    finding=finding))
        if len([v for v in self.violations
                if v['finding'] is None]) >= MAX_VIOLATIONS:
            raise StopUnit()

    def check(self, cond, msg, finding=None):
        self.evaluations += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, finding)
        return cond

    def same(self, got, want, msg, tol=1e-9, finding=None):
        """Arrays equal in shape and, within tol, in value (nan == nan)."""
        self.evaluations += 1
        why = differ(got, want, tol)
        if why:
            self.fail('%s: %s' % (msg() if callable(msg) else msg, why),
                      finding)
            return False
        return True

    def raises(self, thunk, msg, exc=Exception):
        """The call must raise an exception (of the given class)."""
        self.evaluations += 1
        try:
            r = thunk()
        except exc:
            return True
        self.fail('%s: no error raised, got %r' % (msg, r))
        return False

    def case(self, key, thunk, finding=None):
        """Run one named case: an AssertionError/Violation, or any exception
        the code under test raises where none is due, is a violation."""
        if self.only is not None and json.dumps(key) != json.dumps(self.only):
            return None
        self._case = key
        self.trace(sample=key)
        try:
            return thunk()
        except (StopUnit, KeyboardInterrupt, MemoryError):
            raise
        except UnitTimeout:
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename),
                                           f.lineno)
                                for f in reversed(tb[-4:]))
            self.fail('%s: %s [%s]' % (type(e).__name__, e, where), finding)
            return None

    def data(self):
        return dict(states=self.states, transitions=self.transitions,
                    traces=self.traces, evaluations=self.evaluations,
                    violations=self.violations, notes=self.notes,
                    samples=self.samples, unit=self.unit)


def run_one(module, unit, pid, seed, tier, only=None, timeout=UNIT_TIMEOUT):
    rec = Recorder(pid, unit, only=only, seed=seed, tier=tier)

    def alarm(*_):
        raise UnitTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(timeout)
    t0 = time.time()
    try:
        module.run_unit(rec, unit)
    except StopUnit:
        pass
    except UnitTimeout:
        rec.violations.append(dict(
            case=rec._case, finding=None,
            msg='no termination within %d s (case above)' % timeout))
    except BaseException as e:      # the harness itself met an error
        rec.violations.append(dict(
            case=rec._case, finding=None,
            msg='unexpected %s: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc()[-1500:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    d = rec.data()
    d['wall'] = time.time() - t0
    return d


# ---------------------------------------------------------------- helpers

def differ(got, want, tol=1e-9):
    """'' if arrays agree in shape and value (nan == nan), or a reason."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return 'shape %s, expected %s' % (got.shape, want.shape)
    if got.dtype == object or want.dtype == object or \
            got.dtype.kind in 'SU' or want.dtype.kind in 'SU':
        return '' if (got == want).all() else 'got %r, expected %r' % (
            got, want)
    if got.size == 0 or (got == want).all():
        return ''
    kind = 'c' if 'c' in got.dtype.kind + want.dtype.kind else 'f'
    with np.errstate(all='ignore'):
        g = got.astype(complex if kind == 'c' else float)
        w = want.astype(complex if kind == 'c' else float)
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        if tol:
            same |= np.abs(g - w) <= tol*(1 + np.abs(w))
    if same.all():
        return ''
    i = tuple(int(k[0]) for k in np.where(~same))
    return 'at %s got %r, expected %r (%d of %d differ)' % (
        i, g[i].item(), w[i].item(), int((~same).sum()), same.size)


def subsets(seq, lo=0, hi=None):
    seq = list(seq)
    hi = len(seq) if hi is None else hi
    for r in range(lo, hi + 1):
        yield from itertools.combinations(seq, r)


def chunks(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


def shard(seq, k, n):
    """k-th of n interleaved shards of seq."""
    return [x for i, x in enumerate(seq) if i % n == k]


def thin(G, m=1):
    """Subset of a product grid G (list of dicts or tuples) with about
    len(G)/m items, in which all pairs of values of any two coordinates
    present in G are found (a covering array, chosen greedily), evenly
    spread otherwise. Deterministic. A plain stride may leave some values
    out altogether, if it divides the number of values of a coordinate."""
    if m <= 1:
        return list(G)
    rows = [tuple(map(repr, g.values() if isinstance(g, dict) else g))
            for g in G]
    pairs = [{(i, r[i], j, r[j]) for j in range(len(r)) for i in range(j)}
             or {(0, r[0], 0, r[0])} for r in rows]
    todo = set().union(*pairs) if pairs else set()
    left = list(range(len(G)))
    # visit in a scrambled order
    step = next(s for s in range(int(len(G)*.618) + 1, 3*len(G) + 9)
                if _gcd(s, max(len(G), 1)) == 1)
    order = [(k*step) % len(G) for k in left]
    chosen = []
    while todo:
        best = max(order, key=lambda k: len(pairs[k] & todo))
        chosen.append(best)
        todo -= pairs[best]
    seen = set(chosen)
    for k in order:
        if len(chosen)*m >= len(G):
            break
        if k not in seen:
            seen.add(k)
            chosen.append(k)
    return [G[k] for k in sorted(chosen)]


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def pick(n, k):
    """Number in range(k), a scrambled function of n: used to alternate
    among options while enumerating, with no resonance among loops."""
    n = (n*0x9E3779B1 + 0x7F4A7C15) & 0xFFFFFFFF
    n ^= n >> 15
    n = (n*0x85EBCA77) & 0xFFFFFFFF
    return (n ^ (n >> 13)) % k
