"""Scripted noise sources and an independent Euler-Maruyama reference."""
import itertools
import numpy as np


class ScriptedSource:
    """A stochasticity source answering from an enumerated table.

    Every path is one noise history: path p gets, on the j-th distinct step,
    alphabet letter hist[p][j].  The increment also depends, in a known way,
    on the component and on the arguments (s, ds), so that evaluating the
    source at the wrong time, for the wrong component or more than once per
    step is visible in the results."""

    def __init__(self, hist, shape, scale=1., integer=False, log=None):
        self.hist = np.asarray(hist, dtype=float)      # (paths, steps)
        self.paths = self.hist.shape[0]
        self.vshape = tuple(shape)
        self.scale, self.integer = scale, integer
        self.calls = [] if log is None else log
        n = int(np.prod(self.vshape))
        self.comp = 1 + np.arange(n, dtype=float).reshape(self.vshape) / 4
        self.j = 0

    def reset(self):
        self.j = 0
        del self.calls[:]

    def value(self, j, s, ds):
        h = self.hist[:, j % self.hist.shape[1]]
        v = self.comp[..., np.newaxis]*h
        if self.integer:
            return np.round(4*v)*np.sign(ds)
        return self.scale*v*(1 + tame(s)/8)*(1 + abs(float(ds))/4)

    def __call__(self, s, ds):
        self.calls.append((float(s), float(ds)))
        out = self.value(self.j, s, ds)
        self.j += 1
        return out


def tame(s):
    """A bounded function of time, equal to time near the origin."""
    s = float(s)
    return s if abs(s) < 8 else float(np.sin(s))


def histories(alphabet, steps):
    return list(itertools.product(alphabet, repeat=steps))


def points(tt, steps):
    """Visited points for a timeline and a steps specification."""
    tt = [float(t) for t in tt]
    if steps is None or len(tt) == 1:
        extra = []
    elif isinstance(steps, (int, np.integer)):
        lo, hi, n = tt[0], tt[-1], int(steps)
        extra = [lo + (hi - lo)*k/(n - 1) if n > 1 else lo for k in range(n)]
    else:
        extra = [float(s) for s in steps if tt[0] <= s <= tt[-1]]
    pts = sorted(tt)
    for e in extra:
        if all(abs(e - p) > 1e-12 for p in pts):
            pts.append(e)
    return sorted(pts)


def legs(tt, i0, steps):
    """[(order of visited points, reverse)] in the order they are walked."""
    pts = points(tt, steps)
    j0 = i0 % len(tt)
    t0 = float(tt[j0])
    out = []
    if j0 > 0:
        out.append(([p for p in reversed(pts) if p <= t0], True))
    if j0 < len(tt) - 1 or len(tt) == 1:
        out.append(([p for p in pts if p >= t0], False))
    return out


def em(tt, i0, steps, x0, coef, noise):
    """Reference recursion.  x0: array of the working shape + (paths,).
    coef(s, x) -> {id: array}; noise(id, j, s, ds) -> array (j: step count
    since the beginning, across both directions).  Returns the list of values
    of x at the timeline points and the list of (s, ds, j) of all steps."""
    tt = [float(t) for t in tt]
    vals = {}
    steps_done = []
    j = 0
    for order, rev in legs(tt, i0, steps):
        x = np.array(x0, copy=True)
        vals[order[0]] = x
        for a, b in zip(order[:-1], order[1:]):
            A = coef(a, x)
            inc = 0*x
            for id in sorted(A):
                inc = inc + A[id]*noise(id, j, a, b - a)
            x = x + inc
            steps_done.append((a, b - a, j))
            j += 1
            vals[b] = x
    out = []
    for t in tt:
        k = min(vals, key=lambda p: abs(p - t))
        assert abs(k - t) < 1e-9
        out.append(vals[k])
    return out, steps_done
