"""C01: path generation.  Stateless exploration of paths_generator: all
timelines over a grid, all starting indexes, all steps specifications, depths,
and depth-first enumeration of the adaptive step choices (legal and illegal)
made inside `next`, against an independent walk model."""
import itertools
import numpy as np
from sdepy.integration import paths_generator
from mc.core import explore, subsets, shard, Chooser

PROPERTY = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = ('stateless exhaustive exploration of the real path generator '
             'under all adaptive-step choices, lockstep with a walk model')
LEVEL_NOTE = ('Exhaustive within: timelines = all subsets (size<=4 quick, 5 '
              'thorough) of a 5-point grid plus integer ones, all i0, a set of steps specs, depth '
              '2-3, adaptive choices with up to 2 (quick) or 3 deviations. '
              'Trusts the Python walk model.'
              ' Plus timelines of hundreds of points, points an ulp apart or next to zero.')
RULE = ('a state is (configuration, direction, visited prefix, value of the working space); '
        'a trace is one complete execution of a path generation under one '
        'sequence of adaptive choices, compared with the model')

GRID = (-1., 0., 0.25, 1., 2.5)


class Gen:           # one-shot iterable
    def __init__(self, v): self.v = v
    def __iter__(self): return iter(self.v)


def steps_specs(tt):
    lo, hi = tt[0], tt[-1]
    mid = [(a + b)/2 for a, b in zip(tt[:-1], tt[1:])]
    return {
        'none': None, 'one': 1, 'two': 2, 'three': 3, 'five': 5,
        'np': np.int64(4),
        'empty': (), 'mids': np.array(mid),
        'messy': [hi + 3, 0.5, 0.25, lo - 3, 0.5, 0.125],
        'iter': Gen(tuple(mid)[::-1] + tuple(tt)),
        'ints': range(-3, 4),
    }


def model_points(tt, spec, name):
    tt = [float(t) for t in tt]
    lo, hi = tt[0], tt[-1]
    if spec is None or len(tt) == 1:
        extra = []
    elif isinstance(spec, (int, np.integer)):
        n = int(spec)
        extra = [lo + (hi - lo)*k/(n - 1) if n > 1 else lo for k in range(n)]
    else:
        extra = [float(s) for s in spec if lo <= s <= hi]
    if not isinstance(spec, (int, np.integer)):
        return sorted(set(tt) | set(extra))
    pts = sorted(tt)
    for e in extra:       # merge, up to rounding of equally spaced points
        if all(abs(e - p) > 1e-12 for p in pts):
            pts.append(e)
    return sorted(pts)


def close_to(got, want, name):
    """Times are exact, unless found by dividing an interval."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    tol = 1e-12 if name in ('one', 'two', 'three', 'five', 'np') else 0.
    return got.shape == want.shape and bool((abs(got - want) <= tol).all())


def make(depth_, wshape, xshape, paths, ch, menu, log, **kw):
    class Probe(paths_generator):
        depth = depth_

        def ev(self, what, **k):
            iv = self.itervars
            log.append((what, dict(
                sw=iv['sw'].copy(), xw=[x.copy() for x in iv['xw']],
                tt=iv['tt'].copy(), steps_tt=iv['steps_tt'].copy(),
                reverse=iv['reverse'], xxshape=iv['xx'].shape,
                i=iv.get('i'), **k)))

        def begin(self):
            self.ev('begin')
            iv = self.itervars
            for k in range(depth_ - 1):
                iv['xw'][k][...] = value0(iv['sw'][k], iv['xw'][k].shape)

        def next(self):
            iv = self.itervars
            sw, xw = iv['sw'], iv['xw']
            a, b = sw[-2], sw[-1]
            self.ev('next')
            f = menu[ch.choose(len(menu), 'step')]
            if f is not None:
                sw[-1] = f(a, b)
            xw[-1][...] = value(sw[-1], [x for x in xw[:-1]])

        def store(self, i, k):
            self.ev('store', si=i, sk=k)
            iv = self.itervars
            v = iv['xw'][k]
            iv['xx'][i][...] = v if xshape == wshape else v.sum(axis=0)

        def end(self):
            self.ev('end')

        def exit(self, tt, xx):
            log.append(('exit', dict(tt=tt, had=hasattr(self, 'itervars'))))
            return super().exit(tt, xx)
    return Probe(paths=paths, wshape=wshape, xshape=xshape, **kw)


def value0(s, shape):
    return (np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 1 +
            s/8)


def value(s, prev):
    # depends on all previous values in the working space and on the new time
    out = s/4 + 0*prev[-1]
    for k, x in enumerate(prev):
        out = out + x/2**(k + 1)
    return out


LEGAL = [None, lambda a, b: (a + b)/2, lambda a, b: a + (b - a)/4]
ILLEGAL = [None, lambda a, b: b + (b - a)/2, lambda a, b: a,
           lambda a, b: a - (b - a)/2, lambda a, b: np.nan]


def expected_leg(pts, i0t, tts, reverse, depth, trace_choices, wshape, paths):
    """Independent walk: returns (list of (time, value)), number of choices
    consumed, list of targets."""
    order = [p for p in (reversed(pts) if reverse else pts)
             if (p <= i0t if reverse else p >= i0t)]
    shape = wshape + (paths,)
    walk = [(p, value0(p, shape)) for p in order[:depth - 1]]
    targets = []
    used = 0
    for p in order[depth - 1:]:
        while walk[-1][0] != p:
            a = walk[-1][0]
            c = trace_choices[used]
            used += 1
            targets.append(p)
            s = (p, (a + p)/2, a + (p - a)/4)[c]
            walk.append((s, value(s, [v for _, v in walk[-(depth - 1):]])))
    return order, walk, targets, used


def run_config(rec, tt, i0, sname, depth, wshape, xshape, paths, dtype,
               maxdev, as_type):
    tlist = [float(t) for t in tt]
    n = len(tlist)
    pts = model_points(tlist, steps_specs(tlist)[sname], sname)
    j0 = i0 % n
    legs = []
    if j0 > 0:
        legs.append(True)
    if j0 < n - 1 or n == 1:
        legs.append(False)
    if len(pts) < depth - 1:
        p = make(depth, wshape, xshape, paths, Chooser(), LEGAL, [],
                 steps=steps_specs(tlist)[sname], i0=i0)
        rec.raises(lambda: p(tt), 'fewer points than depth requires')
        return

    def one(ch):
        log = []
        spec = steps_specs(tlist)[sname]
        p = make(depth, wshape, xshape, paths, ch, LEGAL, log, steps=spec,
                 i0=i0, dtype=dtype)
        arg = as_type(tt)
        res = p(arg)
        return log, res, arg, p

    for (log, res, arg, p), ch in explore(one, max_deviations=maxdev):
        verify(rec, log, res, arg, p, ch.trace, tlist, pts, j0, legs, depth,
               wshape, xshape, paths, dtype, sname)


def verify(rec, log, res, arg, p, choices, tlist, pts, j0, legs, depth,
           wshape, xshape, paths, dtype, sname):
    rec.trace()
    n = len(tlist)
    K = depth
    key = hash((tuple(tlist), tuple(pts)))
    # split in legs
    ex = [e for e in log if e[0] == 'exit']
    rec.check(len(ex) == 1 and log[-1][0] == 'exit', 'exit called once, last')
    rec.check(not hasattr(p, 'itervars'), 'itervars left behind')
    runs, cur = [], None
    for what, d in log[:-1]:
        if what == 'begin':
            cur = []
            runs.append(cur)
        rec.check(cur is not None, 'event before begin')
        cur.append((what, d))
    # a direction with no further points may be walked or not
    real = [r for r in runs if r[0][1]['tt'].size > 1]
    if n > 1:
        for r in runs:
            if not any(r is q for q in real):
                rec.check([w for w, _ in r] == ['begin', 'store', 'end'],
                          'trivial direction: %s' % [w for w, _ in r])
    else:
        real = runs
        rec.check(len(runs) == 1, 'one leg expected')
    want_x = np.full((n,) + xshape + (paths,), np.nan,
                     dtype=float if dtype is None else dtype)
    used = 0
    seen_dirs = []
    for r in real:
        rev = bool(r[0][1]['reverse'])
        seen_dirs.append(rev)
        order, walk, targets, u = expected_leg(
            pts, tlist[j0], tlist, rev, K, choices[used:], wshape, paths)
        used += u
        legtt = (tlist[j0::-1] if rev else tlist[j0:])
        want_tt, want_order = np.array(legtt), np.array(order)
        rec.check(r[-1][0] == 'end' and
                  sum(w == 'end' for w, _ in r) == 1 and
                  sum(w == 'begin' for w, _ in r) == 1, 'begin/end once')
        # begin
        b = r[0][1]
        rec.check(close_to(b['sw'][:K-1], order[:K-1], sname),
                  'begin: initial times %s, expected %s' % (b['sw'], order[:K-1]))
        rec.check(all((np.isnan(x).all() or len(seen_dirs) > 1) and
                      x.shape == wshape + (paths,) for x in b['xw']),
                  'begin: working space')
        pos = K - 1         # next walk item
        idx = 0             # next output index
        t = 0
        stored = []
        for what, d in r:
            rec.step()
            rec.check(d['reverse'] == rev and np.array_equal(d['tt'], want_tt) and
                      d['xxshape'] == (len(legtt),) + xshape + (paths,) and
                      close_to(d['steps_tt'], want_order, sname),
                      lambda: 'itervars of the leg: %s' % d)
            if what == 'next':
                rec.check(pos < len(walk), 'step beyond the end')
                rec.check(close_to(d['sw'][-1], targets[t], sname),
                          lambda: 'target %s, expected %s' % (d['sw'][-1],
                                                              targets[t]))
                rec.check(d['i'] == idx, 'itervars i %s, expected %s' % (
                    d['i'], idx))
                for k in range(1, K):
                    s, x = walk[pos - k]
                    rec.check(close_to(d['sw'][-1-k], s, sname) and
                              np.allclose(d['xw'][-1-k], x, rtol=RT(dtype)),
                              lambda: 'working space before step: %s %s' % (
                                  d['sw'], d['xw']))
                rec.state(key, j0, K, rev, d['sw'].tolist(),
                          [float(x.flat[0]) for x in d['xw'][:-1]])
                pos += 1
                t += 1
            elif what == 'store':
                i, k = d['si'], d['sk']
                rec.check(i == idx, 'store index %s, expected %s' % (i, idx))
                rec.check(d['sw'][k] == legtt[i], 'stored time')
                idx += 1
                stored.append(i)
        rec.check(pos == max(len(walk), min(K - 1, len(order))),
                  'steps made: %s of %s' % (pos, len(walk)))
        rec.check(stored == list(range(len(legtt))), 'stored %s' % stored)
        at = dict(walk)
        rec.check(len(at) == len(walk), 'model')
        for i, tv in enumerate(legtt):
            v = at[tv]
            j = j0 - i if rev else j0 + i
            want_x[j] = v if xshape == wshape else v.sum(axis=0)
    rec.check(used == len(choices), 'number of steps %s, model %s' % (
        len(choices), used))
    if n > 1:
        rec.check(sorted(seen_dirs) == sorted(legs), 'directions walked: %s, '
                  'expected %s' % (seen_dirs, legs))
    tt, xx = res
    rec.same(xx, want_x, 'output values', tol=RT(dtype))
    rec.check(xx.dtype == want_x.dtype, 'dtype %s' % xx.dtype)
    a = np.asarray(arg)
    rec.check(tt.dtype == a.dtype and np.array_equal(tt, a) and
              (not isinstance(arg, np.ndarray) or tt is arg),
              'output timeline')


def RT(dtype):
    return 1e-9 if dtype is None or np.dtype(dtype).itemsize >= 8 else 1e-5


# ---------------------------------------------------------------- units

SPECS = ('none', 'one', 'two', 'three', 'five', 'np', 'empty', 'mids',
         'messy', 'iter', 'ints')


def configs(tier):
    big = 5 if tier == 'thorough' else 4
    for tl in subsets(GRID, 1, big):
        n = len(tl)
        for i0 in range(-n, n):
            for sname in SPECS:
                for depth in ((2, 3) if n <= 4 else (2, 3)):
                    yield dict(tt=list(tl), i0=i0, s=sname, depth=depth,
                               kind='float')
    for tl in ([0, 1, 2], [3], [2, 5], [0, 1, 4, 5], [-2, 3]):
        for i0 in range(-len(tl), len(tl)):
            for sname in ('none', 'three', 'mids', 'messy'):
                for kind in ('int', 'list', 'float32', 'uint8'):
                    if not (kind == 'uint8' and tl[0] < 0):
                        yield dict(tt=tl, i0=i0, s=sname, depth=2, kind=kind)


NSH = 16


def units(tier, seed):
    for k in range(NSH):
        yield dict(part='walk', k=k)
    yield dict(part='illegal')
    yield dict(part='errors')
    yield dict(part='shapes')
    yield dict(part='close')
    for k in range(4):
        yield dict(part='long', k=k)


AS = {'float': lambda t: np.array(t, dtype=float),
      'uint8': lambda t: np.array(t, dtype=np.uint8),
      'int': lambda t: np.array(t, dtype=int),
      'list': list,
      'float32': lambda t: np.array(t, dtype=np.float32)}


def run_unit(rec, u):
    if u['part'] == 'walk':
        for c in shard(configs(rec.tier), u['k'], NSH):
            n = len(c['tt'])
            dev = (2 if n <= 3 else 1)
            if rec.tier == 'thorough':
                dev += 1
            if c['kind'] != 'float':
                dev = 1
            rec.case(c, lambda: run_config(
                rec, c['tt'], c['i0'], c['s'], c['depth'], (), (), 1, None,
                dev, AS[c['kind']]))
    elif u['part'] == 'shapes':
        for wshape, xshape, paths, dtype in itertools.product(
                ((2,), (2, 3)), ('same', 'sum'), (1, 3),
                (None, np.float32, complex)):
            xs = wshape if xshape == 'same' else wshape[1:]
            for i0 in (0, 1, -1):
                for depth in (2, 3):
                    c = [wshape, xs, paths, str(dtype), i0, depth]
                    rec.case(c, lambda: run_config(
                        rec, [0., 1., 3.], i0, 'mids', depth, wshape, xs,
                        paths, dtype, 1, AS['float']))
    elif u['part'] == 'close':
        for base, h in CLOSE:
            tl = sorted({base + k*h for k in range(4)})
            rec.check(len(tl) == 4, 'grid')
            for pts in subsets(tl, 2, 4):
                n = len(pts)
                for i0 in range(n):
                    for spec in [()] + list(subsets(tl, 1, 4)):
                        for depth in (2, 3):
                            c = [base, h, pts, i0, spec, depth]
                            rec.case(c, lambda: run_scripted(
                                rec, pts, i0, spec, depth, (0,)))
                            if base + h/8 > base:
                                rec.case(c + ['adaptive'], lambda:
                                         run_scripted(rec, pts, i0, spec,
                                                      depth, (1, 0, 2, 0)))
    elif u['part'] == 'long':
        k = u['k']
        n = 300
        tl = (np.arange(n)/8 - 7., np.arange(n)*1.,
              np.cumsum(np.arange(n) % 5 + 1.)/1024 + 1e6,
              -1/(np.arange(n) + 1.))[k]
        for i0 in (0, 1, n//2, n - 2, n - 1, -1, -n):
            for j, spec in enumerate((
                    None, tl, tl[::-1][::3], (tl[:-1] + tl[1:])/2,
                    np.concatenate(((tl[:-1] + 3*tl[1:])/4, tl[::2] + .5)))):
                for depth, cyc in ((2, (0,)), (2, (0, 0, 1, 2, 0, 1)),
                                   (3, (0, 2, 0, 1))):
                    if len(cyc) > 1 and j % 2:
                        continue
                    rec.case([k, i0, j, depth, cyc], lambda: run_scripted(
                        rec, tl, i0, spec, depth, cyc))
    elif u['part'] == 'illegal':
        for tl in subsets(GRID, 2, 3):
            n = len(tl)
            for i0 in range(n):
                for sname in ('none', 'mids', 'three'):
                    for depth in (2, 3):
                        c = [tl, i0, sname, depth]
                        rec.case(c, lambda: illegal(rec, tl, i0, sname, depth))
    else:
        errors(rec)


CLOSE = [(0., 5e-324), (0., 1e-300), (-2e-12, 1e-12), (1., 2.3e-16),
         (-1., 1.2e-16), (1e6, 1.2e-10), (-1e9, 1.2e-7), (1e-9, 1e-18),
         (2**53, 2.), (1e300, 1.5e284), (20., 1e-8), (1., 1e-10)]


class Script:
    """Adaptive choices from a repeating script."""

    def __init__(self, cyc):
        self.cyc, self.trace = cyc, []

    def choose(self, n, label=None):
        self.trace.append(self.cyc[len(self.trace) % len(self.cyc)])
        return self.trace[-1]


def run_scripted(rec, tt, i0, spec, depth, cyc):
    tt = [float(t) for t in tt]
    extra = [] if spec is None else [float(s) for s in spec
                                     if tt[0] <= s <= tt[-1]]
    pts = sorted(set(tt) | set(extra))
    n = len(tt)
    j0 = i0 % n
    legs = ([True] if j0 > 0 else []) + ([False] if j0 < n - 1 else [])
    ch, log = Script(cyc), []
    p = make(depth, (), (), 1, ch, LEGAL, log, steps=spec, i0=i0)
    if len(pts) < depth - 1:
        rec.raises(lambda: p(tt), 'fewer points than depth requires')
        return
    arg = np.array(tt)
    verify(rec, log, p(arg), arg, p, ch.trace, tt, pts, j0, legs, depth, (),
           (), 1, None, 'exact')


def illegal(rec, tl, i0, sname, depth):
    """Each execution makes exactly one illegal step: it must raise; a later
    call of the same instance, stepping legally, must be right."""
    tl = list(tl)
    pts = model_points(tl, steps_specs(tl)[sname], sname)
    j0 = i0

    def one(ch):
        log = []
        box = [ch]

        class Ch:
            def choose(self, n, label=None):
                return box[0].choose(n, label)
        p = make(depth, (), (), 1, Ch(), ILLEGAL, log,
                 steps=steps_specs(tl)[sname], i0=i0)
        try:
            res = p(np.array(tl))
            err = None
        except Exception as e:
            err, res = e, None
        box[0] = Chooser()
        del log[:]
        arg = np.array(tl)
        if sname != 'iter':
            res2 = p(arg)
            again = (list(log), res2, arg, p, box[0].trace)
        else:
            again = None
        return err, res, again

    legs = ([True] if j0 > 0 else []) + ([False] if j0 < len(tl)-1 else [])
    for (err, res, again), ch in explore(one, max_deviations=1):
        rec.trace()
        bad = any(ch.trace)
        rec.check((err is not None) == bad,
                  'illegal step %s: error %r, result %r' % (ch.trace, err, res))
        if again:
            log, res2, arg, p, tr = again
            verify(rec, log, res2, arg, p, tr, tl, pts, j0, legs, depth, (),
                   (), 1, None, sname)


def errors(rec):
    def gen(**kw):
        d = kw.pop('depth', 2)
        return make(d, (), (), 1, Chooser(), LEGAL, [], **kw)
    bad = [5., [[0., 1.]], [[0.], [1.]], [1., 0.], [0., 0.], [0., 1., 1.],
           [0., 2., 1.], [np.nan], [0., np.nan], [], [1, 1], [3, 2, 1],
           [0., 1., 2., 1.5], [2., 1., 3.]]
    for t in bad:
        for i0 in (0, -1):
            rec.case(['timeline', str(t), i0], lambda: rec.raises(
                lambda: gen(i0=i0)(np.array(t)), 'timeline %s' % (t,)))
    for perm in itertools.permutations((0., .5, 1., 2.)):
        if list(perm) != sorted(perm):
            rec.case(['perm', perm], lambda: rec.raises(
                lambda: gen()(np.array(perm)), 'timeline %s' % (perm,)))
    for n in (1, 2, 3):
        tl = np.arange(n) + 0.5
        for i0 in (n, n + 1, -n - 1, -n - 2, 0.5, None, slice(0, 1), [0],
                   'a', (0, 0)):
            rec.case(['i0', n, str(i0)], lambda: rec.raises(
                lambda: gen(i0=i0)(tl), 'i0=%s on %d points' % (i0, n)))
        for d in (1, 0, -1):
            rec.case(['depth', n, d], lambda: rec.raises(
                lambda: gen(depth=d)(tl), 'depth %s' % d))
        for i0 in range(-n, n):
            # numpy integers are valid indexes
            rec.case(['npi0', n, i0], lambda: gen(i0=np.int64(i0))(tl))
    # default class: nan-filled output
    p = paths_generator(paths=2, xshape=3)

    def bare():
        p.xshape
        rec.check(p.xshape == (3,), 'integer xshape')

        class Adv(paths_generator):
            pass
        tt, xx = Adv(paths=2, xshape=(3,), wshape=(4,))([0., 1.])
        rec.same(xx, np.full((2, 3, 2), np.nan), 'default output')
        rec.same(tt, [0., 1.], 'default timeline')
    rec.case(['bare'], bare)
