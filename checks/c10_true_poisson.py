"""C10: law of Poisson and compound Poisson sources with memory."""
import itertools
import math
import numpy as np
import sdepy
from mc.core import pick
from mc.core import Chooser, explore
from mc.tape import TapeRNG
from checks.c06_sources import bits
from checks.c08_memory import orders

PROPERTY = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all outcomes of the draws made by the real '
             'sources, with exact probabilities, over all query orders; jumps '
             'tracked by identity and by value')
LEVEL_NOTE = ('All query orders of up to 4 times (5 in thorough) on both sides of '
              't0, Poisson draws enumerated up to a bound (every outcome below it has '
              'its exact joint probability checked), 1 cell exhaustively and up to 4 '
              'cells with enumerated patterns; all jump values over {0, 1, -1} for up '
              'to 4 jumps. Constant intensity and jump law. Trusts numpy to honour '
              'the law of Poisson and binomial draws.'
              ' Plus long orders, hundreds of jumps attributed one by one, counts up to 60000.')
RULE = ('a state is (query order, joint outcome); a trace is one complete '
        'execution; a transition is one query')


def pmf(k, m):
    return math.exp(-m)*m**k/math.factorial(k) if k >= 0 else 0.


def bpmf(k, n, p):
    return math.comb(n, k)*p**k*(1 - p)**(n - k)


def chooser_rng(ch, K, weight, fixed=None):
    """Poisson counts up to K and binomial counts, chosen one cell at a
    time; weight[0] accumulates the probability of the choices made."""
    def poisson(lam):
        out = np.empty(lam.shape, int)
        for i in np.ndindex(lam.shape):
            k = ch.choose(K + 1)
            out[i] = k
            weight[0] *= pmf(k, lam[i])
        return out

    def binomial(n, p):
        out = np.empty(n.shape, int)
        for i in np.ndindex(n.shape):
            k = ch.choose(int(n[i]) + 1)
            out[i] = k
            weight[0] *= bpmf(k, int(n[i]), p[i])
        return out
    return TapeRNG(poisson=poisson, binomial=binomial)


def increments(vals, times, t0, z0):
    """{(a, b): increment} between consecutive known times"""
    pts = sorted(list(zip(times, vals)) + [(t0, z0)], key=lambda x: x[0])
    return [(a, b, v - u) for (a, u), (b, v) in zip(pts[:-1], pts[1:])]


def ask(src, order, mode):
    if mode == 'one':
        for t in order:
            src(t)
    elif mode == 'array':
        src(np.array(order))
    elif mode == 'inc':
        for a, b in zip(order[:-1], order[1:]):
            src(a, b - a)
        src(order[0])
    elif mode == 'incs':
        a = np.array(order)
        src(a[1:], a[:-1] - a[1:])


def poisson_law(rec, cls, order, mode, lam, K, dtype, t0, z0, cells=(1, ()),
                default=int):
    """joint probability of every outcome, exactly"""
    times = sorted(order)
    paths, vshape = cells
    lamv = np.broadcast_to(np.asarray(lam, float), vshape + (paths,))
    total = {}

    def run(ch):
        w = [1.]
        src = cls(paths=paths, vshape=vshape, rng=chooser_rng(ch, K, w),
                  lam=lam, t0=t0, z0=z0,
                  **({} if dtype is None else dict(dtype=dtype)))
        ask(src, order, mode)
        out = src(np.array(times))
        rec.check(out.dtype == np.dtype(dtype or default) and
                  out.shape == (len(times),) + vshape + (paths,),
                  'type and shape')
        return w[0], out
    for (w, out), ch in explore(run, limit=60000):
        rec.trace()
        rec.step(len(order))
        key = tuple(out.ravel().tolist())
        total[key] = total.get(key, 0.) + w
    for key, w in total.items():
        rec.state('p', order, mode, lam if np.ndim(lam) == 0 else 'a', key)
        out = np.array(key).reshape((len(times),) + vshape + (paths,))
        p = 1.
        for c in np.ndindex(vshape + (paths,)):
            z0c = np.broadcast_to(z0, vshape + (paths,))[c]
            for a, b, n in increments(out[(slice(None),) + c], times, t0,
                                      z0c):
                rec.check(n == int(n), 'not a count')
                p *= pmf(int(n), lamv[c]*(b - a)) if b > a else 1.
        rec.check(abs(w - p) < 1e-9, lambda: 'values %s at %s: probability '
                  '%.12g, expected %.12g' % (key, times, w, p))


class Ones:
    """unit jumps: a compound Poisson process that counts"""
    def rvs(self, size, random_state=None):
        return np.ones(size)


class Complex:
    """imaginary jumps"""
    def rvs(self, size, random_state=None):
        return np.full(size, 1j)


def counting(**kw):
    return sdepy.true_cpoisson_source(y=Ones(), **kw)


class Jumps:
    """jump distribution whose k-th variate overall is values[k] (or a
    distinct power of two, if values is None)"""

    def __init__(self, values=None):
        self.values, self.n = values, 0

    def rvs(self, size, random_state=None):
        n = int(np.prod(size))
        k = np.arange(self.n, self.n + n)
        self.n += n
        out = 2.**k if self.values is None else np.array(
            [self.values[i % len(self.values)] for i in k], float)
        return out.reshape(size)


def attribution(rec, order, times, j, n, t0, z0):
    """jumps of each interval, by identity, from tagged values"""
    used = set()
    out = []
    jj = increments(j, times, t0, z0)
    nn = increments(n, times, t0, 0)
    for (a, b, x), (_, _, m) in zip(jj, nn):
        rec.check(x >= 0 and x == int(x), lambda: 'increment %r' % x)
        B = bits(x)
        rec.check(len(B) == m, lambda: '%d jumps in (%s, %s), for a count of '
                  '%s' % (len(B), a, b, m))
        rec.check(used.isdisjoint(B), 'a jump is used twice')
        used |= B
        out.append(frozenset(B))
    return used, out


def compound(rec, order, mode, K, ptype, owndn, pre, kind):
    """one cell: every outcome of the counts; then every value of the jumps"""
    times = sorted(order)
    t0, z0 = 3., 0.

    def build(ch, y, w):
        rng = chooser_rng(ch, K, w)
        kw = dict(ptype=ptype, lam=1.) if not owndn else dict(
            dn=sdepy.true_poisson_source(rng=rng, lam=1., t0=t0,
                                         dtype=ptype))
        src = sdepy.true_cpoisson_source(paths=1, rng=rng, y=y, t0=t0, z0=z0,
                                         **kw)
        if not owndn:
            # the internal source starts at 0.
            src.dn(t0)
        if pre:
            src.dn(np.array(times))
        return src

    def run(ch):
        w = [1.]
        y = Jumps()
        src = build(ch, y, w)
        ask(src, order, mode)
        j = src(np.array(times))[:, 0]
        n = src.dn(np.array(times))[:, 0] - src.dn(t0)[0]
        return y, j, n
    for (y, j, n), ch in explore(run, limit=20000):
        rec.trace()
        rec.step(len(order))
        used, sets = attribution(rec, order, times, j, n, t0, z0)
        rec.state('c', order, mode, tuple(j))
        rec.check(used == set(range(y.n)), 'jumps lost: drew %d, found %s' % (
            y.n, sorted(used)))
        if not pre or y.n == 0:
            continue
        # the same outcome of the counts, any other values of the jumps
        for values in itertools.product((0., 1., -1.), repeat=min(
                y.n, 4 if rec.tier == 'thorough' else 3)):
            yv = Jumps(values)
            src = build(Chooser(ch.trace), yv, [1.])
            ask(src, order, mode)
            jv = src(np.array(times))[:, 0]
            rec.step(len(order))
            for (a, b, x), B in zip(increments(jv, times, t0, z0), sets):
                want = sum(values[k % len(values)] for k in B)
                rec.check(x == want, lambda: 'jumps %s of (%s, %s) with values'
                          ' %s: increment %r' % (sorted(B), a, b, values, x))
            dnv = src.dn(np.array(times))[:, 0] - src.dn(t0)[0]
            rec.same(dnv, n, 'counts depend on jumps', tol=0)


def cells(rec, order, mode, vshape, paths, pattern, ptype, dnfirst):
    """several cells: conservation and attribution, cell by cell, for an
    enumerated pattern of outer counts and of binomial splits"""
    times = sorted(order)
    outer, split = pattern
    pos = [0, 0]

    def poisson(lam):
        k = [outer[(pos[0] + i) % len(outer)] for i in range(lam.size)]
        pos[0] += lam.size
        return np.array(k).reshape(lam.shape)

    def binomial(n, p):
        k = [split[(pos[1] + i) % len(split)] for i in range(n.size)]
        pos[1] += n.size
        return np.array([min(a, b) for a, b in zip(k, n.ravel())]).reshape(
            n.shape)
    rng = TapeRNG(poisson=poisson, binomial=binomial)
    y = Jumps()
    src = sdepy.true_cpoisson_source(
        paths=paths, vshape=vshape, rng=rng, y=y, t0=3.,
        dn=sdepy.true_poisson_source(paths=paths, vshape=vshape, rng=rng,
                                     t0=3., dtype=ptype))
    first = src.dn(np.array(dnfirst)) if dnfirst else None
    ask(src, order, mode)
    rec.step(len(order))
    j = src(np.array(times))
    n = src.dn(np.array(times))
    used = set()
    for c in np.ndindex(vshape + (paths,)):
        i = (slice(None),) + c
        u, _ = attribution(rec, order, times, j[i], n[i], 3., 0.)
        rec.check(used.isdisjoint(u), 'a jump is shared among cells')
        used |= u
    rec.check(used == set(range(y.n)), lambda: 'jumps lost: drew %d, found %s'
              % (y.n, sorted(used)))
    rec.same(src(np.array(times)), j, 'after inspection', tol=0)
    if first is not None:
        rec.same(src.dn(np.array(dnfirst)), first, 'dn changed', tol=0)
    rec.state('m', order, mode, vshape, paths, pattern)


ORDERS3 = list(itertools.permutations((1., 4., 6.))) + \
    list(itertools.permutations((4., 5., 7.))) + \
    list(itertools.permutations((2.5, 1., .5)))
ORDERS4 = list(itertools.permutations((1., 4., 6., 7.))) + \
    list(itertools.permutations((1., 2., 4.5, 5.)))
MODES = ('one', 'array', 'inc', 'incs')
CELLS = [((2,), 1), ((), 3), ((2,), 2), ((2, 2), 1)]
OUTER = [(2,), (0, 2), (3, 1, 0), (1, 2, 0, 3), (0, 0, 4)]
SPLIT = [(0,), (1,), (9,), (1, 0), (0, 1, 2), (2, 0, 1, 1)]


def units(tier, seed):
    out = [dict(u='poisson', k=k) for k in range(8)]
    out += [dict(u='law', k=k) for k in range(4)]
    out += [dict(u='compound', k=k) for k in range(8)]
    out += [dict(u='cells', k=k) for k in range(8)]
    out += [dict(u='long', k=k) for k in range(2)]
    return out


LONG = {'even': (np.arange(14) - 5)/2, 'ends': np.concatenate(
            (np.arange(6)/8 - 4, np.arange(6)/8 + 3)),
        'wide': np.sign(np.arange(-6, 7))*2.**(abs(np.arange(-6., 7)) - 5)}


def long_law(rec, ts, order, mode, lam, script, big):
    """one execution: the probability of the draws made cannot exceed that
    of their outcome; a counting compound source agrees with its counts"""
    from scipy.stats import binom, poisson as po
    w, pos = [0.], [0]

    def nxt(size):
        k = np.array([script[(pos[0] + i) % len(script)]
                      for i in range(size)])
        pos[0] += size
        return k

    def draw(L):
        k = nxt(L.size).reshape(L.shape)*big
        w[0] += po.logpmf(k, L).sum()
        return k

    def split(n, p):
        k = np.round(n*nxt(n.size).reshape(n.shape)/max(
            max(script), 1)).astype(int)
        w[0] += binom.logpmf(k, n, p).sum()
        return k
    rng = TapeRNG(poisson=draw, binomial=split)
    times = sorted(order)
    src = sdepy.true_dn(paths=1, rng=rng, lam=lam, t0=0.)
    ask(src, order, mode)
    rec.step(len(order))
    out = src(np.array(times))[:, 0]
    p = 0.
    for a, b, m in increments(out, times, 0., 0):
        rec.check(m >= 0, 'negative count')
        p += po.logpmf(int(m), lam*(b - a)) if b > a else 0.
    rec.check(w[0] <= p + 1e-6*(1 + abs(p)), lambda: 'outcome %s at %s: '
              'log-probability %r, expected %r' % (out, times, w[0], p))
    j = counting(paths=1, rng=rng, lam=lam, t0=0.)
    ask(j, order, mode)
    rec.same(j(np.array(times)), j.dn(np.array(times)), 'counting', tol=0)
    rec.state('L', order, mode, lam, script, big)


def many(rec, order, outer, split, vshape, dtype):
    """hundreds of jumps at once: each is found in one interval only,
    attributed by giving a value to one jump at a time"""
    times = sorted(order)
    shape = vshape + (1,)

    def build(values):
        pos = [0, 0]

        def poisson(lam):
            pos[0] += 1
            return np.full(lam.shape, outer[(pos[0] - 1) % len(outer)])

        def binomial(n, p):
            pos[1] += 1
            f = split[(pos[1] - 1) % len(split)]
            return np.rint(n*f).astype(int)
        rng = TapeRNG(poisson=poisson, binomial=binomial)
        y = Jumps(values)
        src = sdepy.true_cpoisson_source(
            paths=1, vshape=vshape, rng=rng, y=y, t0=3., dtype=dtype,
            dn=sdepy.true_poisson_source(paths=1, vshape=vshape, rng=rng,
                                         t0=3.))
        src.dn(np.array(times))
        ask(src, order, 'one')
        return src(np.array(times)), src.dn(np.array(times)), y.n
    j, n, N = build([1.])
    rec.same(j, n, 'unit jumps', tol=0)
    rec.check(N > 0 and n.max() - n.min() > 127, 'few jumps')
    counts = {}
    for k in range(0, N, 7):
        v = np.zeros(N)
        v[k] = 1.
        j, n1, _ = build(v)
        rec.step(len(order))
        rec.same(n1, n, 'counts depend on jumps', tol=0)
        hits = []
        for c in np.ndindex(shape):
            for a, b, x in increments(j[(slice(None),) + c], times, 3., 0.):
                rec.check(x in (0, 1), lambda: 'increment %r' % x)
                if x:
                    hits.append((c, a, b))
        rec.check(len(hits) == 1, lambda: 'jump %d found in %s' % (k, hits))
        rec.state('many', order, outer, split, hits[0])
    v = np.arange(N) % 11 - 5.
    j, _, _ = build(v)
    tot = sum(j[-1][c] - j[0][c] for c in np.ndindex(shape)) if \
        3. < times[-1] and 3. > times[0] else None
    rec.check(tot is None or abs(tot - v.sum()) < 1e-6, lambda:
              'total %r, expected %r' % (tot, v.sum()))


def u_long(rec, k):
    n = 0
    for order in list(itertools.permutations((1., 4., 6.)))[:(
            6 if rec.tier == 'thorough' else 3)] + [(2., 9., 4., 5.),
                                                    (-1., .5, 5.)]:
        for outer, split in (((140, 200), (.5, .25)), ((260, 1), (.99, .01)),
                             ((129, 0, 257), (1., .5))):
            for vshape in ((), (2,)):
                n += 1
                if pick(n, 2) == k:
                    dt = (None, np.float32)[pick(n + 1, 2)]
                    rec.case(['many', list(order), outer, split, vshape],
                             lambda: many(rec, order, outer, split, vshape,
                                          dt))
    n = 0
    for (g, ts), mode in itertools.product(LONG.items(), MODES):
        for oname, o in orders(len(ts)).items():
            order = [float(ts[q]) for q in o]
            for script in ((1,), (2, 1), (0, 1), (3, 0, 1), (0, 0, 2), (1, 0)):
                n += 1
                if n % 2 != k:
                    continue
                for big in (1, 20000 if pick(n + 9000, 24) == 0 else
                            (40, 200)[pick(n + 7000, 2)]):
                    lam = (.5, 2., 30.)[pick(n, 3)]
                    rec.case(['long', g, mode, oname, script, big],
                             lambda: long_law(rec, ts, order, mode, lam,
                                              script, big))
                for vs, paths in (((), 1), ((2,), 1)):
                    if paths*len(vs)*len(ts) > 26 and max(script) > 1:
                        continue
                    rec.case(['long cells', g, mode, oname, script, vs],
                             lambda: cells(
                        rec, [t + 3. for t in order], mode, vs, paths,
                        (script, script[::-1] + (1,)), int,
                        ((), (4.5,))[pick(n, 2)]))


def run_unit(rec, u):
    n = 0
    thorough = rec.tier == 'thorough'
    if u['u'] == 'long':
        return u_long(rec, u['k'])
    if u['u'] == 'poisson':
        for order in ORDERS3 + ORDERS4 + (list(itertools.permutations(
                (1., 2.5, 4., 5., 7.))) if thorough else []):
            for mode in MODES:
                n += 1
                if (n + n//16 + n//256) % 8 != u['k']:
                    continue
                K = 3 if len(order) == 3 else 2
                if thorough:
                    K += 1 if len(order) < 5 else 0
                lam = (.5, 1, 2.)[pick(n, 3)]
                dtype = (None, float, np.int32)[pick(n + 1000, 3)]
                z0 = (0, 5)[pick(n + 2000, 2)]
                cls = (sdepy.true_poisson_source, sdepy.true_dn)[pick(n + 3000, 2)]
                rec.case(['poisson', list(order), mode], lambda: poisson_law(
                    rec, cls, order, mode, lam, K, dtype, 3., z0))
        for order in ORDERS3:
            n += 1
            if (n + n//16 + n//256) % 8 != u['k']:
                continue
            for cell in ((2, ()), (1, (2,))):
                sh = cell[1] + (cell[0],)
                lam = np.array([.5, 2.]).reshape(sh)
                rec.case(['two cells', list(order), cell],
                         lambda: poisson_law(rec, sdepy.true_dn, order, 'one',
                                             lam, 1, None, 3., 0, cell))
    elif u['u'] == 'law':
        for order in ORDERS3:
            order = tuple(t - 3. for t in order)
            for mode in MODES:
                n += 1
                if pick(n, 4) != u['k']:
                    continue
                lam = (.5, 2., 3)[pick(n + 1000, 3)]
                dtype = (None, int, np.float32, complex)[pick(n + 2000, 4)]
                z0 = (0, 5., -2)[pick(n + 3000, 3)]
                ptype = (int, float, None)[pick(n + 4000, 3)]
                pt = {} if ptype is None else dict(ptype=ptype)
                rec.case(['counting', list(order), mode], lambda: poisson_law(
                    rec, lambda **kw: counting(**kw, **pt), order, mode, lam,
                    3 if thorough else 2, dtype, 0., z0, default=float))
                for cell in ((2, ()), (1, (2,))):
                    if pick(n + 5000 + cell[0], 3):
                        continue
                    sh = cell[1] + (cell[0],)
                    lam2 = np.array([.5, 2.]).reshape(sh)
                    z02 = (0., np.array([1., -2.]).reshape(sh))[
                        pick(n + 6000, 2)]
                    rec.case(['counting cells', list(order), mode, cell],
                             lambda: poisson_law(
                        rec, lambda **kw: counting(**kw, **pt), order, mode,
                        lam2, 1, dtype, 0., z02, cell, default=float))

        def imaginary():
            for order in ORDERS3:
                rng = TapeRNG(poisson=lambda lam: np.full(lam.shape, 3),
                              binomial=lambda n, p: np.minimum(n, 1))
                src = sdepy.true_cpoisson_source(
                    paths=2, y=Complex(), dtype=complex, rng=rng, z0=1.)
                ask(src, order, 'one')
                z, m = src(np.array(order)), src.dn(np.array(order))
                rec.same(z, 1 + 1j*m, 'imaginary jumps')
        if u['k'] == 0:
            rec.case(['imaginary'], imaginary)
    elif u['u'] == 'compound':
        for order in ORDERS3 + ORDERS4:
            for mode, (pre, owndn, ptype) in itertools.product(
                    MODES, ((True, True, int), (True, False, float),
                            (False, True, float), (False, False, int))):
                n += 1
                if (n + n//16 + n//256) % 8 != u['k']:
                    continue
                if not thorough and len(order) == 4 and pick(n, 3):
                    continue
                K = 2 if len(order) == 3 else 1
                if thorough and len(order) == 3:
                    K = 3
                rec.case(['compound', list(order), mode, pre, owndn,
                          ptype.__name__],
                         lambda: compound(rec, order, mode, K, ptype, owndn,
                                          pre, 'a'))
    else:
        for order in ORDERS3 + ORDERS4:
            for mode, cell, o, s in itertools.product(MODES, CELLS, OUTER,
                                                      SPLIT):
                n += 1
                if (n + n//16 + n//256) % 8 != u['k'] or (
                        not thorough and pick(n, 3)):
                    continue
                ptype = (int, float)[pick(n + 4000, 2)]
                first = ((), (10.,), (-3., 5.), (4.5,))[pick(n + 5000, 4)]
                rec.case(['cells', list(order), mode, cell, o, s,
                          ptype.__name__, list(first)],
                         lambda: cells(rec, order, mode, cell[0], cell[1],
                                       (o, s), ptype, first))
