"""C20: montecarlo component views and distributions."""
import itertools
import warnings
import numpy as np
import scipy.special
from sdepy import montecarlo
from checks.c19_montecarlo import block, check_stats, counts_of

PROPERTY = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of histories of updates interleaved with the creation and '
             'reading of component views, and of all small histograms, on the real '
             'montecarlo class, against a reference evaluated from the data')
LEVEL_NOTE = ('views by up to 20 index expressions on 6 shapes, taken at all moments of all '
              'histories of up to 3 updates and read at all later moments, 5 bins '
              'specifications, views of views; all counts out of {0, 1, 3} on 1 to 4 bins, with '
              '3 bins geometries and all out-of-range counts up to 1, 3 bandwidths, 2 methods, '
              'evaluation points of 7 kinds.'
              ' Plus large histograms.')
RULE = ('a state is (shape, bins, moment of creation, moment of reading, index) or (bins, '
        'counts); a trace is one history or one distribution')

VS = ((), (1,), (2,), (3,), (2, 3), (2, 1, 2))


def indices(vs):
    out = [(), Ellipsis, (Ellipsis,), None]
    if len(vs) >= 1:
        out += [0, -1, np.int64(0), slice(None), slice(0, 1), slice(1, None),
                [0], [-1, 0], (0,), (Ellipsis, 0), (slice(None), None),
                np.array([True] + [False]*(vs[0]-1)), vs[0] - 1,
                slice(None, None, -1)]
    if len(vs) >= 2:
        out += [(0, 0), (1, -1), (slice(None), 0), (Ellipsis, -1),
                (slice(1, 2), slice(None)), (1, slice(None)), ([0, 1], 0),
                (slice(None), [0, -1])]
    if len(vs) >= 3:
        out += [(1, 0, 1), (1, 0), (slice(None), 0, 1), (0, Ellipsis, 1)]
    return out


def bad_indices(vs):
    out = ['a', 1.5]
    out.append((0,)*(len(vs) + 1))
    if vs:
        out += [vs[0], -vs[0] - 1]
    return out


BINS = ('default', 'none', 'int', 'range', 'explicit')


def make(vs, b):
    kw = {}
    if b == 'none':
        kw = dict(bins=None)
    elif b == 'int':
        kw = dict(bins=3)
    elif b == 'range':
        kw = dict(bins=4, range=(-2., 3.))
    elif b == 'explicit':
        e = np.empty(tuple(vs) + (4,))
        for k, i in enumerate(np.ndindex(vs)):
            e[i] = [-2. - k, -.5, 1. + k, 2.5 + k*k]
        kw = dict(bins=e)
    return kw


def equal_or_nan(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(
        ((x == y) | (np.isnan(x) & np.isnan(y))).all())


class Ref:
    """data so far, per component"""

    def __init__(self, vs, b):
        self.vs, self.b = vs, b
        self.values = {i: [] for i in np.ndindex(vs)}
        self.edges = {}
        self.n = 0

    def update(self, x):
        first = self.n == 0
        self.n += x.shape[-1]
        for i in np.ndindex(self.vs):
            self.values[i] += x[i].tolist()
            if first and self.b != 'none':
                kw = make(self.vs, self.b)
                if self.b == 'explicit':
                    self.edges[i] = kw['bins'][i]
                else:
                    kw.setdefault('bins', 100)
                    self.edges[i] = np.histogram_bin_edges(x[i], **kw)


def check_view(rec, a, v, i, ref, msg):
    """v = a[i] agrees with data, now"""
    rec.check(v.paths == ref.n == a.paths, '%s paths %r, expected %d' % (
        msg, v.paths, ref.n))
    if ref.n == 0:
        rec.raises(v.histogram, msg + ' histogram of an empty view',
                   ValueError)
        repr(v)
        return
    names = np.empty(ref.vs, object)
    for k in np.ndindex(ref.vs):
        names[k] = k
    pos = names[i]                      # positions selected by the index
    # a component is a tuple, or an array of such
    single = isinstance(pos, tuple) or (
        isinstance(pos, np.ndarray) and pos.size == 1)
    vshape = () if isinstance(pos, tuple) else pos.shape
    rec.check(v.vshape == vshape and v.shape == vshape + (ref.n,),
              '%s shape %s, expected %s' % (msg, v.vshape, vshape))
    if isinstance(pos, tuple):
        values = {(): ref.values[pos]}
    else:
        values = {k: ref.values[pos[k]] for k in np.ndindex(vshape)}
    check_stats(rec, v, values, msg)
    ok = np.asarray(v.var()) > 1e-9
    for name in ('mean', 'var', 'std', 'skew', 'kurtosis'):
        x = np.asarray(getattr(v, name)())
        y = np.asarray(np.asarray(getattr(a, name)())[i])
        if name in ('skew', 'kurtosis') and x.shape == y.shape == ok.shape:
            x, y = x[ok], y[ok]     # not defined for a null variance
        rec.same(x, y, '%s %s differs from that of the original' % (
            msg, name))
    repr(v)
    if ref.b == 'none':
        rec.raises(v.histogram, msg + ' histogram without bins', ValueError)
        rec.raises(lambda: v.cdf(0.), msg + ' cdf without bins', ValueError)
        return
    if not single:
        if np.size(pos):
            rec.raises(v.histogram, msg + ' histogram of many values',
                       IndexError)
        return
    p = pos if isinstance(pos, tuple) else pos.ravel()[0]
    want, out = counts_of(ref.values[p], ref.edges[p])
    counts, bins = v.histogram()
    rec.same(counts, want, msg + ' counts', 0)
    rec.same(bins, ref.edges[p], msg + ' bins', 1e-12)
    rec.check(np.ravel(v.outpaths).tolist() == [out],
              '%s outpaths %r, expected %r' % (msg, v.outpaths, out))
    rec.check(np.abs(np.ravel(v.outerr()) - out/ref.n).max() < 1e-12,
              msg + ' outerr')
    rec.same(v.h[0], counts, msg + ' h', 0)
    rec.same(v.h[1], bins, msg + ' h', 0)
    if sum(want):
        d = np.array(want)/sum(want)/np.diff(ref.edges[p])
        rec.same(v.density_histogram()[0], d, msg + ' density')
        rec.same(v.dh[0], d, msg + ' dh')
        x = np.linspace(ref.edges[p][0] - 1, ref.edges[p][-1] + 1, 7)
        for method in ('interp', 'gaussian_kde'):
            full = a
            q = p
            while q:
                full, q = full[q[0]], q[1:]
            rec.same(v.cdf(x, method), full.cdf(x, method), msg + ' cdf')
            rec.same(v.pdf(x, method), full.pdf(x, method), msg + ' pdf')


def unit_views(rec, u):
    vs, b = VS[u['v']], u['b']
    nmax = 2 if rec.tier == 'quick' else 3
    for n in range(nmax + 1):
        for sizes in itertools.product((1, 3), repeat=n):
            rec.case(['views', vs, b, sizes],
                     lambda: views(rec, vs, b, sizes))
            rec.case(['nested', vs, b, sizes],
                     lambda: nested(rec, vs, b, sizes))


def views(rec, vs, b, sizes):
    """take all views at each moment, read all views at each moment"""
    a = montecarlo(**make(vs, b))
    ref = Ref(vs, b)
    taken = []
    for moment in range(len(sizes) + 1):
        if moment:
            x = block(moment - 1, vs, sizes[moment - 1], float)
            a.update(x)
            ref.update(x)
            rec.step()
        for i in indices(vs):
            taken.append((moment, i, a[i]))
        for when, i, v in taken:
            rec.state(vs, b, sizes[:moment], when, str(i))
            rec.step()
            check_view(rec, a, v, i, ref,
                       'view a[%s] of shape %s, taken after %d updates, '
                       'read after %d, bins %s:' % (i, vs, when, moment, b))
        if ref.n:
            for i in bad_indices(vs):
                rec.raises(lambda: a[i], 'a[%r], shape %s' % (i, vs),
                           (IndexError, TypeError, ValueError))


def nested(rec, vs, b, sizes):
    """views of views"""
    pairs = []
    if len(vs) >= 1:
        pairs += [(slice(None), 0, (0,)), (slice(None, None, -1), 0,
                                           (vs[0]-1,)),
                  ([0], 0, (0,)), (Ellipsis, -1, (-1,))]
    if len(vs) >= 2:
        pairs += [(0, 1 % vs[1], (0, 1 % vs[1])),
                  ((slice(None), 0), -1, (-1, 0)),
                  (1, slice(None), (1,)),
                  (slice(1, None), (0, 0), (1, 0))]
    pairs += [((), (), ()), (Ellipsis, (), ())]
    a = montecarlo(**make(vs, b))
    ref = Ref(vs, b)
    taken = []
    for moment in range(len(sizes) + 1):
        if moment:
            x = block(moment - 1, vs, sizes[moment - 1], float)
            a.update(x)
            ref.update(x)
            rec.step()
        for i, j, k in pairs:
            w = a[i]
            taken.append((moment, i, j, k, w[j]))
            if len(vs) >= 3 and k == (0, 1 % vs[1]):
                taken.append((moment, i, (j, 1), k + (1,), w[j][1]))
        for when, i, j, k, v in taken:
            rec.state('nested', vs, b, sizes[:moment], when, str(i), str(j))
            rec.step()
            # the single equivalent index, in normal form
            k = tuple(q % d if isinstance(q, int) else q
                      for q, d in zip(k, vs))
            check_view(rec, a, v, k, ref,
                       'view a[%s][%s] of shape %s, taken after %d updates,'
                       ' read after %d, bins %s:' % (i, j, vs, when, moment,
                                                     b))


def unit_snapshots(rec, u):
    """results are not altered by later updates"""
    for vs in VS:
        for b in BINS:
            rec.case(['snapshots', vs, b], lambda: snapshots(rec, vs, b))


def snapshots(rec, vs, b):
    a = montecarlo(**make(vs, b))
    held = []
    for k in range(3):
        a.update(block(k, vs, 2 + k, float))
        c = a[(0,)*len(vs)]
        for o in (a, c):
            for name in ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr'):
                held.append((name, k, getattr(o, name)()))
            held += [(n, k, x) for n, x in o.stats.items()]
        if b != 'none':
            held += [('histogram', k, x) for x in c.histogram()]
            held += [('density', k, x) for x in c.density_histogram()]
            held.append(('outpaths', k, c.outpaths))
            held.append(('outerr', k, c.outerr()))
        keep = [np.array(x, copy=True) for _, _, x in held]
        rec.state(vs, b, k)
        rec.step()
        if k:
            for (name, when, x), y in zip(held, last):
                rec.check(equal_or_nan(x, y),
                          '%s returned after %d updates changed later, '
                          'shape %s, bins %s' % (name, when + 1, vs, b))
        last = keep


# ------------------------------------------------ distributions

EDGES = {'uniform': [0., 1., 2., 3., 4.], 'uneven': [-3., -2.5, 0., .25, 5.],
         'tiny': [1e-3, 2e-3, 2.5e-3, 7e-3, 8e-3]}


def unit_distributions(rec, u):
    nb = u['nb']
    vals = (0, 1, 3) if rec.tier == 'quick' else (0, 1, 2, 5)
    for g in EDGES:
        edges = np.array(EDGES[g][:nb + 1])
        for counts in itertools.product(vals, repeat=nb):
            if not any(counts):
                continue
            for lo, hi in ((0, 0), (1, 0), (0, 2)):
                rec.case([g, counts, lo, hi],
                         lambda: distribution(rec, edges, counts, lo, hi))


def distribution(rec, edges, counts, lo, hi):
    rec.state(edges.tolist(), counts, lo, hi)
    n = len(counts)
    mids = (edges[:-1] + edges[1:])/2
    w = np.diff(edges)
    data = [m for m, c in zip(mids, counts) for _ in range(c)]
    data += [edges[0] - 1]*lo + [edges[-1] + 1]*hi
    a = montecarlo(bins=edges)
    half = (len(data) + 1)//2
    a.update(data[:half])
    if data[half:]:
        a.update(data[half:])
    rec.step(2)
    msg = 'bins %s, counts %s, outside %d, %d:' % (edges.tolist(), counts,
                                                  lo, hi)
    rec.same(a.histogram()[0], counts, msg + ' counts', 0)
    rec.check(int(a.outpaths) == lo + hi, msg + ' outpaths')
    d, bins = a.density_histogram()
    rec.same(bins, edges, msg + ' bins', 0)
    tot = sum(counts)
    want = np.array(counts)/tot/w
    rec.same(d, want, msg + ' density')
    rec.check(abs((d*np.diff(bins)).sum() - 1) < 1e-12,
              msg + ' density histogram does not integrate to one')
    cum = np.concatenate(([0.], np.cumsum(counts)/tot))

    # interpolated estimates
    kw = dict(method='interp')
    rec.same(a.cdf(edges, **kw), cum, msg + ' interpolated cdf at the edges')
    rec.same(a.cdf(mids, **kw), (cum[1:] + cum[:-1])/2,
             msg + ' interpolated cdf at midpoints')
    rec.same(a.pdf(mids, **kw), want, msg + ' interpolated pdf at midpoints')
    far = np.array([edges[0] - 10, edges[0] - 1e-9, edges[-1] + 1e-9,
                    edges[-1] + 10])
    rec.same(a.cdf(far, **kw), [0, 0, 1, 1], msg + ' cdf out of range')
    rec.same(a.pdf(far, **kw), [0, 0, 0, 0], msg + ' pdf out of range')
    rec.same(a.pdf(edges[[0, -1]], **kw), [0, 0], msg + ' pdf at the edges')
    scale = edges[-1] - edges[0]
    x = np.linspace(edges[0] - .5*scale, edges[-1] + .5*scale, 101)
    if n > 1:
        xp = np.concatenate((edges[:1], mids, edges[-1:]))
        fp = np.concatenate(([0.], want, [0.]))
        rec.same(a.pdf(x, **kw), np.interp(x, xp, fp, 0, 0),
                 msg + ' interpolated pdf')
    rec.same(a.cdf(x, **kw), np.interp(x, edges, cum, 0, 1),
             msg + ' interpolated cdf')
    for kind in ('linear', 'nearest', 'zero', 'previous', 'next'):
        c = a.cdf(x, kind=kind, **kw)
        rec.check((np.diff(c) >= -1e-12).all() and c[0] == 0 and
                  abs(c[-1] - 1) < 1e-12, msg + ' cdf (%s)' % kind)
        rec.check((a.pdf(x, kind=kind, **kw) >= -1e-12).all(),
                  msg + ' negative pdf (%s)' % kind)
        rec.same(a.cdf(edges, kind=kind, **kw), cum,
                 msg + ' cdf (%s) at the edges' % kind)

    # kernel estimates
    for bw in (1., .5, 2.5):
        kw = dict(method='gaussian_kde', bandwidth=bw)
        z = (x[:, None] - mids)/(w*bw)
        wgt = np.array(counts)/tot
        pw = (wgt*np.exp(-z*z/2)/np.sqrt(2*np.pi)/(w*bw)).sum(-1)
        cw = (wgt*scipy.special.ndtr(z)).sum(-1)
        rec.same(a.pdf(x, **kw), pw, msg + ' kernel pdf, bandwidth %s' % bw)
        c = a.cdf(x, **kw)
        rec.same(c, cw, msg + ' kernel cdf, bandwidth %s' % bw)
        rec.check((np.diff(c) >= -1e-12).all() and
                  (a.pdf(x, **kw) >= 0).all(), msg + ' kernel estimates')
        big = 40*scale*max(1, bw)
        rec.same(a.cdf([edges[0] - big, edges[-1] + big], **kw), [0, 1],
                 msg + ' kernel cdf far away')
        h = 1e-4*w.min()*bw
        rec.same(a.pdf(mids, **kw)*scale,
                 (a.cdf(mids + h, **kw) - a.cdf(mids - h, **kw))/(2*h)*scale,
                 msg + ' kernel pdf is not the derivative of the cdf', 1e-5)
    rec.same(a.pdf(x), a.pdf(x, 'gaussian_kde', 1.), msg + ' defaults', 0)

    # evaluation points of all kinds
    for f in (a.pdf, a.cdf):
        for method in ('interp', 'gaussian_kde'):
            y = f(x, method)
            for arg, want in (
                    (float(x[40]), y[40]), (x[40], y[40]),
                    (x[40:41], y[40:41]), (x[:100].reshape(4, 25),
                                           y[:100].reshape(4, 25)),
                    (x[10:16].reshape(1, 3, 2), y[10:16].reshape(1, 3, 2)),
                    (list(x[:5]), y[:5]), (x[:0], y[:0]), (x[::-1], y[::-1]),
                    (tuple(x[3:9]), y[3:9])):
                rec.same(f(arg, method), want,
                         msg + ' %s at %r' % (method, np.shape(arg)))
            k = [int(np.ceil(edges[0])), int(edges[-1])]
            rec.same(f(k, method), f(np.array(k, float), method),
                     msg + ' integer points')
        rec.raises(lambda: f(x, method='spam'), 'invalid method', ValueError)


# ------------------------------------------------ larger sizes

def unit_bigdist(rec, u):
    """Histograms of many bins: each position of a single count, and other
    shapes of the counts"""
    for nb in (7, 33, 100, 256, 400):
        k = np.arange(nb + 1.)
        for g, edges in (('uniform', k*.25 - 3), ('uneven', np.cumsum(
                .1 + k % 5*.2)), ('ratio', 1.1**(k*40/nb))):
            shapes = {'ramp': np.arange(nb), 'comb': np.arange(nb) % 3,
                      'hill': (np.arange(nb)*(nb - 1 - np.arange(nb))*9
                               // nb**2),
                      'all': np.ones(nb, int), 'heavy': 50*(
                          np.arange(nb) % 7 == 3)}
            if nb < 40 or rec.tier != 'quick':
                for j in range(nb):
                    shapes['at %d' % j] = 2*(np.arange(nb) == j)
            else:
                for j in (0, 1, nb//2, nb - 2, nb - 1):
                    shapes['at %d' % j] = 2*(np.arange(nb) == j)
            for name, c in shapes.items():
                rec.case([nb, g, name], lambda: distribution(
                    rec, edges, c.tolist(), 0, 1))


BIGVS = ((300,), (12, 12), (2,)*6)


def unit_bigviews(rec, u):
    """every component of many, taken and read at all moments"""
    vs, b = BIGVS[u['v']], u['b']

    def body():
        a = montecarlo(**make(vs, b))
        ref = Ref(vs, b)
        taken = []
        for moment, size in enumerate((0, 3, 1, 40)):
            if size:
                x = block(moment - 1, vs, size, float)
                a.update(x)
                ref.update(x)
            at = list(np.ndindex(vs))
            if moment:
                at = at[moment::7]
            for i in at:
                v = a
                if moment % 2:
                    for j in i:
                        v = v[j]
                else:
                    v = a[i if len(i) > 1 else i[0]]
                taken.append((moment, i, v))
            for when, i, v in taken:
                rec.step()
                rec.state('big', vs, b, moment, when, i)
                check_view(rec, a, v, i, ref, 'view a[%s], taken after %d '
                           'updates, read after %d, bins %s:' % (
                               i, when, moment, b))
    rec.case(['big views', vs, b], body)


KINDS = dict(bigdist=unit_bigdist, bigviews=unit_bigviews, views=unit_views, snapshots=unit_snapshots,
             distributions=unit_distributions)


def units(tier, seed):
    out = [dict(kind='views', v=v, b=b) for v in range(len(VS))
           for b in BINS]
    out += [dict(kind='bigviews', v=v, b=b) for v in range(len(BIGVS))
            for b in ('none', 'int', 'explicit')]
    out.append(dict(kind='bigdist'))
    out.append(dict(kind='snapshots'))
    out += [dict(kind='distributions', nb=n) for n in (1, 2, 3, 4)]
    return out


def run_unit(rec, u):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        KINDS[u['kind']](rec, u)
