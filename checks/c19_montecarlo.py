"""C19: cumulating a montecarlo simulation equals evaluating it at once."""
import itertools
import warnings
from fractions import Fraction
import numpy as np
from sdepy import montecarlo

PROPERTY = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all update histories (value sequences, splits, axes, '
             'antithetic modes, broadcasts, bins) of the real montecarlo class, against '
             'exact rational statistics of the concatenated sample')
LEVEL_NOTE = ('all sequences of up to 5 (thorough: 6) values out of 3, in 3 alphabets, split in '
              'all ways, with 6 bins specifications and all antithetic modes; all sequences of '
              'up to 3 updates on 5 shapes with all axes, 8 data-types, 5 ctypes; all '
              'broadcasts to 6 shapes.'
              ' Plus long histories, large and empty samples.')
RULE = ('a state is (values, split, bins, mode) or (shape, axes, types, mode, split); a trace '
        'is one history of updates, compared with the statistics of the whole sample')

ALPHA = {'plain': (-1., .5, 4.), 'rounded': (.1, .7, .3),
         'far': (1e6 - .1, 1e6, 1e6 + .3)}
BINS = {'none': dict(bins=None), 'int': dict(bins=3),
        'range': dict(bins=4, range=(0., 2.)), 'auto': dict(bins='auto'),
        'edges': dict(bins=[-1., 0., .5, 2.]), 'default': {}}


def exact(values, power_of=None):
    """mean, var, skew, kurtosis of a list of floats, by exact rational
    arithmetic up to the last step; None where not defined"""
    v = [Fraction(float(x)) for x in values]
    n = len(v)
    m = sum(v)/n
    c2, c3, c4 = (sum((x - m)**k for x in v)/n for k in (2, 3, 4))
    skew = float(c3)/float(c2)**1.5 if c2 else None
    kurt = float(c4/c2**2) if c2 else None
    return float(m), float(c2), skew, kurt


def counts_of(values, edges):
    """reference counting: bins closed on the left, the last one closed"""
    edges = [float(e) for e in edges]
    counts = [0]*(len(edges) - 1)
    out = 0
    for x in values:
        for j in range(len(counts)):
            if edges[j] <= x < edges[j+1] or \
                    (j == len(counts) - 1 and x == edges[-1]):
                counts[j] += 1
                break
        else:
            out += 1
    return counts, out


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n-1):
        sizes, s = [], 1
        for c in cut:
            if c:
                sizes.append(s)
                s = 1
            else:
                s += 1
        yield tuple(sizes + [s])


def antithetic(piece, use):
    if use == 'all':
        return list(piece)
    h = len(piece)//2
    s = 1 if use == 'even' else -1
    return [(piece[k] + s*piece[h+k])/2 for k in range(h)]


def check_stats(rec, a, values, msg, rtol=1e-9, scale=None, dtype=None):
    """values: dict index -> list of floats"""
    vshape = a.vshape
    n = a.paths
    mean, var, std, err = a.mean(), a.var(), a.std(), a.stderr()
    skew, kurt = a.skew(), a.kurtosis()
    st = a.stats
    for k, x in (('mean', mean), ('std', std), ('stderr', err),
                 ('skew', skew), ('kurtosis', kurt)):
        rec.same(st[k], x, msg + ' stats ' + k, 0)
    rec.same(a.m, mean, msg + ' m', 0)
    rec.same(a.s, std, msg + ' s', 0)
    rec.same(a.e, err, msg + ' e', 0)
    for i in np.ndindex(vshape):
        v = values[i]
        if not rec.check(n == len(v), '%s paths %r, expected %d' % (
                msg, n, len(v))):
            return
        m, c2, c3, c4 = exact(v)
        big = max(abs(x - m) for x in v) or 1.
        tol = rtol*max(1., abs(m)/big)
        for name, got, want, unit in (
                ('mean', mean, m, max(abs(m), big)),
                ('var', var, c2, big**2), ('skew', skew, c3, 1),
                ('kurtosis', kurt, c4, 1)):
            if want is None or (c2 and c2 < 1e-3*big**2):
                continue
            if n == 1 and name == 'kurtosis':
                continue
            if n == 1 and name == 'skew':
                continue
            g = float(np.asarray(got)[i])
            rec.check(abs(g - want) <= 10*tol*unit*max(1, abs(want)),
                      '%s %s%s is %r, expected %r' % (msg, name, i, g, want))
        sd = c2**.5
        g = float(np.asarray(std)[i])
        rec.check(abs(g - sd) <= 1e-6*big if rtol < 1e-6 else
                  abs(g - sd) <= 30*tol*big,
                  '%s std%s is %r, expected %r' % (msg, i, g, sd))
        if n > 1:
            g = float(np.asarray(err)[i])
            rec.check(abs(g - sd/(n-1)**.5) <= (
                1e-6*big if rtol < 1e-6 else 30*tol*big),
                '%s stderr%s is %r, expected %r' % (
                    msg, i, g, sd/(n-1)**.5))
        else:
            rec.check(np.isnan(err).all(), '%s stderr of one path' % msg)


def check_histogram(rec, a, values, edges, msg):
    """edges: dict index -> bins fixed at first update"""
    for i in np.ndindex(a.vshape):
        c = a[i] if a.vshape else a
        want, out = counts_of(values[i], edges[i])
        counts, bins = c.histogram()
        rec.same(bins, edges[i], msg + ' bins', 1e-12)
        rec.same(counts, want, msg + ' counts%s' % (i,), 0)
        rec.check(np.ravel(c.outpaths).tolist() == [out],
                  '%s outpaths%s is %r, expected %d' % (
                      msg, i, c.outpaths, out))
        rec.check(np.sum(counts) + np.sum(c.outpaths) == a.paths,
                  msg + ' counts do not add up')
        rec.check(abs(float(np.ravel(c.outerr())[0]) - out/a.paths) < 1e-12,
                  msg + ' outerr')


# ------------------------------------------------ all values, all splits

def unit_values(rec, u):
    alpha = ALPHA[u['alpha']]
    use = u['use']
    for n in range(1, u['n'] + 1):
        for seq in itertools.product(alpha, repeat=n):
            if use == 'all':
                splits = list(compositions(n))
            else:
                splits = [s for s in compositions(n)
                          if all(k % 2 == 0 for k in s)]
            for split in splits:
                for b in u['bins']:
                    rec.case([u['alpha'], use, b, seq, split],
                             lambda: history(rec, seq, split, b, use))


def history(rec, seq, split, b, use):
    rec.state(seq, split, b, use)
    a = montecarlo(use=use, **BINS[b])
    k, values, first = 0, [], None
    for size in split:
        piece = np.array(seq[k:k+size])
        keep = piece.copy()
        a.update(piece)
        rec.check((piece == keep).all(), 'the sample was modified')
        new = antithetic(seq[k:k+size], use)
        if first is None:
            first = new
        values += new
        k += size
        rec.step()
    msg = '%s in %s, %s, %s:' % (seq, split, b, use)
    rec.check(a.vshape == () and a.shape == (len(values),),
              msg + ' shape')
    check_stats(rec, a, {(): values}, msg)
    if b != 'none':
        kw = dict(BINS[b]) if b != 'default' else dict(bins=100)
        edges = np.histogram_bin_edges(np.array(first), **kw)
        check_histogram(rec, a, {(): values}, {(): edges}, msg)
    else:
        rec.raises(a.histogram, msg + ' histogram without bins', ValueError)


# ------------------------------------------------ shapes, axes, types

VS = ((), (1,), (2,), (2, 3), (3, 1))


def block(k0, vshape, paths, dtype):
    """samples with paths last; distinct values, growing along the history"""
    size = int(np.prod(vshape))
    k = np.arange(size*paths).reshape(tuple(vshape) + (paths,)) + 17*k0
    x = (k*k % 23)*.25 - (k % 5)
    dt = np.dtype(dtype)
    if dt.kind == 'b':
        return k % 3 == 0
    if dt == np.uint8:
        return (k*k % 23*11).astype(dt)
    if dt == np.int8:
        return ((k*k % 23 - 11)*11).astype(dt)
    if dt.kind == 'i':
        return (x*4).astype(dt)
    return x.astype(dt)


def unit_shapes(rec, u):
    vs = VS[u['v']]
    dtypes = (float, np.float32, np.float16, int, np.uint8, np.int8, bool,
              'list')
    use = u['use']
    sizes = (1, 2, 4) if use == 'all' else (2, 4)
    splits = [s for r in (1, 2, 3)
              for s in itertools.product(sizes, repeat=r)]
    nd = len(vs) + 1
    axes = list(range(-nd, nd))
    for split in splits:
        for axs in (itertools.product(axes, repeat=len(split))
                    if len(split) < 3 else [(k, (k*2+1) % nd, -1)
                                            for k in axes]):
            for dtype in dtypes if len(split) < 3 else (float, np.float32):
                if len(split) == 2 and dtype not in (float, 'list'):
                    if axs[1] != axs[0]:
                        continue
                for how in ('init', 'empty'):
                    if how == 'init' and len(split) == 2 \
                            and dtype is not float:
                        continue
                    rec.case([vs, use, split, axs, str(dtype), how],
                             lambda: shaped(rec, vs, split, axs, dtype, use,
                                            how, None, np.int64))
    for ctype in (np.int32, np.uint16, np.uint64, float, int):
        for dt in (None, float, np.float32):
            for split in splits:
                if len(split) == 2:
                    rec.case([vs, use, split, str(ctype), str(dt)],
                             lambda: shaped(rec, vs, split,
                                            (-1,)*len(split), float, use,
                                            'empty', dt, ctype))


def shaped(rec, vs, split, axs, dtype, use, how, dt, ctype, bins=None):
    rec.state(vs, split, axs, str(dtype), use, how, str(dt), str(ctype))
    islist = dtype == 'list'
    kw = dict(bins=5, use=use, dtype=dt, ctype=ctype)
    a = None if how == 'init' else montecarlo(**kw)
    values = {i: [] for i in np.ndindex(vs)}
    edges = {}
    for k, (size, axis) in enumerate(zip(split, axs)):
        x = block(k, vs, size, float if islist else dtype)
        y = np.moveaxis(x, -1, axis).copy()
        keep = y.copy()
        arg = y.tolist() if islist else y
        if a is None:
            a = montecarlo(arg, axis, **kw)
        else:
            a.update(arg, axis=axis)
        rec.step()
        rec.check((y == keep).all(), 'the sample was modified')
        for i in np.ndindex(vs):
            if use == 'all':
                new = x[i].tolist()
            else:
                h = size//2
                lo, hi = x[i][:h], x[i][h:]
                if x.dtype.kind not in 'f':
                    lo, hi = lo.astype(float), hi.astype(float)
                new = ((lo + hi if use == 'even' else lo - hi)/2).tolist()
            values[i] += new
            if k == 0:
                edges[i] = np.histogram_bin_edges(
                    np.array(new, float) if x.dtype.kind in 'iub'
                    else np.array(new, x.dtype), bins=5)
    rtol = 1e-9
    f = dt if dt is not None else (
        x.dtype if x.dtype.kind == 'f' else float)
    if np.dtype(f) == np.float32 or x.dtype == np.float32:
        rtol = 2e-5
    if np.dtype(f) == np.float16:
        rtol = 1e-2
    msg = 'shape %s, split %s, axes %s, %s, use=%s:' % (
        vs, split, axs, dtype, use)
    rec.check(a.vshape == tuple(vs) and
              a.shape == tuple(vs) + (len(values[i]),) and
              a.paths == len(values[i]), msg + ' shape %s' % (a.shape,))
    check_stats(rec, a, values, msg, rtol)
    if rtol == 1e-9:
        check_histogram(rec, a, values, edges, msg)
    for i in np.ndindex(vs):
        c = a[i] if vs else a
        rec.check(c.histogram()[0].dtype == np.dtype(ctype),
                  msg + ' counts data-type')
        rec.check(int(c.histogram()[0].sum()) + int(np.ravel(
            c.outpaths)[0]) == a.paths, msg + ' counts do not add up')


# ------------------------------------------------ broadcasting

def below(vs):
    """all shapes that broadcast to vs"""
    for n in range(len(vs) + 1):
        tail = vs[len(vs) - n:]
        for ones in itertools.product((0, 1), repeat=n):
            s = tuple(1 if o else d for o, d in zip(ones, tail))
            yield s


def unit_broadcast(rec, u):
    for vs in ((), (1,), (2,), (2, 3), (3, 1), (2, 2, 2)):
        shapes = sorted(set(below(vs)))
        for s1, s2 in itertools.product(shapes, repeat=2):
            for bins in (4, None):
                for m in ((2, 3, 2), (4, 1, 2)):
                    rec.case([vs, s1, s2, bins, m],
                             lambda: broadcast(rec, vs, s1, s2, bins, m))
        rec.case(['scalar', vs], lambda: scalars(rec, vs))


def broadcast(rec, vs, s1, s2, bins, m):
    rec.state(vs, s1, s2, bins, m)
    a = montecarlo(bins=bins)
    values = {i: [] for i in np.ndindex(vs)}
    edges = {}
    for k, (s, n) in enumerate(zip((vs, s1, s2), m)):
        x = block(k, s, n, float)
        keep = x.copy()
        a.update(x)
        rec.step()
        rec.check((x == keep).all(), 'the sample was modified')
        full = np.broadcast_to(x, tuple(vs) + (n,))
        for i in np.ndindex(vs):
            values[i] += full[i].tolist()
            if k == 0:
                edges[i] = np.histogram_bin_edges(full[i], bins=4)
    msg = 'shapes %s, %s, %s, bins=%s:' % (vs, s1, s2, bins)
    check_stats(rec, a, values, msg)
    if bins:
        check_histogram(rec, a, values, edges, msg)


def scalars(rec, vs):
    a = montecarlo(bins=4)
    x = block(0, vs, 3, float)
    a.update(x)
    a.update(10)
    a.update([2.5, 3])
    a.update(np.float32(1))
    values = {i: x[i].tolist() + [10., 2.5, 3., 1.] for i in np.ndindex(vs)}
    edges = {i: np.histogram_bin_edges(x[i], bins=4) for i in np.ndindex(vs)}
    rec.step(4)
    check_stats(rec, a, values, 'scalar samples, shape %s:' % (vs,))
    check_histogram(rec, a, values, edges, 'scalar samples')


# ------------------------------------------------ long and uneven histories

def unit_long(rec, u):
    """many updates, moving locations and scales, empty samples"""
    for vs in ((), (2,)):
        for loc in ((0, 0, 0), (0, 100, 0), (1e3, 0, 50), (-5, 5, 1e4)):
            for sizes in ((1, 1, 1), (1, 50, 3), (100, 1, 20), (7, 30, 64)):
                for empties in itertools.product((0, 1), repeat=4):
                    rec.case([vs, loc, sizes, empties],
                             lambda: uneven(rec, vs, loc, sizes, empties))
    for n in (1, 2, 5, 20, 100, 300):
        for size in (1, 3):
            rec.case(['many', n, size], lambda: many(rec, n, size))


def uneven(rec, vs, loc, sizes, empties):
    rec.state(vs, loc, sizes, empties)
    a = montecarlo(bins=7)
    values = {i: [] for i in np.ndindex(vs)}
    edges = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in range(3):
            if empties[k]:
                a.update(np.zeros(tuple(vs) + (0,)))
            x = block(k, vs, sizes[k], float) + loc[k]
            a.update(x)
            rec.step()
            for i in np.ndindex(vs):
                values[i] += x[i].tolist()
                if k == 0:
                    edges[i] = np.histogram_bin_edges(x[i], bins=7)
        if empties[3]:
            a.update(np.zeros(tuple(vs) + (0,)))
    msg = 'locations %s, sizes %s, empty samples %s:' % (loc, sizes, empties)
    check_stats(rec, a, values, msg, 1e-7)
    check_histogram(rec, a, values, edges, msg)


def many(rec, n, size):
    rec.state(n, size)
    a = montecarlo(bins=[-3., -1., 0., .5, 3., 7.])
    b = montecarlo(use='odd', bins=None)
    values, odd = [], []
    for k in range(n):
        x = block(k, (), size, float)
        a.update(x)
        b.update([x[0], x[-1] + k])
        odd.append((x[0] - x[-1] - k)/2)
        if k % 3 == 0:
            b.update([])
            a.update(np.zeros((0,)))
        values += x.tolist()
        rec.step(2)
    check_stats(rec, a, {(): values}, '%d updates:' % n)
    check_histogram(rec, a, {(): values},
                    {(): [-3., -1., 0., .5, 3., 7.]}, '%d updates:' % n)
    check_stats(rec, b, {(): odd}, '%d odd updates:' % n)


# ------------------------------------------------ explicit bins per component

def unit_bins(rec, u):
    for vs in VS + ((2, 2),):
        for form in ('array', 'list', 'object'):
            for split in itertools.product((1, 3), repeat=2):
                rec.case([vs, form, split],
                         lambda: explicit(rec, vs, form, split))


def explicit(rec, vs, form, split):
    rec.state(vs, form, split)
    edges = {}
    bins = np.empty(tuple(vs) + (4,))
    for k, i in enumerate(np.ndindex(vs)):
        bins[i] = edges[i] = [-2. - k, -.5, 1. + k, 2.5 + k*k]
    if form == 'list':
        arg = bins.tolist()
    elif form == 'object':
        arg = np.empty(vs, object)
        for k, i in enumerate(np.ndindex(vs)):
            if k % 2:
                edges[i] = [-1., 0., 5.]
            arg[i] = np.array(edges[i])
    else:
        arg = bins
    keep = np.array(arg, copy=True)
    a = montecarlo(bins=arg, range=(0, 1))
    values = {i: [] for i in np.ndindex(vs)}
    for k, n in enumerate(split):
        x = block(k, vs, n, float)
        a.update(x)
        rec.step()
        for i in np.ndindex(vs):
            values[i] += x[i].tolist()
    if form != 'object':
        rec.same(arg, keep, 'bins given were modified', 0)
    msg = 'explicit bins (%s), shape %s:' % (form, vs)
    check_stats(rec, a, values, msg)
    check_histogram(rec, a, values, edges, msg)


# ------------------------------------------------ large samples, many updates

def raw_stats(v):
    """exact statistics of an array of integers, by sums of powers"""
    n = len(v)
    val, num = np.unique(v, return_counts=True)
    m = [sum(int(c)*int(x)**k for x, c in zip(val, num)) for k in range(5)]
    m = [Fraction(a, n) for a in m]
    mean = m[1]
    c2 = m[2] - mean**2
    c3 = m[3] - 3*mean*m[2] + 2*mean**3
    c4 = m[4] - 4*mean*m[3] + 6*mean**2*m[2] - 3*mean**4
    return (float(mean), float(c2), float(c3)/float(c2)**1.5,
            float(c4/c2**2))


def big_sample(k0, vs, n, loc):
    """integers, different for each component"""
    j = np.arange(n, dtype=np.int64)
    out = np.empty(tuple(vs) + (n,), np.int64)
    for c, i in enumerate(np.ndindex(vs)):
        z = (j + 1)*(7919 + 2*c) + 31*k0
        out[i] = z*z % 1009 % (23 + c % 7) - 9 + loc
    return out


BIGSPLITS = ((100000, 1, 7), (1, 65536, 65537), (7, 70000, 300),
             (2,)*200, tuple(range(1, 61)), (1,)*300, (257, 1000)*8,
             (1, 2, 1000)*12, (512,)*64)
BIGBINS = {'none': None, 'int': 10, '300': 300, 'lin': np.linspace(-20, 60, 257),
           'touch': np.arange(-12., 40.), 'uneven': np.array(
               [-9.5, -9, -3, -2.75, 0, 1, 1.5, 8, 100]), 'one': [-4., 4.]}


def unit_big(rec, u):
    vs = tuple(u['vs'])
    for sizes in BIGSPLITS:
        if int(np.prod(vs))*sum(sizes) > 600000:
            continue
        if len(vs) and len(sizes) > 100 and int(np.prod(vs)) > 9:
            continue
        for b, use in itertools.product(BIGBINS, ('all', 'even', 'odd')):
            if use != 'all' and b not in ('none', 'lin'):
                continue
            for scale, dtype in ((1, int), (.25, float), (1, np.int8),
                                 (.25, np.float32)):
                if dtype is not float and b not in ('int', 'lin'):
                    continue
                rec.case([vs, sizes[:12], b, use, str(dtype)],
                         lambda: bigone(rec, vs, sizes, b, use, scale, dtype))


def bigone(rec, vs, sizes, b, use, scale, dtype):
    bins = BIGBINS[b]
    if vs and not isinstance(bins, (int, type(None))):
        # one array of bins per component
        e = np.asarray(bins)
        bins = np.empty(vs + e.shape)
        for k, i in enumerate(np.ndindex(vs)):
            bins[i] = e + k % 3
    a = montecarlo(bins=bins, use=use)
    x, parts = None, []
    for k, n in enumerate(sizes):
        n = n if use == 'all' else 2*n
        x = big_sample(k, vs, n, (k % 3)*5)
        y = (x*scale).astype(dtype)
        if k % 2 and len(vs):
            y = np.moveaxis(y, -1, 0)
        a.update(y, axis=0 if k % 2 and len(vs) else -1)
        rec.step()
        # in units of scale/2
        if use == 'all':
            parts.append(2*x)
        else:
            s = 1 if use == 'even' else -1
            parts.append(x[..., :n//2] + s*x[..., n//2:])
    v = np.concatenate(parts, axis=-1)
    unit = scale/2
    n = v.shape[-1]
    rec.state(vs, sizes, b, use, str(dtype))
    msg = 'samples of %s..., bins %s, %s, %s' % (
        sizes[:4], b, use, np.dtype(dtype))
    rec.check(a.paths == n and a.vshape == tuple(vs), msg + ': paths')
    st = a.mean(), a.var(), a.skew(), a.kurtosis(), a.std(), a.stderr()
    tol = 1e-9 if dtype is not np.float32 else 3e-3
    for i in np.ndindex(vs):
        m, c2, sk, ku = raw_stats(v[i])
        m, c2 = m*unit, c2*unit**2
        want = m, c2, sk, ku, c2**.5, (c2/(n - 1))**.5
        for name, g, w, size in zip(
                ('mean', 'var', 'skew', 'kurtosis', 'std', 'stderr'), st,
                want, (c2**.5 + abs(m), c2, 10., 10., c2**.5,
                       (c2/(n - 1))**.5)):
            g = float(np.asarray(g)[i])
            rec.check(abs(g - w) <= tol*size, lambda: '%s: %s%s is %r, '
                      'expected %r' % (msg, name, i, g, w))
    if bins is None:
        return
    z = v*unit
    n0 = parts[0].shape[-1]
    for i in np.ndindex(vs):
        c = a[i] if vs else a
        counts, edges = c.histogram()
        if isinstance(bins, int):
            first = z[i][:n0]
            rec.same(edges, np.histogram_bin_edges(first, bins=bins),
                     msg + ': bins', 1e-6)
        else:
            rec.same(edges, np.asarray(bins)[i], msg + ': bins', 0)
        if isinstance(bins, int) and dtype is np.float32:
            continue
        # closed on the left, the last one closed
        k = np.searchsorted(edges, z[i], 'right') - 1
        k[z[i] == edges[-1]] = len(edges) - 2
        ok = (k >= 0) & (k < len(edges) - 1)
        ref = np.bincount(k[ok], minlength=len(edges) - 1)
        if isinstance(bins, int):
            # numpy computes the bins of evenly spaced edges
            rec.check(abs(counts.sum() + int(np.ravel(c.outpaths)[0]) - n)
                      == 0, msg + ': counts do not add up')
        rec.same(counts, ref, '%s: counts%s' % (msg, i), 0)
        rec.check(np.ravel(c.outpaths).tolist() == [int((~ok).sum())],
                  msg + ': outpaths')


KINDS = dict(big=unit_big, values=unit_values, shapes=unit_shapes, broadcast=unit_broadcast,
             long=unit_long, bins=unit_bins)


def units(tier, seed):
    out = []
    for a, use, b in itertools.product(ALPHA, ('all', 'even', 'odd'), BINS):
        deep = b in ('none', 'range') or tier != 'quick'
        n = 4 + deep + (tier != 'quick' and b in ('none', 'range'))
        out.append(dict(kind='values', alpha=a, use=use, bins=[b],
                        n=n if use == 'all' else 4 + 2*deep))
    out += [dict(kind='shapes', v=v, use=use) for v in range(len(VS))
            for use in ('all', 'even', 'odd')]
    out += [dict(kind=k) for k in ('broadcast', 'long', 'bins')]
    out = [dict(kind='big', vs=list(vs)) for vs in (
        (200,), (12, 12), (3,), (2,)*6, (1, 40), ())] + out
    return out


def run_unit(rec, u):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        KINDS[u['kind']](rec, u)
