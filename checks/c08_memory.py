"""C08: sources with memory never change what they have already revealed."""
import itertools
import numpy as np
import sdepy
from checks.c06_sources import EMPTY

PROPERTY = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of query sequences on real sources with '
             'memory, against a dictionary of revealed values')
LEVEL_NOTE = ('All query sequences up to depth 3 (thorough: 4 on a smaller '
              'alphabet) over 17 queries (scalars inside, outside, on either side '
              'of the tolerance, arrays, increments, indexed views) for Wiener, '
              'Poisson, compound Poisson and user sources; returned arrays are '
              'overwritten after each query. One generator state per sequence.'
              ' Plus 8 orders of 40-60 times on 4 grids, times close to each other and to zero.')
RULE = ('a state is (source kind, sequence of queries); a transition is one '
        'query; a trace is a complete sequence with its final re-queries')

RTOL = 1e-3
VIEWS = {
    'int': 0, 'neg': -1, 'slice': slice(1, None), 'ell': (Ellipsis, 1),
    'mask': np.array([True, False, True]), 'arr': [2, 0], 'new': None,
    'rev': slice(None, None, -1), 'tup': (1,), 'npint': np.int64(2),
    'arr2': np.array([[0, 1], [2, 2]]), 'all': Ellipsis,
}
VIEWS2 = {
    'int': 0, 'neg': -1, 'slice': slice(1, None), 'ell': (Ellipsis, 1),
    'pair': (1, 2), 'mask': np.array([True, False]), 'arr': [1, 0],
    'mask2': np.array([[True, False, True], [False, True, True]]),
    'col': (slice(None), [2, 0]), 'arr2': ([0, 1], [1, 2]),
    'npint': np.int64(1), 'tup': (1, slice(None, 2)), 'all': Ellipsis,
}


class Recording(sdepy.true_source):
    """user source, with a record of the points its methods are given"""

    def __init__(self, **k):
        self.seen = []
        self.count = 0
        super().__init__(**k)

    def fresh(self, kind, args, vals):
        self.seen.append((kind, args, [np.array(v) for v in vals]))
        self.count += 1
        n = int(np.prod(self.vshape))*self.paths
        return (10*self.count + np.arange(n)/n).reshape(
            self.vshape + (self.paths,))

    def new_outside(self, z, t, s):
        return self.fresh('out', (t, s), [z])

    def new_inside(self, z1, z2, t1, t2, s):
        return self.fresh('in', (t1, t2, s), [z1, z2])


class Structured(Recording):
    """the same, storing lists instead of values"""

    def init(self):
        return ['x', super().init()]

    def new_outside(self, z, t, s):
        assert z[0] == 'x'
        return ['x', super().new_outside(z[1], t, s)]

    def new_inside(self, z1, z2, t1, t2, s):
        assert z1[0] == z2[0] == 'x'
        return ['x', super().new_inside(z1[1], z2[1], t1, t2, s)]

    def getvalue(self, z):
        return z[1]

    def getsize(self, z):
        return z[1].size + 1


def letters(t0, rtol, dn=False):
    a = t0 + 1.
    L = {
        'out': ('q', a), 'above': ('q', a*(1 + rtol/2)),
        'below': ('q', a*(1 - rtol/2)), 'far': ('q', a*(1 + 8*rtol)),
        'in': ('q', t0 + .5), 'back': ('q', t0 - 1.5), 't0': ('q', t0),
        'int': ('q', int(np.ceil(t0)) + 3),
        'array': ('q', np.array([t0 + 3., t0 + .5, a, t0 + 3.])),
        'grid': ('q', [[t0 - .5, t0 + 2], [a, t0 - 1.5]]),
        'inc': ('q', t0 + .5, .5), 'incback': ('q', a, -1.75),
        'incs': ('q', np.array([t0 - 1., t0 + .25]), np.array([[2.], [.75]])),
        'view': ('v', 'int', t0 + 1.5), 'viewarr': ('v', 'ell',
                                                    np.array([a, t0 + .75])),
        'viewinc': ('v', 'slice', np.array([t0 + .5, t0 - 1.5]), 1.),
        'mask': ('v', 'mask', t0 - .25),
    }
    if dn:
        L['dn'] = ('n', np.array([t0 + 2.5, t0 + .5]))
        L['dnin'] = ('n', t0 + .3)
    return L


VIEWLETTERS = [(kind, t) for kind in ('q', 'i') for t in
               (.5, np.array(-1.), np.array([1., .5]), [[2., -1.], [.5, 3.]],
                [.25], np.zeros((2, 0)))]

KINDS = ('wiener', 'wcorr', 'poisson', 'cpoisson', 'dn', 'user', 'struct')


def make(kind, vshape, paths, t0, z0, rtol):
    kw = dict(vshape=vshape, paths=paths, t0=t0, z0=z0, rtol=rtol,
              rng=np.random.default_rng(7))
    M = vshape[-1] if vshape else 1
    C = np.eye(M)*.5 + .5
    if kind == 'wiener':
        return sdepy.true_wiener_source(**kw)
    if kind == 'wcorr':
        return sdepy.true_wiener_source(corr=lambda t: C*1., **kw)
    if kind == 'poisson':
        return sdepy.true_poisson_source(lam=2., **kw)
    if kind == 'cpoisson':
        return sdepy.true_cpoisson_source(lam=1.5, y=sdepy.norm_rv(1, 2),
                                          **kw)
    if kind == 'dn':
        dn = sdepy.true_poisson_source(paths=paths, vshape=vshape, lam=2.,
                                       t0=t0, rng=np.random.default_rng(8))
        return sdepy.true_cpoisson_source(dn=dn, y=sdepy.exp_rv(a=1.), **kw)
    return dict(user=Recording, struct=Structured)[kind](**kw)


class Model:
    """what has been revealed so far"""

    def __init__(self, rec, src, rtol):
        self.rec, self.src = rec, src
        self.rtol = np.finfo(float).resolution if rtol == 'max' else rtol
        self.times, self.vals = [], []

    def find(self, t):
        for k, s in enumerate(self.times):
            if abs(t - s) <= self.rtol*abs(s):
                return k
        return None

    def learn(self, t, v):
        """v revealed at t: must be the known value, if any"""
        t = float(t)
        k = self.find(t)
        if k is None:
            self.times.append(t)
            self.vals.append(np.array(v))
        else:
            self.rec.same(v, self.vals[k], lambda: 'value at %r, known since '
                          'revealed at %r' % (t, self.times[k]), tol=0)

    def pick(self, t):
        return self.vals[self.find(float(t))]


def query(rec, m, letter, views, label):
    src = m.src
    full = tuple(src.vshape) + (src.paths,)
    op, args = letter[0], letter[1:]
    rec.step()
    if op == 'n':
        m.src.dn(*args)
        return
    if op == 'v':
        idx = views[args[0]]
        args = args[1:]
        view = src[idx]
        got = view(*args)
        sel = (lambda v: v[idx if isinstance(idx, tuple) and
                           Ellipsis in [i for i in idx if i is Ellipsis]
                           else (idx if isinstance(idx, tuple) else (idx,))
                           ])
        # indexing of the values along their own axes, for every path
        pick = (lambda v: np.stack([sel(v[..., p])
                                    for p in range(src.paths)], axis=-1))
    else:
        got = src(*args)
        pick = (lambda v: v)
    if op == 'q' and len(args) == 1:
        t = np.asarray(args[0])
        want_shape = t.shape + full
        rec.check(isinstance(got, np.ndarray) and got.shape == want_shape,
                  lambda: '%s: shape %s, expected %s' % (
                      label, np.shape(got), want_shape))
        rec.check(got.dtype == src.dtype if src.dtype is not None else True,
                  lambda: 'dtype %s, not %s' % (got.dtype, src.dtype))
        for i in np.ndindex(t.shape):
            m.learn(t[i], got[i])
    else:
        t, dt = np.broadcast_arrays(args[0], args[1] if len(args) > 1 else 0)
        s = t + dt if len(args) > 1 else t
        saved = got.copy()
        for i in np.ndindex(t.shape):
            for u in ((s[i], t[i]) if len(args) > 1 else (t[i],)):
                if m.find(float(u)) is None:
                    m.learn(u, src(u))
        want = [pick(m.pick(s[i])) - pick(m.pick(t[i])) if len(args) > 1
                else pick(m.pick(t[i])) for i in np.ndindex(t.shape)]
        if want:
            want = np.array(want).reshape(t.shape + want[0].shape)
        else:
            want = np.zeros(t.shape + pick(np.zeros(full)).shape)
        rec.same(saved, want, '%s: increments or view' % label, tol=1e-12)
    if got.flags.writeable:
        got[...] = 77


def settle(rec, m, kind, t0, z0):
    """final re-queries and inspection"""
    src = m.src
    ts = np.array(m.times)
    rec.same(src(ts), np.array(m.vals), 're-query as an array', tol=0)
    perm = ts[::-1]
    again = [src(t) for t in perm]
    rec.same(again, np.array(m.vals)[::-1], 're-query one by one', tol=0)
    tl = src.t
    rec.check(isinstance(tl, np.ndarray) and tl.ndim == 1 and
              (np.diff(tl) > 0).all(), lambda: 'timeline %r' % (tl,))
    rec.check((tl == t0).any(), 't0 missing from timeline')
    for t in tl:
        rec.check(m.find(t) is not None or t == t0,
                  lambda: 'timeline %r, never queried' % t)
    if kind not in ('poisson', 'cpoisson', 'dn'):
        for t in ts:
            rec.check((np.abs(tl - t) <= m.rtol*np.abs(tl)).any(),
                      lambda: 'queried time %r not in timeline' % t)
    for t in tl:
        rec.same(src(t), m.vals[m.find(t)], 'value at timeline', tol=0)
    full = tuple(src.vshape) + (src.paths,)
    rec.same(src(t0), np.broadcast_to(np.asarray(z0, src.dtype), full),
             'z0 at t0', tol=0)
    size = int(np.prod(full))*tl.size
    if kind == 'struct':
        size += tl.size
    if kind in ('cpoisson', 'dn'):
        rec.check(src.size >= size, 'size of the memory')
    else:
        rec.check(src.size == size, lambda: 'size %s, not %s' % (src.size,
                                                                 size))
    if kind in ('user', 'struct'):
        user_args(rec, m, t0, z0)


def user_args(rec, m, t0, z0):
    """each call of the generation methods got the adjacent points"""
    src = m.src
    full = tuple(src.vshape) + (src.paths,)
    pts = {t0: np.broadcast_to(np.asarray(z0, float), full)}
    n = int(np.prod(full))
    for k, (op, args, vals) in enumerate(list(src.seen)):
        s = args[-1]
        below = [p for p in pts if p < s]
        above = [p for p in pts if p > s]
        rec.check(s not in pts, lambda: 'point %r generated twice' % s)
        if op == 'in':
            want = (max(below), min(above)) if below and above else None
        else:
            want = ((max(below),) if below else (min(above),)) \
                if not (below and above) else None
        rec.check(want == tuple(args[:-1]) if want else False,
                  lambda: '%s%r, adjacent points are %r' % (op, args, want))
        for p, v in zip(args[:-1], vals):
            rec.same(v, pts[p], 'value passed for point %r' % p, tol=0)
        pts[s] = (10*(k + 1) + np.arange(n)/n).reshape(full)


CONFIGS = {
    'base': dict(vshape=(3,), paths=2, t0=0., z0=0., rtol='max'),
    'shift': dict(vshape=(3,), paths=2, t0=1., z0=[[1.], [2.], [-3.]],
                  rtol=RTOL),
    'two': dict(vshape=(2, 3), paths=2, t0=-.5, z0=2., rtol=RTOL),
    'tint': dict(vshape=(3,), paths=1, t0=2, z0=1, rtol='max'),
}


def sequence(rec, kind, conf, seq, table, views):
    c = CONFIGS[conf]
    src = make(kind, **c)
    m = Model(rec, src, c['rtol'])
    m.learn(c['t0'], np.broadcast_to(np.asarray(c['z0'], src.dtype),
                                     c['vshape'] + (c['paths'],)))
    for i, name in enumerate(seq):
        rec.state(kind, conf, seq[:i + 1])
        query(rec, m, table[name], views, name)
    settle(rec, m, kind, c['t0'], c['z0'])


def views_unit(rec, kind, conf):
    """every index, on every kind of time argument, before and after the
    full values are known, against the indexed full values"""
    c = CONFIGS[conf]
    views = VIEWS2 if len(c['vshape']) == 2 else VIEWS
    for name in views:
        for k, (op, t) in enumerate(VIEWLETTERS):
            for first in ('view', 'full'):
                def run():
                    src = make(kind, **c)
                    m = Model(rec, src, c['rtol'])
                    args = (t, np.array([[.75], [-.5]])) if op == 'i' \
                        else (t,)
                    if op == 'i' and np.size(t) == 0:
                        args = (t, 1.)
                    if first == 'full':
                        src(*args)
                    query(rec, m, ('v', name) + args, views, name)
                    rec.state(kind, conf, name, k, first)
                    v = src[views[name]]
                    probe = np.zeros(c['vshape'] + (c['paths'],))
                    idx = views[name]
                    idx = idx if isinstance(idx, tuple) else (idx,)
                    want = probe[..., 0][idx].shape
                    rec.check(tuple(v.vshape) == want and
                              v.paths == c['paths'] and v.dtype == src.dtype,
                              lambda: 'view attributes %r %r' % (v.vshape,
                                                                 v.paths))
                    rec.check((v.t == src.t).all() and v.size == src.size,
                              'view timeline and size')
                    w = src(.375)
                    src2 = src[views[name]]
                    rec.same(v(.375), src2(.375), 'two views', tol=0)
                    rec.same(src(.375), w, 'after views', tol=0)
                rec.case([kind, conf, name, k, first], run)
    for bad in ((5,), (0, 0, 0, 0), 'x'):
        rec.case(['bad', repr(bad)], lambda: rec.raises(
            lambda: make(kind, **c)[bad](1.), 'invalid index %r' % (bad,)))


def near(rec):
    """both sides of the tolerance, in both orders, for many points"""
    for kind in KINDS:
        for x, y in ((.1 + .2, .3), (.3, .1 + .2), (-.3, -.1 - .2),
                     (.7 + .1, .8), (1.1*3, 3.3), (-1.1*3, -3.3),
                     (55/3*3*1.1, 60.5), (2., np.nextafter(2., 3)),
                     (2., np.nextafter(2., 1)), (-2., np.nextafter(-2., 0)),
                     (1e-9, np.nextafter(1e-9, 1))):
            if x == y:
                x = float(np.nextafter(y, 100))
            for order in ((x, y), (y, x)):
                for pre in ((), (5.,), (-5.,), (-5., 5.)):
                    def run():
                        src = make(kind, (3,), 2, 0., 0., 'max')
                        for p in pre:
                            src(p)
                        rec.state(kind, order, pre)
                        rec.step(2)
                        a = src(order[0])
                        b = src(order[1])
                        rec.same(b, a, 'tolerance', tol=0)
                        rec.check(src.t.size <= 2 + len(pre),
                                  'near points are one')
                    rec.case([kind, list(order), list(pre)], run)
        for rtol in (RTOL, .05, 1e-8):
            for base in (1., -2., 30.):
                for sign in (-1, 1):
                    for f, close in ((.5, True), (4., False)):
                        def run():
                            src = make(kind, (3,), 40, 0., 0., rtol)
                            src(40.), src(-40.)
                            a = src(base)
                            n = src.t.size
                            near = base*(1 + sign*f*rtol)
                            b = src(near)
                            rec.state(kind, rtol, base, sign, f)
                            rec.step(2)
                            if close:
                                rec.same(b, a, 'within tolerance', tol=0)
                                rec.check(src.t.size == n, 'timeline grew')
                            elif kind not in ('poisson', 'cpoisson', 'dn'):
                                rec.check((a != b).all(),
                                          'distinct times beyond tolerance')
                        rec.case([kind, rtol, base, sign, f], run)


def units(tier, seed):
    out = []
    confs = list(CONFIGS) if tier == 'thorough' else ['base', 'shift']
    for kind in KINDS:
        for conf in confs:
            out += [dict(u='seq', kind=kind, conf=conf, k=k, n=3)
                    for k in range(3)]
    if tier == 'thorough':
        for kind in KINDS:
            out += [dict(u='deep', kind=kind, conf='shift', k=k, n=8)
                    for k in range(8)]
    for kind in KINDS:
        for conf in ('base', 'two'):
            out.append(dict(u='views', kind=kind, conf=conf))
    out.append(dict(u='near'))
    out.append(dict(u='empty'))
    for kind in KINDS:
        out.append(dict(u='long', kind=kind))
    return out


def orders(n):
    """orderings of n points: monotone, inward, outward, bisecting, ..."""
    up = list(range(n))
    step = next(s for s in range(int(n*.62), 2*n) if np.gcd(s, n) == 1)
    bits = max(1, (n - 1).bit_length())
    return {
        'up': up, 'down': up[::-1],
        'inward': [x for p in zip(up, up[::-1]) for x in p][:n],
        'outward': [x for p in zip(up, up[::-1]) for x in p][:n][::-1],
        'bisect': [k for k in (int(format(j, '0%db' % bits)[::-1], 2)
                               for j in range(2**bits)) if k < n],
        'golden': [(k*step) % n for k in range(n)],
        'halves': up[n//2:] + up[:n//2],
        'comb': up[::2] + up[::-1][::2] + up[1::2],
    }


def long_unit(rec, kind):
    """Many distinct times, in many orders, with earlier ones asked again."""
    grids = {'even': (np.arange(60) - 20)/8,
             'wide': np.sign(np.arange(-25, 26))*2.**(
                 abs(np.arange(-25., 26))/2 - 8),
             'far': 1000. + np.arange(45)*.7 + (np.arange(45) % 4)/16,
             'ends': np.concatenate((np.arange(20)/512 - 4,
                                     np.arange(20)/512 + 4))}
    for gname, g in grids.items():
        for oname, o in orders(len(g)).items():
            ts = [float(g[k]) for k in o]
            for how in ('one', 'again', 'arrays', 'incs', 'views'):
                L = []
                if how == 'one':
                    L = [('q', t) for t in ts]
                elif how == 'again':
                    for k, t in enumerate(ts):
                        L += [('q', t), ('q', ts[k//2]), ('q', ts[k//3])]
                elif how == 'arrays':
                    L = [('q', np.array(ts[k:k + 1 + k % 17]))
                         for k in range(0, len(ts), 9)] + \
                        [('q', np.array(ts))]
                elif how == 'incs':
                    L = [('q', np.array(ts[k:k + 7]),
                          ts[k - 5] - np.array(ts[k:k + 7]))
                         for k in range(0, len(ts), 5)]
                else:
                    L = [('v', ('int', 'slice', 'mask', 'rev')[k % 4],
                          np.array(ts[k:k + 6]))
                         for k in range(0, len(ts), 4)]

                if rec.tier == 'quick' and how in ('again', 'incs') and \
                        oname in ('down', 'outward', 'halves', 'comb'):
                    continue

                def run():
                    table = {str(k): v for k, v in enumerate(L)}
                    c = CONFIGS['shift']
                    rec.state('long', kind, gname, oname, how)
                    src = make(kind, **dict(c, rtol='max'))
                    m = Model(rec, src, 'max')
                    m.learn(c['t0'], np.broadcast_to(
                        np.asarray(c['z0'], src.dtype),
                        c['vshape'] + (c['paths'],)))
                    for k in table:
                        query(rec, m, table[k], VIEWS, k)
                    settle(rec, m, kind, c['t0'], c['z0'])
                rec.case(['long', kind, gname, oname, how], run)


def empty_unit(rec):
    """no paths or no values: times are revealed and kept all the same"""
    def one(n, paths, vs, order):
        src = getattr(sdepy, n)(paths=paths, vshape=vs,
                                rng=np.random.default_rng(1))
        for t in order:
            z = src(t)
            rec.step()
            rec.check(z.shape == np.shape(t) + vs + (paths,), 'shape')
            z = src(t, .5)
            rec.check(z.shape == np.shape(t) + vs + (paths,), 'shape')
        rec.check((np.diff(src.t) > 0).all(), 'timeline %r' % (src.t,))
        rec.check(src.size == 0, 'size %r' % (src.size,))
        if vs:
            z = src[..., None](1.)
            rec.check(z.shape == vs + (1, paths), 'view')
        rec.state('empty', n, paths, vs, len(order))
    for n, (paths, vs), order in itertools.product(
            ('true_wiener_source', 'true_poisson_source',
             'true_cpoisson_source'), EMPTY,
            ((1., 2., .5, -1.), (-2., 3., np.array([1., 0., 1.])),
             (np.zeros((0,)), 1.), (np.zeros((2, 0)),))):
        rec.case(['empty', n, paths, vs, repr(order)],
                 lambda: one(n, paths, vs, order))
    def nothing(n):
        src = getattr(sdepy, n)(paths=3, vshape=(2,),
                                rng=np.random.default_rng(1))
        src(1.)
        T, S = src.t, src.size
        for t in (np.zeros((0,)), np.zeros((3, 0))):
            rec.check(src(t).shape == t.shape + (2, 3), 'shape')
            rec.check(src(t, 1.).shape == t.shape + (2, 3), 'shape')
            rec.check(src[0](t).shape == t.shape + (3,), 'shape')
        rec.same(src.t, T, 'timeline')
        rec.same(src.size, S, 'size')
    for n in ('true_wiener_source', 'true_poisson_source',
              'true_cpoisson_source'):
        rec.case(['no times', n], lambda: nothing(n))


def run_unit(rec, u):
    if u['u'] == 'empty':
        return empty_unit(rec)
    if u['u'] == 'near':
        return near(rec)
    if u['u'] == 'long':
        return long_unit(rec, u['kind'])
    kind, conf = u['kind'], u['conf']
    c = CONFIGS[conf]
    views = VIEWS2 if len(c['vshape']) == 2 else VIEWS
    if u['u'] == 'views':
        return views_unit(rec, kind, conf)
    rtol = 1e-15 if c['rtol'] == 'max' else c['rtol']
    if c['rtol'] == 'max':
        rtol = 5e-16
    table = letters(float(c['t0']), rtol, dn=(kind == 'dn'))
    names = list(table)
    if u['u'] == 'deep':
        names = ['out', 'above', 'in', 'back', 'array', 'incback', 'incs',
                 'viewarr', 'viewinc']
        depth = 4
    else:
        depth = 3
    seqs = list(itertools.product(names, repeat=depth))
    if u['u'] == 'seq' and rec.tier == 'quick':
        # every ordered pair and triple; triples with repeats only in thorough
        seqs = [s for s in itertools.product(names, repeat=2)] + \
            [s for s in seqs if len(set(s)) == depth and conf == 'shift'
             and kind != 'struct']
    for s in seqs[u['k']::u['n']]:
        rec.case([kind, conf, list(s)],
                 lambda: sequence(rec, kind, conf, list(s), table, views))
