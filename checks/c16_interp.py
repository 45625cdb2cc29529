"""C16: interpolation, increments, rebase and piecewise processes."""
import itertools
import warnings
import numpy as np
import sdepy
from sdepy import process, piecewise

PROPERTY = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of timelines, data-types, shapes, interpolation kinds '
             'and positions of the evaluation times on real processes, against a '
             'pointwise reference')
LEVEL_NOTE = ('22 timelines of 1 to 12 points (and all subsets of up to 5 points of a '
              'grid of 7 in the thorough tier), 6 data-types, 5 shapes, 12 kinds; '
              'evaluation at, next to (one ulp), between and outside all time points, in '
              '15 forms of the argument; splines by exactness on polynomials.'
              ' Plus timelines of hundreds of points.')
RULE = ('a state is (timeline, data-type, shape, kind, form of the argument); a trace is '
        'one evaluation compared with the reference at each time')

TL = {
    'one': [2.], 'one int': [3], 'two': [0., 1.], 'dyadic': [0., .5, 2.],
    'uneven': [-1., 0., .25, 3., 3.5], 'sevens': list(np.arange(9)*.7),
    'tenths': list(np.arange(12)*.1), 'thirds': [k/3 for k in range(8)],
    'int': [0, 1, 3], 'int32': np.array([-2, 0, 5], np.int32),
    'uint8': np.array([1, 2, 200], np.uint8),
    'f32': np.array([0., .7, 1.4, 2.1], np.float32),
    'far': list(1e6 + np.arange(5)*.1), 'close': [1., 1. + 1e-9, 2.],
    'neg': [-3., -2.5, -.1], 'tiny': [0., 1e-300, 1e-200],
    'huge': [-1e200, 0., 1e200], 'ulp': [1., np.nextafter(1., 2), 1.5],
    'irr': list(np.sqrt(np.arange(7)+.3)), 'tuple': (0., 1., 4.),
    'three': [0., 1., 2.], 'five': [0., 1., 2., 3., 4.],
}
MAIN = list(TL)
GRID = (-1.5, -.1, 0., .3, .7, 2., 2.1)
for _r in range(1, 6):
    for _c in itertools.combinations(GRID, _r):
        TL['sub %s' % (_c,)] = list(_c)
DTYPES = (float, np.float32, int, np.int8, bool, complex)
SHAPES = (((), 1), ((), 3), ((2,), 2), ((2, 1), 1), ((1, 3), 2))


def data(n, vs, paths, dtype):
    shape = (n,) + vs + (paths,)
    x = (np.arange(int(np.prod(shape)))*7 % 13 - 5.).reshape(shape)
    if dtype is complex:
        x = x*(1 + .5j) - .25j
    elif dtype is bool:
        x = x > 0
    elif dtype in (float, np.float32):
        x = x*.25
    return x.astype(dtype)


def times(t):
    """a menu of times with respect to a timeline: at, between, outside"""
    single = getattr(t, 'dtype', None) == np.float32
    t = [float(a) for a in t]
    out = list(t)
    for a, b in zip(t[:-1], t[1:]):
        # SciPy finds its bounds with the precision of the timeline
        out += [a + (b - a)*f for f in (.25, .9, .0625)]
        if not single:
            out += [a + (b - a)/2, np.nextafter(a, b), np.nextafter(b, a)]
    span = max(1., t[-1] - t[0])
    out += [t[0] - span/4, t[0] - 3*span, t[-1] + span/8, t[-1] + 7*span,
            np.nextafter(t[0], -np.inf), np.nextafter(t[-1], np.inf)]
    return out


def ref(t, x, s, kind='linear'):
    """values at the scalar time s, unrounded; None if undetermined"""
    t = [float(a) for a in t]
    s = float(s)
    if x.dtype.kind in 'bi':
        x = x.astype(float)
    if len(t) == 1 or s <= t[0]:
        return x[0]
    if s >= t[-1]:
        return x[-1]
    i = max(k for k in range(len(t)) if t[k] <= s)
    if t[i] == s:
        return x[i]
    f = (s - t[i])/(t[i + 1] - t[i])
    if kind in ('linear', 'slinear', 1):
        return x[i]*(1 - f) + x[i + 1]*f
    if kind in ('previous', 'zero', 0):
        return x[i]
    if kind == 'next':
        return x[i + 1]
    if abs(f - .5) < 1e-6:
        if f == .5 and (t[i] + t[i + 1])/2 == s:
            return x[i] if kind == 'nearest' else x[i + 1]
        return None
    return x[i] if f < .5 else x[i + 1]


def at_point(t, s):
    return any(float(a) == float(s) for a in t) or len(t) == 1 or \
        float(s) <= float(t[0]) or float(s) >= float(t[-1])


def agree(rec, got, t, x, s, kind, msg):
    """one value, against the reference"""
    want = ref(t, x, s, kind)
    if want is None:
        return
    if x.dtype.kind == 'b':
        if at_point(t, s) or kind not in ('linear', 'slinear', 1):
            rec.same(got, want.astype(bool), msg, 0)
        return
    if at_point(t, s) or kind in ('nearest', 'nearest-up', 'previous',
                                  'next', 'zero', 0):
        rec.same(got, want.astype(x.dtype), msg + ' at %r' % s, 0)
    elif x.dtype.kind == 'i':
        lo, hi = np.trunc(want - 1e-6), np.trunc(want + 1e-6)
        rec.check(((got == lo) | (got == hi)).all(),
                  lambda: '%s at %r: got %r, expected %r truncated' % (
                      msg, s, got, want))
    else:
        rec.same(got, want, msg + ' at %r' % s,
                 1e-9 if x.dtype != np.float32 else 2e-6)


def units(tier, seed):
    for tl in MAIN if tier == 'quick' else TL:
        yield dict(u='linear', tl=tl)
        yield dict(u='kinds', tl=tl)
        yield dict(u='forms', tl=tl)
        yield dict(u='rebase', tl=tl)
        yield dict(u='piece', tl=tl)
    for tl in LONG:
        yield dict(u='long', tl=tl)
    yield dict(u='splines')
    yield dict(u='special')


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['u_' + u['u']](rec, **{k: v for k, v in u.items()
                                             if k != 'u'})


def u_linear(rec, tl):
    t = TL[tl]
    for (vs, pa), dt in itertools.product(SHAPES, DTYPES):
        def body():
            x = data(len(t), vs, pa, dt)
            p = process(t, x=x)
            keep = x.copy()
            ss = times(t)
            all_ = p(np.array(ss))
            rec.check(type(all_) is np.ndarray and all_.dtype == x.dtype and
                      all_.shape == (len(ss),) + vs + (pa,),
                      'type, data-type or shape')
            for i, s in enumerate(ss):
                one = p(s)
                rec.step()
                rec.check(one.shape == vs + (pa,) and one.dtype == x.dtype,
                          'shape or data-type')
                agree(rec, one, t, x, s, 'linear', 'p(s)')
                agree(rec, all_[i], t, x, s, 'linear', 'p(array)')
            f = p.interp()
            rec.same(f(np.array(ss)), all_, 'interp', 0)
            own = p(p.t)
            rec.same(own, x, 'own time points', 0)
            all_[...] = 0
            own[...] = 0
            rec.same(np.array(p), keep, 'values altered', 0)
            rec.same(p(p.t), keep, 'later calls altered', 0)
            rec.state(tl, vs, pa, str(dt))
        rec.case(['linear', tl, vs, pa, str(dt)], body)


KINDS = ('linear', 'nearest', 'nearest-up', 'zero', 'slinear', 'previous',
         'next', 0, 1)


def u_kinds(rec, tl):
    t = TL[tl]
    for kind, (vs, pa), dt, how in itertools.product(
            KINDS, SHAPES[1::2], DTYPES, ('call', 'attr', 'interp', 'class')):
        if tl in ('ulp', 'tiny', 'huge', 'close') and (
                str(kind).startswith('near') or kind in ('zero', 'slinear',
                                                         0, 1)):
            continue    # rounding between points is the interpolator's own
        def body():
            x = data(len(t), vs, pa, dt)
            cls = process
            if how == 'class':
                cls = type('sub', (process,), dict(interp_kind=kind))
            p = cls(t, x=x)
            kw = {}
            if how == 'call':
                kw = dict(kind=kind)
                p.interp_kind = 'previous'     # overridden by the call
            elif how == 'attr':
                p.interp_kind = kind
            f = p.interp(kind=kind) if how == 'interp' else p
            ss = times(t)
            a = f(np.array(ss), **kw)
            rec.check(a.dtype == x.dtype, 'data-type')
            for i, s in enumerate(ss):
                rec.step()
                agree(rec, a[i], t, x, s, kind, 'kind %s' % kind)
                if i % 5 == 0:
                    agree(rec, f(s, **kw), t, x, s, kind, 'kind %s' % kind)
            if how == 'call' and len(t) > 1:
                g = p(np.array(ss))
                for i, s in enumerate(ss):
                    agree(rec, g[i], t, x, s, 'previous', 'attribute')
            q = process(t, x=x)
            rec.check(q.interp_kind == 'linear', 'class attribute')
            rec.state(tl, kind, vs, pa, str(dt), how)
        rec.case(['kind', tl, kind, vs, pa, str(dt), how], body)


def forms(t):
    t = [float(a) for a in t]
    a, b = t[0], t[-1]
    m = a + (b - a)*.375
    return {
        'float': m, 'np.float64': np.float64(m), '0d': np.array(m),
        'float32': np.float32(m), 'int': 1, 'np.int64': np.int64(2),
        'list': [a, m, b + 1], 'tuple': (m, a), '1d': np.array([b, m, a]),
        'empty': np.zeros(0), '2d': np.array([[a, m], [b, a - 1]]),
        'nested': [[a], [m]], '(1,)': np.array([m]),
        '3d': np.array([a, m, b, m]).reshape(2, 1, 2),
        'ints': np.array([0, 1, 2]), 'transposed':
        np.array([[a, m, b], [b, m, a]]).T, 'strided':
        np.array([a, m, b, m])[::2], 'same': np.array([m, m, m]),
        '(0, 2)': np.zeros((0, 2)),
    }


def u_forms(rec, tl):
    t = TL[tl]
    fs = forms(t)
    for name, (vs, pa), dt in itertools.product(fs, SHAPES, (float, int)):
        def body():
            x = data(len(t), vs, pa, dt)
            p = process(t, x=x)
            s = np.asarray(fs[name])
            y = p(fs[name])
            rec.step()
            rec.check(y.shape == s.shape + vs + (pa,) and y.dtype == x.dtype
                      and type(y) is np.ndarray, 'shape or data-type')
            for i in np.ndindex(s.shape):
                agree(rec, y[i], t, x, s[i], 'linear', name)
            rec.state(tl, name, vs, pa, str(dt))
        rec.case(['form', tl, name, vs, pa, str(dt)], body)
    span = max(1., float(t[-1]) - float(t[0]))
    for (n1, n2), (vs, pa), dt in itertools.product(
            itertools.product(fs, ('float', 'list', '2d', 'col', 'zero',
                                   'negative', 'int')),
            SHAPES[::2], (float, complex, int)):
        s = np.asarray(fs[n1])
        d = {'float': .375*span, 'list': [.125*span, 0., -span],
             '2d': [[.5*span, -.25*span]], 'col': [[.5], [2*span]],
             'zero': 0., 'negative': -span/2, 'int': 1}[n2]
        try:
            shape = np.broadcast_shapes(s.shape, np.shape(d))
        except ValueError:
            continue

        def body():
            x = data(len(t), vs, pa, dt)
            p = process(t, x=x)
            y = p(fs[n1], d)
            rec.step()
            rec.check(y.shape == shape + vs + (pa,) and y.dtype == x.dtype,
                      lambda: 'increment: shape %s or data-type %s' % (
                          y.shape, y.dtype))
            sb = np.broadcast_to(s, shape)
            e = np.broadcast_to(s + np.asarray(d), shape)
            for i in np.ndindex(shape):
                want = p(e[i]) - p(sb[i])
                rec.same(y[i], want, 'increment', 0)
            rec.same(p(fs[n1], ds=d, kind='nearest'),
                     np.array([p(e[i], kind='nearest') - p(
                         sb[i], kind='nearest') for i in np.ndindex(shape)],
                         dtype=dt).reshape(shape + vs + (pa,)),
                     'increment with kind', 0)
            rec.state(tl, n1, n2, vs, pa, str(dt))
        rec.case(['increment', tl, n1, n2, vs, pa, str(dt)], body)


def u_rebase(rec, tl):
    t = TL[tl]
    fs = forms(t)
    fs.update({'tl ' + k: TL[k] for k in MAIN})
    fs['own'] = np.array(t)
    if tl.startswith('sub'):     # SciPy compares in single precision
        fs = {k: fs[k] for k in fs if k not in ('float32', 'tl f32')}
    for name, (vs, pa), dt, kind in itertools.product(
            fs, SHAPES[::2], (float, int, complex), (None, 'nearest',
                                                     'next')):
        s = np.asarray(fs[name])
        if s.ndim > 1 or s.size == 0:
            def refused():
                p = process(t, x=data(len(t), vs, pa, dt))
                rec.raises(lambda: p.rebase(fs[name]), 'rebase ' + name)
            rec.case(['rebase', tl, name, vs, pa, str(dt), kind], refused)
            continue

        def body():
            x = data(len(t), vs, pa, dt)
            p = process(t, x=x)
            q = p.rebase(fs[name]) if kind is None else \
                p.rebase(fs[name], kind=kind)
            rec.step()
            s1 = s.reshape(1) if s.ndim == 0 else s
            rec.check(type(q) is process and q.shape ==
                      s1.shape + vs + (pa,) and q.dtype == x.dtype,
                      'rebase: shape or data-type')
            rec.check(np.array_equal(q.t, s1) and q.t.dtype == s1.dtype,
                      'rebase: timeline')
            if not (tl in ('ulp', 'tiny', 'huge', 'close', 'f32') and kind):
                for i, a in enumerate(s1):
                    agree(rec, np.array(q[i]), t, x, a, kind or 'linear',
                          'rebase')
            if s.ndim == 0:
                rec.same(q(99.), np.array(q[0]), 'constant process', 0)
            rec.check(not np.shares_memory(q, x), 'rebase: shares values')
            if name == 'own' and tl != 'ulp':
                rec.same(np.array(q), x, 'rebase on itself', 0)
                rec.same(np.array(p + q), x + x, 'operating', 0)
            rec.same(np.array(p), x, 'original altered', 0)
            rec.state(tl, name, vs, pa, str(dt), kind)
        rec.case(['rebase', tl, name, vs, pa, str(dt), kind], body)


def piece_ref(t, x, s, mode):
    """value at s; forward and backward segments are closed on the right"""
    t = [float(a) for a in t]
    s = float(s)
    n = len(t)
    if mode == 'mid':
        return ref(t, x, s, 'nearest')
    if mode == 'forward':     # x[i] on (t[i], t[i+1]]
        k = sum(a < s for a in t)
        return x[max(k - 1, 0)]
    k = sum(a < s for a in t)     # backward: x[i] on (t[i-1], t[i]]
    return x[min(k, n - 1)]


def u_piece(rec, tl):
    t = TL[tl]
    if tl in ('ulp', 'tiny', 'huge', 'close'):
        return
    for mode, (vs, pa), dt, how in itertools.product(
            ('mid', 'forward', 'backward', None), SHAPES, DTYPES, 'xvd'):
        if how == 'v' and pa > 1:
            continue

        def body():
            x = data(len(t), vs, pa, dt)
            kw = {} if mode is None else dict(mode=mode)
            if how == 'v':
                p = piecewise(t, v=x[..., 0], **kw)
            elif how == 'd':
                p = piecewise(t, x=x.tolist(), dtype=dt, **kw)
            else:
                p = piecewise(t, x=x, **kw)
            rec.check(isinstance(p, process) and p.dtype == x.dtype and
                      p.vshape == vs and p.paths == pa, 'attributes')
            ss = times(t)
            a = p(np.array(ss))
            rec.check(a.dtype == x.dtype and a.shape ==
                      (len(ss),) + vs + (pa,), 'data-type or shape')
            for i, s in enumerate(ss):
                if any(0 < abs(float(s) - float(b)) < 1e-9*max(
                        1, abs(float(b))) for b in t):
                    continue
                rec.step()
                want = piece_ref(t, x, s, mode or 'mid')
                if want is not None:
                    w = np.asarray(want).astype(x.dtype)
                    rec.same(a[i], w, 'piecewise %s at %r' % (mode, s), 0)
                    rec.same(p(s), w, 'piecewise %s at %r' % (mode, s), 0)
            d = p(np.array(ss), .125) if dt is not bool else None
            if d is not None:
                rec.same(d, p(np.array(ss) + .125) - a, 'increments', 0)
            rec.same(x, data(len(t), vs, pa, dt), 'argument altered', 0)
            rec.state(tl, mode, vs, pa, str(dt), how)
        rec.case(['piecewise', tl, mode, vs, pa, str(dt), how], body)
    for bad in ('zzz', 'left', '', 'Forward', 3):
        rec.case(['piecewise', tl, bad], lambda: (
            rec.raises(lambda: piecewise(t, v=np.arange(len(t)), mode=bad),
                       'mode %r' % (bad,)),
            rec.raises(lambda: piecewise(t, v=np.arange(len(t) + 1)),
                       'shape'),
            rec.raises(lambda: piecewise(t), 'no values'),
            rec.raises(lambda: piecewise(t, v=np.arange(len(t)), x=np.ones(
                (len(t), 1))), 'x and v')))


def _long():
    k = np.arange(300.)
    out = {
        'units': np.arange(257), 'regular': np.arange(300)*.5,
        'tenths': np.arange(400)*.1, 'linspace': np.linspace(-3, 7, 129),
        'almost regular': np.arange(300)*.5 + (k == 170)*.2,
        'uneven': np.cumsum(.1 + k % 7*.3), 'powers': 2.**np.arange(-60, 60),
        'cluster': np.concatenate([k[:100]*1e-6, 1 + k[:100], 1e6 + k[:100]]),
        'late': 1e9 + k*.25, 'last gap': np.append(k, 1e7),
        'first gap': np.append(-1e7, k), 'squares': k**2,
        'f32': (np.arange(300)*.5).astype(np.float32),
        'thousand': np.arange(1000)*.25 - 100}
    return out


LONG = _long()


def u_long(rec, tl):
    """Long timelines: all points, and positions within each interval, in
    one array of any order, and one at a time."""
    t = LONG[tl]
    n = len(t)
    tf = t.astype(float)
    fr = np.array([0., .25, .75, .9])
    gaps = np.diff(tf)
    i0 = np.repeat(np.arange(n - 1), 4)
    f = np.tile(fr, n - 1)
    s = np.concatenate([tf[i0] + gaps[i0]*f, tf[-1:], tf[:1] - [5.],
                        tf[-1:] + [1e3]])
    i0 = np.concatenate([i0, [n - 2, 0, n - 2]])
    f = np.concatenate([f, [1., 0., 1.]])
    m = len(s)
    perms = {'sorted': np.arange(m), 'reversed': np.arange(m)[::-1],
             'scattered': np.arange(m)*(m - 1 if m % 2 else 7) % m,
             'odd even': np.concatenate([np.arange(m)[::2],
                                         np.arange(m)[1::2]]),
             'inward': np.array([k//2 if k % 2 == 0 else m - 1 - k//2
                                 for k in range(m)]),
             'block': np.roll(np.arange(m), m//3),
             'repeated': np.repeat(np.arange(m), 3)[::2],
             'swapped': np.concatenate([np.arange(m - 2), [m - 1, m - 2]])}

    def want_of(x, kind):
        if kind == 'linear':
            g = f.reshape((-1,) + (1,)*(x.ndim - 1))
            return x[i0]*(1 - g) + x[i0 + 1]*g
        k = {'previous': i0 + (f == 1), 'next': i0 + (f > 0),
             'nearest': i0 + (f > .5)}[kind]
        return x[k]

    def values(vs, pa):
        x = (np.arange(float(n*int(np.prod(vs))*pa))*7919 % 1009).reshape(
            (n,) + vs + (pa,)) - 300
        return x
    for (vs, pa), kind in itertools.product(
            (((), 1), ((2,), 3), ((12,), 40)),
            ('linear', 'previous', 'next', 'nearest')):
        x = values(vs, pa)
        tol = 1e-9 if kind == 'linear' and tl != 'f32' else \
            1e-5 if kind == 'linear' else 0
        if tl in ('late', 'cluster', 'powers') and kind == 'linear':
            tol = 1e-3 if tl == 'late' else 1e-6

        def whole(o):
            p = process(t, x=x)
            k = perms[o]
            w = want_of(x, kind)[k]
            got = p(s[k], kind=kind)
            rec.step(len(k))
            rec.state('long', tl, vs, pa, kind, o)
            rec.same(got, w, 'kind %s, %s times' % (kind, o), tol)
            two = k[:len(k)//2*2].reshape(2, -1)
            rec.same(p(s[two].T, kind=kind),
                     want_of(x, kind)[two.T], '2d argument', tol)
            if kind == 'linear':
                d = .375
                rec.same(p(s[k], d), p(s[k] + d) - got, 'increments', 0)
                dd = np.arange(m)[k] % 5 - 2.
                rec.same(p(s[k], dd), p(s[k] + dd) - got, 'increments', 0)
                q = p.rebase(s[k])
                rec.same(np.array(q), w, 'rebase', tol)
                rec.check(np.array_equal(q.t, s[k]), 'rebase')
            rec.same(np.array(p), x, 'altered', 0)
        for o in perms:
            rec.case(['long', tl, vs, pa, kind, o], lambda: whole(o))

        def one_by_one():
            p = process(t, x=x)
            w = want_of(x, kind)
            for k in range(m) if pa == 3 else range(0, m, 17):
                rec.step()
                rec.same(p(s[k], kind=kind), w[k],
                         'time %r, number %d' % (s[k], k), tol)
            rec.state('long', tl, vs, pa, kind)
        rec.case(['long', tl, vs, pa, kind, 'single'], one_by_one)

    def piece(mode):
        x = values((2,), 3)
        p = piecewise(t, x=x, mode=mode)
        w = {'mid': want_of(x, 'nearest'),
             # closed on the right
             'forward': x[np.clip(i0 + (f > 0) - 1 + (np.arange(m) == m - 1),
                                  0, n - 1)],
             'backward': x[np.minimum(i0 + (f > 0), n - 1)]}[mode]
        for o in perms:
            rec.step()
            rec.same(p(s[perms[o]]), w[perms[o]], 'piecewise ' + mode, 0)
        for k in range(0, m, 5):
            rec.same(p(s[k]), w[k], 'piecewise %s at %r' % (mode, s[k]), 0)
        rec.state('long piece', tl, mode)
    for mode in ('mid', 'forward', 'backward'):
        rec.case(['long', tl, mode], lambda: piece(mode))

    def very_many():
        x = values((2,), 1)
        p = process(t, x=x)
        k = np.arange(100000)*7919 % m
        rec.same(p(s[k]), p(s)[k], 'many times', 1e-12)
        rec.step(len(k))
    rec.case(['long', tl, 'many'], very_many)


def u_splines(rec):
    for tl in ('uneven', 'sevens', 'tenths', 'thirds', 'irr', 'five', 'f32',
               'far'):
        t = np.array(TL[tl])
        m = (float(t[0]) + float(t[-1]))/2
        sp = float(t[-1]) - float(t[0])
        for kind, deg in (('linear', 1), ('slinear', 1), ('quadratic', 2),
                          ('cubic', 3), (2, 2), (3, 3)):
            if len(t) < 5 and deg == 3 and tl != 'f32':
                continue

            def body():
                def poly(s, d):
                    u = (np.asarray(s, float) - m)/sp
                    c = np.array([[1., -2.], [.5, 3.]])
                    u = u.reshape(u.shape + (1, 1))
                    return sum((c + k)*u**k for k in range(d + 1))
                for d in range(deg + 2):
                    x = poly(t, d)
                    for dt in (float, complex):
                        y = x*(1 - 1j) if dt is complex else x
                        p = process(t, x=y)
                        ss = np.array([s for s in times(t)
                                       if t[0] <= s <= t[-1]])
                        want = poly(ss, d)
                        if dt is complex:
                            want = want*(1 - 1j)
                        got = p(ss, kind=kind)
                        rec.step()
                        if d <= deg:
                            rec.same(got, want, 'degree %d, kind %s' % (
                                d, kind), 1e-6 if tl == 'far' else 1e-8)
                        else:
                            rec.check(np.abs(got - want).max() > 1e-6,
                                      'kind %s is not what it says' % kind)
                        rec.same(p(t, kind=kind), y, 'own points', 0)
                        rec.same(p(np.array([t[0] - 1., t[-1] + 1.]),
                                   kind=kind), y[[0, -1]], 'outside', 0)
                rec.state(tl, kind)
            rec.case(['spline', tl, kind], body)


def u_special(rec):
    def inf():
        for n in (2, 3, 5):
            for i, v in itertools.product(range(n), (np.inf, -np.inf,
                                                     np.nan)):
                x = np.arange(2.*n).reshape(n, 2)
                x[i, 0] = v
                p = process(np.arange(n)*.7, x=x)
                rec.step()
                rec.same(p(p.t), x, 'own points, %s' % v, 0)
                rec.same(p([-1., 99.]), x[[0, -1]], 'outside, %s' % v, 0)
                for k in range(n):
                    rec.same(p(p.t[k]), x[k], 'own point, %s' % v, 0)
                s = p.t[:-1] + .35
                rec.same(p(s)[:, 1], 2*np.arange(n - 1) + 2., 'other path')
                rec.state('inf', n, i, str(v))
    rec.case(['inf'], inf)

    def big():
        x = np.array([[2**52 + 1], [3], [2**51 - 1]])
        for t in ([0., 1., 3.], [0, 1, 2], np.arange(3)*.7):
            p = process(t, x=x)
            rec.same(p(p.t), x, 'large integers', 0)
            rec.same(p(99.), x[-1], 'large integers', 0)
    rec.case(['big'], big)

    def infs():
        p = process([0., 1.], x=[[1., 2.], [3., 4.]])
        rec.same(p([-np.inf, np.inf]), p.x, 'infinite times', 0)
        c = process(c=3)
        rec.check(c(0.).dtype == np.asarray(3).dtype and c(5.).shape == (1,),
                  'constant')
        rec.same(c([1., 2.], 3.), [[0], [0]], 'constant increment', 0)
        b = process(c=True)
        rec.check(b([1., 2.]).dtype == bool and b([1., 2.]).all(),
                  'boolean constant')
        z = process(c=2 + 1j)
        rec.same(z([[1.]]), [[[2 + 1j]]], 'complex constant', 0)
        n = process(x=[[np.inf, np.nan]])
        rec.same(n([1., 2.]), [[np.inf, np.nan]]*2, 'constant inf', 0)
        rec.step(6)
    rec.case(['infs'], infs)

    def live():
        # values and timeline in use are those of the moment of the call
        p = process([0., 1.], x=[[1., 2.], [3., 4.]])
        p(.5)
        p.x[1] = 5.
        rec.same(p(1.), [5., 5.], 'values changed', 0)
        rec.same(p(.5), [3., 3.5], 'values changed', 0)
        p += 1
        rec.same(p(.5), [4., 4.5], 'values changed', 0)
        p.t[1] = 2.
        rec.same(p(1.), [4., 4.5], 'timeline changed', 0)
        p.t = np.array([0., 4.])
        rec.same(p(1.), [3., 3.75], 'timeline set', 0)
        rec.step(5)
    rec.case(['live'], live)
    rec.state('special')
