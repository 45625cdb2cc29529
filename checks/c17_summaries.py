"""C17: summaries across paths, values and time; time calculus; chf and cdf."""
import itertools
import warnings
from fractions import Fraction
import numpy as np
import sdepy
from sdepy import process

PROPERTY = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of summaries, arguments, data-types, shapes and value '
             'patterns on real processes, against plain array reductions and exact '
             'rational arithmetic')
LEVEL_NOTE = ('19 summaries on 45 shapes (up to 4 times, 2 values axes, 4 paths), 14 '
              'data-types, all out/dtype/ddof arguments; all integer processes shaped '
              '(2, 2), (3, 1) with values out of 5 (including extreme ones); all '
              'compositions of tdiff, tder, tint; chf and cdf on all forms of t and u.'
              ' Plus large sizes, all memory layouts, extreme integers, infinities and nans, near ties.')
RULE = ('a state is (summary, arguments, data-type, shape or value pattern); a trace is one '
        'process with one summary compared with the reference')

DTYPES = (float, np.float32, np.float16, int, np.int8, np.uint8, np.int16,
          np.uint16, np.int32, np.uint32, np.uint64, bool, complex,
          np.complex64)
NS = (1, 2, 4)
VS = ((), (1,), (2,), (2, 3), (2, 1))
PP = (1, 2, 4)
TIMES = {1: [3.], 2: [0., .5], 3: [-1., 0., 2.], 4: [0., .25, 1., 3.],
         5: [0., .25, 1., 3., 4.]}


def data(shape, dtype):
    k = np.arange(int(np.prod(shape))).reshape(shape)
    dt = np.dtype(dtype)
    if dt.kind == 'b':
        return k % 3 != 1
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        m = min(int(info.max), 2**40)
        v = [m, m - 1, 1, 0, m // 2, 7]
        if dt.kind == 'i':
            v += [-m, -3, -m + 2]
        return np.array([v[i % len(v)] for i in k.ravel()],
                        dt).reshape(shape)
    x = (k*7 % 11 - 4)*.75 + k*.125
    if dt.kind == 'c':
        x = x + 1j*((k*5) % 7 - 2)
    return x.astype(dt)


FUN = ('min', 'max', 'sum', 'mean', 'var', 'std')


def axis_of(letter, ndim):
    return {'p': (ndim - 1,), 't': (0,), 'v': tuple(range(1, ndim - 1))}[
        letter]


def plain(x, letter, fun, **kw):
    ax = axis_of(letter, x.ndim)
    return getattr(x, fun)(axis=ax, keepdims=letter != 'v', **kw)


def exact(x, letter, fun, ddof=0):
    """integers and booleans, by rational arithmetic"""
    ax = axis_of(letter, x.ndim)
    keep = [i for i in range(x.ndim) if i not in ax]
    y = np.transpose(x, keep + list(ax)).reshape(
        [x.shape[i] for i in keep] + [-1])
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        v = [Fraction(int(a)) for a in y[i]]
        n = len(v)
        m = sum(v)/n
        if fun in ('min', 'max'):
            r = (min if fun == 'min' else max)(v)
        elif fun == 'sum':
            r = sum(v)
        elif fun == 'mean':
            r = m
        else:
            if n - ddof <= 0:
                out[i] = None
                continue
            r = sum((a - m)**2 for a in v)/(n - ddof)
        out[i] = float(r)**.5 if fun == 'std' else r
    shape = tuple(1 if i in ax else n for i, n in enumerate(x.shape)) \
        if letter != 'v' else out.shape
    return out.reshape(shape)


def units(tier, seed):
    for i, dt in enumerate(DTYPES):
        yield dict(u='summary', k=i)
    for k in range(len(PATTERN_SHAPES) if tier == 'thorough' else 7):
        yield dict(u='patterns', k=k)
    yield dict(u='args')
    for k in range(len(BIG)):
        yield dict(u='big', k=k)
    yield dict(u='offset')
    yield dict(u='cumsum')
    yield dict(u='calculus')
    yield dict(u='chf')
    yield dict(u='cdf')


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['u_' + u['u']](rec, **{k: v for k, v in u.items()
                                             if k != 'u'})


def result(rec, q, p, letter, msg):
    rec.check(isinstance(q, process), msg + ': not a process')
    if letter == 'p':
        rec.check(q.paths == 1 and q.vshape == p.vshape and
                  np.array_equal(q.t, p.t), msg + ': shape or timeline')
    elif letter == 'v':
        rec.check(q.paths == p.paths and q.vshape == () and
                  np.array_equal(q.t, p.t), msg + ': shape or timeline')
    else:
        rec.check(q.paths == p.paths and q.vshape == p.vshape and
                  q.t.shape == (1,), msg + ': shape or timeline')


def close(rec, q, want, msg, tol=1e-12):
    got = np.array(q)
    rec.check(got.dtype == want.dtype, lambda: '%s: dtype %s, not %s' % (
        msg, got.dtype, want.dtype))
    if want.dtype.itemsize <= 4 and want.dtype.kind == 'f' or \
            want.dtype == np.complex64:
        tol = 2e-6 if want.dtype.itemsize > 2 else 2e-3
    rec.same(got, want, msg, tol)


def u_summary(rec, k):
    dt = DTYPES[k]
    for n, vs, pa in itertools.product(NS, VS, PP):
        x = data((n,) + vs + (pa,), dt)
        p = process(TIMES[n], x=x)
        for letter, fun in itertools.product('pvt', FUN):
            def body():
                name = letter + fun
                q = getattr(p, name)()
                rec.step()
                rec.state(str(dt), n, vs, pa, name)
                result(rec, q, p, letter, name)
                close(rec, q, plain(x, letter, fun), name)
                if np.dtype(dt).kind in 'biu':
                    e = exact(x, letter, fun)
                    got = np.array(q)
                    if fun in ('min', 'max', 'sum'):
                        rec.check(all(int(a) == b for a, b in zip(
                            got.ravel(), e.ravel())), name + ': not exact')
                    else:
                        rec.check(got.dtype == float, name + ': dtype')
                        rec.same(got/(1 + np.abs(e.astype(float))),
                                 e.astype(float)/(1 + np.abs(
                                     e.astype(float))), name + ': lossy',
                                 1e-12)
                rec.same(np.array(p), x, 'values altered', 0)
            rec.case([str(dt), n, vs, pa, letter + fun], body)


PATTERN_SHAPES = ((2, (), 2), (3, (), 1), (1, (), 3), (2, (2,), 1),
                  (1, (2,), 2), (1, (3,), 1), (1, (1, 2), 2),
                  # thorough tier
                  (3, (), 2), (2, (), 3), (2, (3,), 1), (1, (3,), 2),
                  (5, (), 1), (1, (), 5), (1, (5,), 1))


def u_patterns(rec, k):
    vals = [0, 1, -1, 127, -128]
    for n, vs, pa in PATTERN_SHAPES[k:k + 1]:
        shape = (n,) + vs + (pa,)
        for dt in (np.int8, int, float, bool):
            alpha = vals if dt is not bool else [0, 1]
            for pat in itertools.product(alpha, repeat=int(np.prod(shape))):
                def body():
                    x = np.array(pat).astype(dt).reshape(shape)
                    p = process(TIMES[n], x=x)
                    rec.state(shape, str(dt), pat)
                    for letter, fun in itertools.product('pvt', FUN):
                        rec.step()
                        q = getattr(p, letter + fun)()
                        e = exact(x, letter, fun).astype(float)
                        rec.same(np.array(q).astype(float), e,
                                 letter + fun, 1e-12)
                rec.case([shape, str(dt), pat], body)


BIG = [(300, (2,), 3), (3, (40, 5), 2), (2, (2,), 70000), (10, (2,)*6, 3),
       (1000, (), 2), (1, (300,), 300), (257, (1, 1, 3), 1), (20, (20,), 20)]


def layouts(x):
    yield 'C', x
    yield 'F', np.asfortranarray(x)
    yield 'negative', x[::-1, ..., ::-1].copy()[::-1, ..., ::-1]
    y = np.zeros(x.shape[:-1] + (2*x.shape[-1],), x.dtype)
    y[..., ::2] = x
    yield 'strided', y[..., ::2]
    y = x.copy()
    y.flags.writeable = False
    yield 'readonly', y
    yield 'swapped', x.astype(x.dtype.newbyteorder())


def u_big(rec, k):
    """Larger sizes, in all memory layouts."""
    n, vs, pa = BIG[k]
    t = np.cumsum(.25 + np.arange(n) % 5*.125)
    h = np.diff(t).reshape((n - 1,) + (1,)*(len(vs) + 1))
    for dt in (float, int, np.float32, bool, complex, np.int8):
        x0 = data((n,) + vs + (pa,), float)
        x = x0 % 5 > 2 if dt is bool else (x0 % 97 - 48).astype(dt)
        w = x.astype(complex if dt is complex else float)
        for lay, z in layouts(x):
            def body(letter, fun):
                name = letter + fun
                p = process(t, x=z)
                kw = {} if fun not in ('var', 'std') else dict(ddof=1)
                for kw in ({}, kw):
                    q = getattr(p, name)(**kw)
                    rec.step()
                    result(rec, q, p, letter, name)
                    # in double precision
                    want = plain(w, letter, fun, **kw)
                    rec.check(q.shape == want.shape, name + ': shape')
                    rec.same(np.array(q).astype(w.dtype)/(1 + abs(want)),
                             want/(1 + abs(want)), name, 1e-11 if dt is not
                             np.float32 else 1e-3)
                rec.same(np.array(p), x, 'values altered', 0)
                rec.state('big', k, str(dt), lay, name)
            for letter, fun in itertools.product('pvt', FUN):
                if dt is complex and fun in ('min', 'max'):
                    continue
                rec.case(['big', k, str(dt), lay, letter + fun],
                         lambda: body(letter, fun))

            def calculus():
                p = process(t, x=z)
                tol = 1e-9 if dt is not np.float32 else 1e-4
                rec.step(6)
                rec.same(np.array(p.tcumsum()).astype(w.dtype),
                         w.cumsum(axis=0), 'tcumsum', tol*100)
                want = np.zeros_like(w)
                for i in range(1, n):
                    want[i] = want[i - 1] + w[i - 1]*h[i - 1]
                rec.same(np.array(p.tint()), want, 'tint', tol*100)
                if n > 1:
                    for e, fwd in itertools.product((0, .5, 1, 2), (0, 1)):
                        q = p.tdiff(dt_exp=e, fwd=fwd)
                        rec.same(np.array(q), np.diff(w, axis=0)/h**e,
                                 'tdiff %s' % e, tol)
                        rec.check(np.array_equal(q.t, t[:-1] if fwd else
                                                 t[1:]), 'tdiff: timeline')
                    rec.same(np.array(p.tder()), np.diff(w, axis=0)/h,
                             'tder', tol)
                    rec.same(np.array(p.tint().tder()), w[:-1],
                             'tint then tder', tol*1e3)
                rec.same(np.array(p), x, 'values altered', 0)
                rec.state('big calculus', k, str(dt), lay)
            rec.case(['big', k, str(dt), lay, 'calculus'], calculus)

            def functions():
                p = process(t, x=z)
                us = np.arange(-20., 20)*.3 if x.size < 1e4 else \
                    np.array([-2., .1, 3.])
                m = max(1, int(2e7/(len(us)*x[0].size)))
                tt = t[:m]
                f = p.cdf(tt, us)
                g = p.chf(tt, us)
                y = w[:len(tt)].real
                for j, u in enumerate(us):
                    rec.step(2)
                    rec.same(f[:, j], (y <= u).sum(-1)/pa, 'cdf', 1e-12)
                    rec.same(g[:, j], np.exp(1j*u*y).sum(-1)/pa, 'chf',
                             1e-9 if dt is not np.float32 else 1e-4)
                rec.state('big functions', k, str(dt), lay)
            if dt is not complex and lay in ('C', 'strided', 'F'):
                rec.case(['big', k, str(dt), lay, 'functions'], functions)


def u_offset(rec):
    """Small deviations of large values: to machine precision."""
    for base, unit, pat in itertools.product(
            (1e8, -1e12, 2.**52, 1e15), (1., 2.),
            itertools.product((0, 1, 3), repeat=4)):
        def body():
            for shape, letter in (((1, 4), 'p'), ((4, 1), 't'),
                                  ((1, 4, 1), 'v'), ((1, 2, 2, 1), 'v')):
                x = (base + unit*np.array(pat)).reshape(shape)
                d = [Fraction(float(v)) for v in x.ravel()]
                p = process(TIMES[shape[0]], x=x)
                m = sum(d)/4
                v = sum((a - m)**2 for a in d)
                rec.step()
                for ddof in (0, 1):
                    rec.same(float(np.array(getattr(p, letter + 'var')(
                        ddof=ddof)).ravel()[0]), float(v/(4 - ddof)), 'var',
                        max(1e-12, 8*(abs(base)*2e-16/unit)**2))
                    rec.same(float(np.array(getattr(p, letter + 'std')(
                        ddof=ddof)).ravel()[0]), float(v/(4 - ddof))**.5,
                        'std', max(1e-12, 4*abs(base)*2e-16/unit))
                rec.same(float(np.array(getattr(p, letter + 'mean')())
                               .ravel()[0]), float(m), 'mean', 1e-15)
            rec.state('offset', base, unit, pat)
        rec.case(['offset', base, unit, pat], body)


def u_args(rec):
    for dt, n, vs, pa in itertools.product(
            (float, np.float32, int, np.int8, bool, complex), (1, 3),
            ((), (2,), (2, 3)), (1, 3)):
        x = data((n,) + vs + (pa,), dt)
        p = process(TIMES[n], x=x)
        for letter, fun in itertools.product('pvt', FUN):
            name = letter + fun
            kws = [{}]
            if fun not in ('min', 'max'):
                kws += [dict(dtype=d) for d in (float, np.float32, complex,
                                                int, np.int8)]
            if fun in ('var', 'std'):
                kws += [dict(ddof=d) for d in (0, 1, 2)]
                kws += [dict(ddof=1, dtype=np.float32)]

            def body(kw, out):
                try:
                    want = plain(x, letter, fun, **kw)
                except Exception:
                    rec.raises(lambda: getattr(p, name)(**kw), name)
                    return
                kw = dict(kw)
                if out:
                    o = np.zeros(want.shape, want.dtype)
                    kw['out'] = o if out == 'array' else process(
                        TIMES[n] if letter != 't' else 0., x=o)
                q = getattr(p, name)(**kw)
                rec.step()
                rec.state(str(dt), n, vs, pa, name, repr(sorted(
                    map(str, kw))), out)
                result(rec, q, p, letter, name)
                close(rec, q, want, '%s %s' % (name, sorted(kw)))
                if out:
                    rec.same(o, np.array(q), name + ': out', 0)
                    rec.check(np.shares_memory(q, o), name + ': out')
                rec.same(np.array(p), x, 'values altered', 0)
            for i, kw in enumerate(kws):
                for out in ('', 'array', 'process'):
                    if out == 'process' and letter == 'v' and \
                            fun in ('var', 'std', 'mean'):
                        pass
                    rec.case([str(dt), n, vs, pa, name, i, out],
                             lambda: body(kw, out))


def u_cumsum(rec):
    for dt, n, vs, pa in itertools.product(DTYPES, (1, 2, 4), VS, (1, 3)):
        def body():
            x = data((n,) + vs + (pa,), dt)
            p = process(TIMES[n], x=x)
            for kw in ({}, dict(dtype=float), dict(dtype=complex)):
                q = p.tcumsum(**kw)
                rec.step()
                rec.check(isinstance(q, process) and
                          np.array_equal(q.t, p.t), 'tcumsum')
                want = x.cumsum(axis=0, **kw)
                close(rec, q, want, 'tcumsum')
                o = np.zeros_like(want)
                q = p.tcumsum(out=o, **kw)
                rec.same(o, want, 'tcumsum out', 0)
                rec.check(np.shares_memory(q, o), 'tcumsum out')
            if np.dtype(dt).kind in 'biu':
                e = np.array([sum(int(a) for a in x[:j + 1].reshape(
                    j + 1, -1)[:, c]) for j in range(n) for c in range(
                        x[0].size)], dtype=object)
                rec.check(all(int(a) == b for a, b in zip(
                    np.array(p.tcumsum()).ravel(), e)), 'tcumsum: not exact')
            rec.same(np.array(p), x, 'values altered', 0)
            rec.state(str(dt), n, vs, pa)
        rec.case(['cumsum', str(dt), n, vs, pa], body)


CT = {1: ([3.], [2]), 2: ([0., .5], [0, 3], [-1., 7.]),
      3: ([-1., 0., 2.], [0, 1, 5], [0., .1, .3]),
      5: ([0., .25, 1., 3., 3.5], [0, 1, 2, 4, 8],
          np.array([0, 1, 2, 4, 8], np.float32))}


def u_calculus(rec):
    for tdt, dt, vs in itertools.product(
            (np.int8, np.uint8, np.int16, int),
            (np.int8, np.uint8, np.int16, np.int64), ((), (2,))):
        def small():
            # values and times of small integer types: exact results
            t = np.array([0, 1, 3, 30, 31, 90], tdt)
            m = min(np.iinfo(dt).max, 30000)
            x = np.array([m, 1, m - 1, m, 0, m//2], dt).reshape(
                (6,) + (1,)*len(vs) + (1,)) + np.zeros(vs + (3,), dt)
            p = process(t, x=x)
            rec.state('small', np.dtype(tdt).name, np.dtype(dt).name, vs)
            w = [0]
            for i in range(5):
                w.append(w[-1] + int(x[i].flat[0])*(int(t[i + 1]) -
                                                    int(t[i])))
            q = np.array(p.tint())
            rec.check(all((q[i] == w[i]).all() for i in range(6)),
                      lambda: 'tint: %r instead of %r' % (q[:, ..., 0], w))
            d = np.array(p.tder())
            h = np.diff(t.astype(float))
            for i in range(5):
                rec.check((d[i] == (int(x[i + 1].flat[0]) -
                                    int(x[i].flat[0]))/h[i]).all(),
                          'tder of integers')
        rec.case(['calculus', 'small', np.dtype(tdt).name,
                  np.dtype(dt).name, vs], small)
    for n, vs, pa, dt in itertools.product(
            CT, ((), (2,), (2, 1)), (1, 3),
            (float, np.float32, int, np.int8, np.int32, complex)):
        for ti, t in enumerate(CT[n]):
            def body():
                t_ = np.asarray(t, float)
                tol = 1e-9 if dt is not np.float32 and not isinstance(
                    t, np.ndarray) else 1e-5
                x = (data((n,) + vs + (pa,), float)*2).astype(dt)
                w = x.astype(complex if dt is complex else float)
                p = process(t, x=x)
                h = np.diff(t_).reshape((n - 1,) + (1,)*(x.ndim - 1))
                rec.state(n, vs, pa, str(dt), ti)
                for e, fwd in itertools.product((0, 1, .5, 2, -1, 0., 1.),
                                                (True, False, 1, 0)):
                    if n == 1:
                        continue
                    q = p.tdiff(dt_exp=e, fwd=fwd)
                    rec.step()
                    rec.check(isinstance(q, process) and np.array_equal(
                        q.t, np.asarray(t)[:-1] if fwd else
                        np.asarray(t)[1:]), 'tdiff: timeline')
                    rec.same(np.array(q), np.diff(w, axis=0)/h**e,
                             'tdiff %s' % e, tol)
                    rec.check(e or x.dtype.kind not in 'fc' or
                              q.dtype == x.dtype, 'tdiff: dtype')
                if n > 1:
                    rec.same(np.array(p.tdiff()), np.diff(w, axis=0),
                             'tdiff', tol)
                    rec.check(np.array_equal(p.tdiff().t,
                                             np.asarray(t)[:-1]), 'tdiff')
                    rec.same(np.array(p.tder()), np.diff(w, axis=0)/h,
                             'tder', tol)
                    rec.check(np.array_equal(p.tder().t,
                                             np.asarray(t)[:-1]), 'tder')
                q = p.tint()
                rec.check(isinstance(q, process) and np.array_equal(
                    q.t, np.asarray(t)), 'tint: timeline')
                rec.check(q.shape == p.shape, 'tint: shape')
                want = np.zeros_like(w)
                for i in range(1, n):
                    want[i] = want[i - 1] + w[i - 1]*h[i - 1]
                rec.same(np.array(q), want, 'tint', tol)
                if n > 1:
                    rec.same(np.array(q.tder()), w[:-1], 'tint then tder',
                             10*tol)
                if n > 2:
                    rec.same(np.array(p.tder().tint()), (w - w[0])[:-1],
                             'tder then tint', 10*tol)
                if n > 1:
                    b = p.tdiff(fwd=False)
                    rec.same(np.array(b.tcumsum()), (w - w[0])[1:],
                             'tdiff then tcumsum', 10*tol)
                rec.same(np.array(p), x, 'values altered', 0)
                rec.check(np.array_equal(p.t, np.asarray(t)), 't altered')
            rec.case(['calculus', n, vs, pa, str(dt), ti], body)

    def flags():
        # boolean processes
        for bits in itertools.product((True, False), repeat=3):
            p = process([0., .5, 2.], x=np.array(bits)[:, None])
            rec.step()
            rec.same(np.array(p.tint()).astype(float)[:, 0],
                     [0., .5*bits[0], .5*bits[0] + 1.5*bits[1]],
                     'tint of booleans')
    rec.case(['booleans'], flags)

    def infinite():
        # infinite or missing values alter what depends on them only
        t = np.array([0., .5, 2., 3.])
        h = np.diff(t)
        for i, v in itertools.product(range(4), (np.inf, -np.inf, np.nan)):
            w = np.array([[1., -2.], [3., .5], [-1., 4.], [2., 6.]])
            w[i, 1] = v
            p = process(t, x=w)
            rec.step(4)
            want = np.zeros((4, 2))
            for j in range(3):
                want[j + 1] = want[j] + w[j]*h[j]
            rec.same(np.array(p.tint()), want, 'tint with %s' % v)
            rec.same(np.array(p.tdiff()), np.diff(w, axis=0),
                     'tdiff with %s' % v)
            rec.same(np.array(p.tder()), np.diff(w, axis=0)/h[:, None],
                     'tder with %s' % v)
            rec.same(np.array(p.tcumsum()), np.cumsum(w, axis=0),
                     'tcumsum with %s' % v)
            f = p.chf(.5)
            want = np.exp(.5j*w).mean(axis=-1)
            rec.same(f, want, 'chf with %s' % v)
            rec.same(p.cdf(1.), (w <= 1.).mean(axis=-1), 'cdf with %s' % v)
            z = w[:, :, np.newaxis]
            r = process(t, x=z)
            for name in ('min', 'max', 'sum', 'mean', 'var', 'std'):
                rec.step(3)
                a = getattr(np, name)
                rec.same(np.array(getattr(p, 'p' + name)()),
                         a(w, axis=-1, keepdims=True), 'p%s, %s' % (name, v))
                rec.same(np.array(getattr(r, 'v' + name)()),
                         a(w, axis=-1, keepdims=True), 'v%s, %s' % (name, v))
                rec.same(np.array(getattr(p, 't' + name)()),
                         a(w, axis=0, keepdims=True), 't%s, %s' % (name, v))
            rec.state('inf', i, str(v))
    rec.case(['infinite'], infinite)


TF = {'none': None, 'scalar': .3, '0d': np.array(1.), 'list': [0., .4, 9.],
      '2d': [[-1., .1], [.5, 2.]], '1': [.75], 'own': 'own', 'int': 1}
UF = {'scalar': .7, '0d': np.array(-2.), 'list': [0., 1., -.5],
      '2d': [[.5, 1.], [2., 0.]], '1': [3.], 'int': 2,
      'ints': [0, -1], 'inf': [-99., 99.]}


def loops(rec, what):
    for n, vs, pa, dt in itertools.product(
            (1, 3), ((), (2,), (2, 3)), (1, 3), (float, int, np.float32,
                                                bool)):
        x = data((n,) + vs + (pa,), float).astype(dt)
        if dt is bool:
            x = data((n,) + vs + (pa,), bool)
        p = process(TIMES[n], x=x)
        for tf, uf in itertools.product(TF, UF):
            def body():
                t = TF[tf] if tf != 'own' else p.t
                u = UF[uf]
                f = getattr(p, what)
                name = 'u' if what == 'chf' else 'x'
                calls = [lambda: f(t, u), lambda: f(t=t, **{name: u})]
                if t is None:
                    calls += [lambda: f(u), lambda: f(**{name: u})]
                ts = p.t if t is None else np.asarray(t)
                us = np.asarray(u)
                y = x if t is None else p(ts)
                want = np.empty(ts.shape + us.shape + vs, complex)
                for i in np.ndindex(ts.shape):
                    for j in np.ndindex(us.shape):
                        for k in np.ndindex(vs):
                            z = y[i][k].astype(float)
                            if what == 'chf':
                                a = float(us[j])*z
                                want[i + j + k] = (
                                    np.cos(a) + 1j*np.sin(a)).sum()/pa
                            else:
                                want[i + j + k] = sum(
                                    1 for b in z if b <= us[j])/pa
                for c in calls:
                    got = c()
                    rec.step()
                    rec.check(got.shape == want.shape,
                              lambda: 'shape %s, not %s' % (
                                  got.shape, want.shape))
                    rec.same(got, want, what, 1e-9 if dt is not np.float32
                             else 1e-4)
                    if what == 'cdf':
                        rec.check(got.dtype.kind == 'f', 'dtype')
                rec.same(np.array(p), x, 'values altered', 0)
                rec.state(what, n, vs, pa, str(dt), tf, uf)
            rec.case([what, n, vs, pa, str(dt), tf, uf], body)
    p = process([0., 1.], x=[[1., 2.], [3., 4.]])
    rec.case([what, 'missing'], lambda: rec.raises(
        lambda: getattr(p, what)(), 'missing argument', TypeError))
    rec.case([what, 'missing u'], lambda: rec.raises(
        lambda: getattr(p, what)(None, None), 'missing argument'))


def u_chf(rec):
    loops(rec, 'chf')


def u_cdf(rec):
    loops(rec, 'cdf')

    def ties():
        for pat in itertools.product((0., 1., 2.), repeat=4):
            p = process([0., 1.], x=np.array(pat).reshape(2, 2))
            for v in (-1., 0., .5, 1., 1.5, 2., 3.):
                rec.step()
                rec.same(p.cdf(v), [(pat[0] <= v)*.5 + (pat[1] <= v)*.5,
                                    (pat[2] <= v)*.5 + (pat[3] <= v)*.5],
                         'cdf')
            rec.state('cdf', pat)
    rec.case(['ties'], ties)

    def near():
        # values next to each other: no tolerance applies
        for b in (0., 1., -1., 1e-3, 1e6, -1e6, 3e300, 1e-300):
            v = [b]
            for _ in range(2):
                v = [np.nextafter(v[0], -np.inf)] + v + [
                    np.nextafter(v[-1], np.inf)]
            v += [b*(1 - 1e-9), b*(1 + 1e-9), b + 1e-9, b - 1e-9, b + 1e-13]
            v = np.array(v)
            for z in itertools.permutations(range(len(v)), 2):
                x = v[list(z)]
                p = process([0., 1.], x=np.array([x, x[::-1]]))
                q = process(c=x[0])
                for form in (lambda p: p.cdf(v),
                             lambda p: p.cdf(p.t, v)):
                    rec.step()
                    rec.same(form(p)[0], ((x[0] <= v)*.5 +
                                          (x[1] <= v)*.5), 'near', 0)
                    rec.same(form(q)[0], (x[0] <= v)*1., 'near const', 0)
            rec.state('near', b)
    rec.case(['near'], near)
