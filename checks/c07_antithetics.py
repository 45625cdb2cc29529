"""C07: antithetic sources."""
import itertools
import numpy as np
import sdepy
from mc.tape import TapeRNG, linear_map
from checks.c06_sources import (empty_unit, TDT, LONGTDT, corr_forms, expected_cov, lam_forms,
                                Tags, Tagged, bits, HUGE, huge_case)

PROPERTY = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = ('real antithetic sources run on a scripted generator for every '
             'elementary draw (impulse responses, tagged counts and jumps)')
LEVEL_NOTE = ('Gaussian law exact from all impulse responses, counts and jumps by '
              'attribution over all small count patterns; small shapes.'
              ' Plus large sizes (70000 paths) and intensities.')
RULE = ('a state is (source, configuration, count pattern); a trace is one source '
        'with all its impulse responses or one count pattern')


def units(tier, seed):
    for vs in ((), (1,), (2,), (3,), (2, 2), (3, 2), (4,)):
        yield dict(u='odd', vs=vs)
    yield dict(u='poisson')
    yield dict(u='cpoisson')
    yield dict(u='integration')
    yield dict(u='attrs')
    yield dict(u='huge')
    yield dict(u='empty')


def odd(rec, vs, half, kw, C, queries, cls, dtype):
    def fn(rng):
        src = cls(paths=2*half, vshape=vs, rng=rng, dtype=dtype, **kw)
        out = []
        for t, dt in queries:
            z = src(t, dt)
            rec.step()
            tb = np.broadcast(np.asarray(t), np.asarray(dt)).shape
            rec.check(z.shape == tb + vs + (2*half,), 'shape')
            rec.check(z.dtype == np.dtype(dtype or float), 'dtype')
            rec.check(np.array_equal(z[..., half:], -z[..., :half]),
                      'second half is not the mirror of the first')
            out.append(z[..., :half].ravel())
        return np.concatenate(out)
    b, A = linear_map(fn)
    tol = 1e-9 if dtype is None else 1e-5
    rec.same(b, 0*b, 'mean')
    want = expected_cov(queries, vs, half, C)
    sd = np.sqrt(np.diag(want))
    sd[sd == 0] = 1.
    rec.same(A @ A.T/np.outer(sd, sd), want/np.outer(sd, sd), 'covariance',
             tol)
    rec.same(fn(TapeRNG(normal=lambda s: np.ones(s))), A.sum(axis=1),
             'linearity', tol)


def run_unit(rec, u):
    if u['u'] == 'empty':
        return empty_unit(rec, ('odd_wiener_source', 'even_poisson_source',
                                'even_cpoisson_source'))
    if u['u'] == 'odd':
        vs = tuple(u['vs'])
        fs = corr_forms(vs[-1]) if vs else {'none': ({}, None)}
        for form, (kw, C) in fs.items():
            for q, half in itertools.product(TDT, (1, 2)):
                n = np.broadcast(*map(np.asarray, TDT[q])).size * \
                    int(np.prod(vs))*half
                if n > 30:
                    continue
                cls = (sdepy.odd_wiener_source, sdepy.odd_dw)[half % 2]
                dt = (None, np.float32)[len(q) % 5 == 0]
                rec.case(['odd', vs, form, q, half], lambda: (
                    odd(rec, vs, half, kw, C, [TDT[q]], cls, dt),
                    rec.state('o', vs, form, q, half)))
            for q, half in (('scalar', 60//int(np.prod(vs, dtype=int))),
                            ('many', 1), ('each', 1), ('grid', 1)):
                n = np.broadcast(*map(np.asarray, LONGTDT[q])).size * \
                    int(np.prod(vs))*half
                if n > 200 or vs and form not in ('none', 'matrix', 'rho',
                                                  'process'):
                    continue
                rec.case(['odd big', vs, form, q, half], lambda: odd(
                    rec, vs, half, kw, C, [LONGTDT[q]], sdepy.odd_dw, None))
            rec.case(['odd calls', vs, form], lambda: odd(
                rec, vs, 1, kw, C, [(0., 1.), (0., 1.), (1., -.5)],
                sdepy.odd_dw, None))
    else:
        globals()['u_' + u['u']](rec)


def u_huge(rec):
    for vs, half, q in HUGE:
        fs = corr_forms(vs[-1]) if vs else {'none': ({}, None)}
        for form in ('none', 'matrix', 'call', 'rho'):
            if form in fs:
                kw = fs[form][0]
                rec.case(['huge', vs, half, form], lambda: huge_case(
                    rec, sdepy.odd_dw, vs, 2*half, form, kw, q, True))

                def mirror():
                    z = sdepy.odd_dw(paths=2*half, vshape=vs,
                                     rng=np.random.default_rng(5), **kw)(*q)
                    rec.check(np.array_equal(z[..., half:], -z[..., :half]),
                              'second half is not the mirror of the first')
                rec.case(['huge mirror', vs, half, form], mirror)


def u_poisson(rec):
    def body(vshape, half, form, q, dtype, cls, big=None):
        lam, ref = lam_forms(vshape, half)[form]
        means = []

        def draw(L):
            ids = len(means) + 1 + np.arange(L.size).reshape(L.shape)
            means.extend(L.ravel())
            return ids
        kw = {} if dtype is None else dict(dtype=dtype)
        src = cls(paths=2*half, vshape=vshape, lam=lam,
                  rng=TapeRNG(poisson=draw), **kw)
        t, dt = big[q] if big else TDT[q]
        used = set()
        for rep in range(2):
            z = src(t, dt)
            rec.step()
            tb, db = np.broadcast_arrays(t, dt)
            rec.check(z.shape == tb.shape + vshape + (2*half,), 'shape')
            rec.check(np.array_equal(z[..., half:], z[..., :half]),
                      'second half is not equal to the first')
            if dtype is not None:
                rec.check(z.dtype == np.dtype(dtype), 'dtype')
            else:
                rec.check(z.dtype.kind in 'if', 'dtype')
            for i in np.ndindex(tb.shape):
                if db[i] == 0:
                    rec.same(z[i], 0*z[i], 'null interval')
                    continue
                if form == 'zero':
                    rec.same(z[i], 0*z[i], 'null intensity')
                    continue
                ids = (z[i][..., :half]*np.sign(db[i])).astype(int)
                rec.check((ids > 0).all() and
                          len(set(ids.ravel())) == ids.size and
                          used.isdisjoint(ids.ravel()), 'draw used twice')
                used.update(ids.ravel())
                want = np.broadcast_to(abs(db[i])*np.asarray(
                    ref(tb[i] + db[i]/2), float), vshape + (half,))
                rec.same(np.array([means[k - 1] for k in ids.ravel()]).reshape(
                    want.shape)/abs(db[i]), want/abs(db[i]), 'mean of counts')
        rec.state('p', vshape, half, form, q, str(dtype))
    n = 0
    for vs, half, form, q in itertools.product(
            ((), (1,), (2,), (2, 2)), (1, 2), lam_forms((), 1), TDT):
        n += 1
        dtype = (int, float, np.int32, None)[n % 4]
        cls = (sdepy.even_poisson_source, sdepy.even_dn)[n % 2]
        rec.case(['even poisson', vs, half, form, q, str(dtype)],
                 lambda: body(vs, half, form, q, dtype, cls))
    for (vs, half), form, q in itertools.product(
            (((), 300), ((20,), 7), ((2, 3), 5)), lam_forms((), 1), LONGTDT):
        rec.case(['even poisson big', vs, half, form, q], lambda: body(
            vs, half, form, q, int, sdepy.even_dn, LONGTDT))


def u_cpoisson(rec):
    def body(vshape, half, q, pattern, yk):
        tags = Tags()
        t, dt = TDT[q]
        tb, db = np.broadcast_arrays(t, dt)
        shape = vshape + (half,)
        pos = [0]

        def draw(L):
            n = [pattern[(pos[0] + k) % len(pattern)] for k in range(L.size)]
            pos[0] += L.size
            return np.array(n).reshape(L.shape)
        rng = TapeRNG(poisson=draw)
        y = Tagged(tags) if yk == 'tagged' else \
            (lambda t: Tagged(tags, t=float(t)))
        kw = {}
        if yk == 'dn':
            kw['dn'] = sdepy.poisson_source(paths=half, vshape=vshape,
                                            rng=rng)
        src = sdepy.even_dj(paths=2*half, vshape=vshape, rng=rng, y=y, **kw)
        z = src(t, dt)
        rec.step()
        rec.check(z.shape == tb.shape + vshape + (2*half,), 'shape')
        rec.check(np.array_equal(z[..., half:], z[..., :half]),
                  'second half is not equal to the first')
        used = set()
        seen = []
        for i in np.ndindex(tb.shape):
            for j in np.ndindex(shape):
                v = z[i][j]*np.sign(db[i])
                rec.check(v >= 0, 'sign')
                b = bits(v)
                seen.append(len(b))
                if db[i] == 0:
                    rec.check(len(b) == 0, 'jumps in a null interval')
                rec.check(used.isdisjoint(b), 'jump used twice')
                used |= b
                if yk == 'timed':
                    for c in b:
                        rec.same(tags.times[c], tb[i] + db[i]/2, 'time')
        if (db != 0).all():
            rec.check(sorted(seen) == sorted(
                pattern[k % len(pattern)] for k in range(len(seen))),
                'number of jumps')
        rec.check(all(s is rng for s in tags.states), 'generator')
        rec.state('c', vshape, half, q, pattern, yk)
    for (vs, half), q, yk in itertools.product(
            (((), 1), ((), 2), ((2,), 1), ((2,), 2)),
            ('scalar', 'neg', 'vecdt', 'zero'), ('tagged', 'timed', 'dn')):
        m = min(int(np.prod(vs + (half,)))*np.broadcast(
            *map(np.asarray, TDT[q])).size, 4)
        for pat in itertools.product((0, 1, 2), repeat=m):
            rec.case(['even cpoisson', vs, half, q, pat, yk],
                     lambda: body(vs, half, q, pat, yk))


def u_integration(rec):
    """Antithetic sources within integrations: mirrored noise on the second
    half of the paths."""
    def body(vshape, half, i0):
        tt = (0., .5, 2.)
        rng = np.random.default_rng(5)
        n = 2*half
        X = sdepy.wiener(paths=n, vshape=vshape, dw=sdepy.odd_dw, i0=i0,
                         rng=rng, mu=0., sigma=2.)(tt)
        x = X.view(np.ndarray)
        rec.same(x[..., half:], -x[..., :half], 'odd dw as a class')
        dn = sdepy.even_dn(paths=n, vshape=vshape, lam=2., rng=rng)
        dj = sdepy.dj(paths=n, vshape=vshape, dn=dn, rng=rng)
        J = sdepy.jumpdiff(paths=n, vshape=vshape, dj=dj, dw=sdepy.odd_dw,
                           rng=rng, i0=i0)
        J(tt)
        c = np.abs(J.info['jump_count'])
        rec.same(c[..., half:], c[..., :half], 'even dn in dj')
        Y = sdepy.jumpdiff(paths=n, vshape=vshape, dj=sdepy.even_dj, lam=3.,
                           sigma=0., mu=.5, rng=rng, i0=i0)(tt)
        y = Y.view(np.ndarray)
        rec.same(y[..., half:], y[..., :half], 'even dj as a class')
        rec.step(3)
        rec.state('i', vshape, half, i0)
    for vs, half, i0 in itertools.product(((), (2,), (2, 2)), (1, 2, 5),
                                          (0, 1, 2)):
        rec.case(['integration', vs, half, i0], lambda: body(vs, half, i0))


def u_attrs(rec):
    pairs = [(a, b, t) for a, b, t in (
        ('odd_wiener_source', 'odd_dw', None),
        ('even_poisson_source', 'even_dn', int),
        ('even_cpoisson_source', 'even_dj', None))]

    def body(name, vshape, paths, dtype):
        cls = getattr(sdepy, name)
        rng = np.random.default_rng(1)
        if paths % 2:
            rec.raises(lambda: cls(paths=paths, vshape=vshape, rng=rng),
                       'odd number of paths', ValueError)
            return
        s = cls(paths=paths, vshape=vshape, rng=rng, dtype=dtype)
        rec.check(s.paths == paths, 'paths %s' % s.paths)
        rec.check(s.vshape == ((vshape,) if isinstance(vshape, int)
                               else vshape), 'vshape')
        rec.check(s.dtype is dtype or s.dtype == dtype, 'dtype attribute')
        rec.check(s.rng is rng, 'rng attribute')
        # the source protocol: accepted by an integration of this size
        sdepy.wiener(paths=paths, vshape=vshape, dw=s)((0., 1.))
        rec.raises(lambda: sdepy.wiener(paths=paths + 2, vshape=vshape, dw=s),
                   'paths mismatch', ValueError)
        z = s(0., 1.)
        rec.check(z.shape[-1] == paths and z.dtype == np.dtype(dtype), 'dtype')
        rec.state('a', name, vshape, paths, str(dtype))
    for (a, b, t), vs, paths, dtype in itertools.product(
            pairs, ((), 2, (2,), (2, 3)), (1, 2, 3, 4, 5, 10),
            (float, np.float32, int)):
        if dtype is int and t is None:
            continue
        for name in (a, b):
            rec.case(['attrs', name, vs, paths, str(dtype)],
                     lambda: body(name, vs, paths, dtype))

    def default(name):
        cls = getattr(sdepy, name)
        s = cls(rng=np.random.default_rng(1), vshape=(2,))
        rec.check(s.paths == 2, 'default paths')
        rec.check(s(0, 1).shape == (2, 2), 'default shape')
    for a, b, t in pairs:
        rec.case(['default', a], lambda: default(a))
