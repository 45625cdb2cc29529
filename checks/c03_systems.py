"""C03: systems of SDEs, over all noise histories."""
import itertools
import numpy as np
from sdepy import SDEs, integrator, integrate, process, wiener_source
from mc.core import pick
from mc.em import ScriptedSource, histories, em, legs, tame

PROPERTY = 'C03'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of noise histories of real systems of '
             'SDEs, lockstep with a per-equation reference recursion')
LEVEL_NOTE = ('All noise histories over a 3-letter alphabet, up to 3 steps, q=1..3 '
              '(4 thorough), value shapes (), (1,), (2,), (2,3), both axis layouts, '
              'families of coefficients and initial conditions.'
              ' Plus long timelines, equal sizes of all axes, 12 equations.')
RULE = ('a state is (system, configuration, step, noise prefix); a trace is one '
        'integration compared with the reference on all equations and paths')

ALPHA = (-1., 0.5, 2.)
TL = {'a': ((0., 0.5, 2.), None), 'b': ((0., 1.), 3), 'c': ((1.,), None),
      'd': ((0., 0.5), None)}
LONG = {'near': (tuple(np.arange(150)/256 + (np.arange(150) % 3)/1024), None),
        'far': (tuple(1e5 + np.arange(100)/128), 201),
        'past': (tuple(-1000. + np.arange(90)/64),
                 tuple(-1000. + np.arange(77)/32 + 1/256))}
TL.update(LONG)


def coupled(q, lg):
    """coefficients of the q equations: (t, xs, a) -> list of dicts"""
    c = 1/16 if lg else 1.

    def f(t, xs, a):
        out = []
        for i in range(q):
            nxt = xs[(i + 1) % q]
            d = {'dt': c*(a*nxt - xs[i]/2 + i), 'dw': c*(1 + i + a*xs[i]/4)}
            if i == 1:
                d['dn'] = c*(.5 + tame(t))         # only one equation has jumps
            out.append(d)
        return out
    return f


def sparse(q, lg):
    """equations omitting sources, scalar coefficients, a lone constant"""
    c = 1/16 if lg else 1.

    def f(t, xs, a):
        out = []
        for i in range(q):
            d = {}
            if i != 0:
                d['dt'] = i*c
            if i != 1:
                d['dw'] = c*xs[i - 1]/2
            if i == 2:
                d['dn'] = c
            out.append(d)
        return out
    return f


KINDS = {'coupled': coupled, 'sparse': sparse}
SIG = {1: lambda f: (lambda t, x, a=.5: f(t, (x,), a)),
       2: lambda f: (lambda t, x, y, a=.5: f(t, (x, y), a)),
       3: lambda f: (lambda t, x, y, z, a=.5: f(t, (x, y, z), a)),
       4: lambda f: (lambda t, x, y, z, u, a=.5: f(t, (x, y, z, u), a))}
for _q in range(5, 13):
    _v = ', '.join('x%d' % k for k in range(_q))
    SIG[_q] = eval('lambda f: (lambda t, %s, a=.5: f(t, (%s), a))' % (_v, _v))


def build(kind, qq, lg, ax, how):
    f = SIG[qq](KINDS[kind](qq, lg))
    if how == 'deco':
        return integrate(q=qq, sources={'dt', 'dw', 'dn'}, log=lg,
                         addaxis=ax)(f)

    class P(SDEs, integrator):
        q = qq
        addaxis = ax
        log = lg
        sources = {'dt', 'dw', 'dn'}
        sde = staticmethod(f) if how == 'static' else None
    if how == 'tuple':
        P.sde = staticmethod(lambda *v, **k: tuple(f(*v, **k)))
        # keep the signature
        P.sde = staticmethod(
            {1: lambda t, x, a=.5: tuple(f(t, x, a)),
             2: lambda t, x, y, a=.5: tuple(f(t, x, y, a)),
             3: lambda t, x, y, z, a=.5: tuple(f(t, x, y, z, a)),
             4: lambda t, x, y, z, u, a=.5: tuple(f(t, x, y, z, u, a)),
             }[qq])
    return P


def wide(vshape, q, addaxis):
    return vshape + (q,) if addaxis or vshape == () else \
        vshape[:-1] + (vshape[-1]*q,)


def piece(v, i, vshape, q, addaxis):
    if addaxis or vshape == ():
        return v[..., i, :]
    n = vshape[-1]
    return v[..., i*n:(i + 1)*n, :]


def x0s(vshape, paths, q):
    full = 1 + np.arange(int(np.prod(vshape + (paths,))),
                         dtype=float).reshape(vshape + (paths,))/16
    return {
        'scalar': (2., [2.]*q),
        'default': (None, [1.]*q),
        'each': (tuple(1. + i for i in range(q)),
                 [1. + i for i in range(q)]),
        'eacharr': ([full[..., :1]*(i + 1) for i in range(q)],
                    [full[..., :1]*(i + 1) for i in range(q)]),
        'eachfull': (np.array([full*(i + 1) for i in range(q)]),
                     [full*(i + 1) for i in range(q)]),
    }


def run_case(rec, kind, q, lg, ax, how, tl, i0, vshape, x0k, pform,
             npaths=None):
    tt, steps = TL[tl]
    k = sum(len(o) - 1 for o, _ in legs(tt, i0, steps))
    long = k > 5
    k = min(k, 5)
    hd = np.array(histories(ALPHA, k)).reshape(len(ALPHA)**k, -1) if k else \
        np.zeros((1, 1))
    if npaths:      # as many paths as equations, or as components
        hd = hd[:npaths]
    paths = len(hd)
    wsh = wide(vshape, q, ax)
    dw = ScriptedSource(hd, wsh, scale=1/64 if long else 1.)
    dn = ScriptedSource((np.roll(hd, 1, axis=0)*2).round(), wsh,
                        scale=1/64, integer=not long)
    x0, x0r = x0s(vshape, paths, q)[x0k]
    av, ar = {'const': (.5, lambda t: .5),
              'call': (lambda t: .5 + tame(t)/4, lambda t: .5 + tame(t)/4),
              'proc': (process((-1., 3.), x=np.array(
                  [1., 3.]).reshape((2,) + (1,)*(len(vshape) + 1))),
                       lambda t: 1 + (min(max(t, -1), 3) + 1)/2)}[pform]
    kw = {} if x0 is None else dict(x0=x0)
    P = build(kind, q, lg, ax, how)(paths=paths, vshape=vshape, steps=steps,
                                    i0=i0, dw=dw, dn=dn, a=av, **kw)
    f = KINDS[kind](q, lg)
    start = np.array([np.broadcast_to(np.asarray(v, float), vshape + (paths,))
                      for v in x0r])
    if lg:
        start = np.log(start)

    def coef(s, X):
        ds = f(s, [X[i] for i in range(q)], np.asarray(ar(s)))
        return {id: np.array([np.broadcast_to(
            np.asarray(d.get(id, 0.), float), vshape + (paths,))
            for d in ds]) for id in ('dt', 'dw', 'dn')}

    def noise(id, j, s, ds):
        if id == 'dt':
            return ds
        v = (dw if id == 'dw' else dn).value(j, s, ds)
        return np.array([piece(v, i, vshape, q, ax) for i in range(q)])
    want, done = em(tt, i0, steps, start, coef, noise)
    want = np.array(want)
    if lg:
        want = np.exp(want)
    for rep in range(2):
        dw.reset(), dn.reset()
        R = P(tt)
        rec.trace()
        rec.step(len(done)*paths)
        rec.check(isinstance(R, tuple) and len(R) == q and
                  all(type(x) is process for x in R), 'result type')
        for i in range(q):
            rec.same(R[i].view(np.ndarray), want[:, i], 'equation %d' % i)
            rec.same(R[i].t, tt, 'timeline')
        rec.check(dw.calls == [d[:2] for d in done], 'dw calls')
    for h in hd[:0] if long else hd:
        for j in range(k + 1):
            rec.state(kind, q, lg, ax, tl, i0, vshape, x0k, pform,
                      tuple(h[:j]))
    # pack and unpack are inverse
    xs = tuple(R[i].view(np.ndarray)[0] for i in range(q))
    X = P.pack(xs)
    rec.check(X.shape == wsh + (paths,), 'packed shape')
    for a, b in zip(P.unpack(X), xs):
        rec.same(a, b, 'unpack(pack)')
    rec.same(P.pack(P.unpack(X)), X, 'pack(unpack)')
    for i in range(q):
        rec.same(piece(X, i, vshape, q, ax), xs[i], 'packed layout')
        # broadcasting of scalars and single-path values
        b = P.pack(tuple(3. if h == i else xs[h] for h in range(q)))
        rec.same(P.unpack(b)[i], np.full(vshape + (paths,), 3.), 'pack scalar')


def units(tier, seed):
    for kind in KINDS:
        for q in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            for ax in (False, True):
                yield dict(u='run', kind=kind, q=q, ax=ax)
        yield dict(u='long', kind=kind)
    yield dict(u='equal')
    yield dict(u='wide')
    yield dict(u='corr')
    yield dict(u='errors')
    yield dict(u='hooks')


def run_unit(rec, u):
    if u['u'] == 'run':
        kind, q, ax = u['kind'], u['q'], u['ax']
        n = 0
        for vshape, lg, (tl, i0) in itertools.product(
                ((), (1,), (2,), (2, 3), (3, 1)), (False, True),
                (('a', 0), ('a', 1), ('a', -1), ('b', 0), ('b', 1),
                 ('c', 0))):
            allx = ('scalar', 'default', 'each', 'eacharr', 'eachfull')
            pf = ('const', 'call', 'proc')
            cs = list(itertools.product(allx, pf))
            if rec.tier != 'thorough':
                cs = [(allx[(n + j) % 5], pf[(n + j) % 3]) for j in range(2)]
            for x0k, pform in cs:
                n += 1
                how = ('deco', 'static', 'tuple')[n % 3]
                if kind == 'coupled' and tl == 'b' and len(vshape) > 1:
                    continue
                rec.case([kind, q, lg, ax, how, tl, i0, vshape, x0k, pform],
                         lambda: run_case(rec, kind, q, lg, ax, how, tl, i0,
                                          vshape, x0k, pform))
    elif u['u'] == 'long':
        n = 0
        for tl, i0, vshape, ax in itertools.product(
                sorted(LONG), (0, 50, -1), ((), (4,), (3, 2)), (False, True)):
            n += 1
            q, lg = 1 + pick(n, 4), bool(pick(n + 100, 2))
            x0k = ('scalar', 'default', 'each', 'eacharr')[pick(n + 200, 4)]
            pform = ('const', 'call', 'proc')[pick(n + 300, 3)]
            rec.case(['long', tl, i0, vshape, ax, q, lg, x0k, pform],
                     lambda: run_case(rec, u['kind'], q, lg, ax, 'deco', tl,
                                      i0, vshape, x0k, pform))
    elif u['u'] == 'equal':
        # as many paths as equations or components, in all combinations
        n = 0
        for kind, q, a, b, paths, ax, lg in itertools.product(
                KINDS, (1, 2, 3, 4), (1, 2, 3), (1, 2, 3), (1, 2, 3),
                (False, True), (False, True)):
            for vshape in ((a, b), (a,), ()):
                n += 1
                if pick(n, 4) and not (rec.tier == 'thorough'):
                    continue
                x0k = ('scalar', 'default', 'each', 'eacharr',
                       'eachfull')[pick(n + 100, 5)]
                pform = ('const', 'call', 'proc')[pick(n + 200, 3)]
                tl, i0 = (('d', 0), ('d', 1), ('a', 1))[pick(n + 300, 3)]
                rec.case(['equal', kind, q, a, b, paths, ax, lg, vshape],
                         lambda: run_case(rec, kind, q, lg, ax, 'deco', tl,
                                          i0, vshape, x0k, pform, paths))
    elif u['u'] == 'wide':
        # many equations and components
        n = 0
        for kind, q, vshape, ax, lg in itertools.product(
                KINDS, (2, 3, 5, 7, 12), ((), (5,), (2, 7), (16,), (33,)),
                (False, True), (False, True)):
            if q < 5 and not (vshape and vshape[-1] > 4):
                continue
            n += 1
            x0k = ('scalar', 'default', 'each', 'eacharr',
                   'eachfull')[pick(n + 100, 5)]
            pform = ('const', 'call', 'proc')[pick(n + 200, 3)]
            tl, i0 = (('d', 0), ('d', 1), ('a', 1))[pick(n + 300, 3)]
            rec.case(['wide', kind, q, vshape, ax, lg], lambda: run_case(
                rec, kind, q, lg, ax, 'deco', tl, i0, vshape, x0k, pform, 3))
    elif u['u'] == 'corr':
        corr(rec)
    elif u['u'] == 'errors':
        errors(rec)
    else:
        hooks(rec)


def corr(rec):
    """Default sources: shape, correlation matrix and dispatch."""
    def body(vshape, q, ax, i0, form):
        wsh = wide(vshape, q, ax)
        m = wsh[-1]
        C = np.eye(m)
        for i in range(m):
            for j in range(m):
                if i != j:
                    C[i, j] = 0.9**abs(i - j)/2
        tt = (0., .5, 2.)
        P = integrate(q=q, sources={'dt', 'dw'}, addaxis=ax)(
            SIG[q](lambda t, xs, a: [{'dt': i, 'dw': 1 + i*a}
                                     for i in range(q)]))
        if form == 'corr':
            kw = dict(corr=C)
        elif form == 'callable':
            kw = dict(corr=lambda t: np.eye(m) + (C - np.eye(m))*t/4)
        elif form == 'rho':
            r = .5 if m == 2 else np.linspace(-.5, .5, m//2)
            kw = dict(rho=r)
            C = np.eye(m)
            for i in range(m//2):
                C[i, i + m//2] = C[i + m//2, i] = np.ravel(r)[i]
        else:
            kw = {}
            C = None
        p = P(paths=3, vshape=vshape, i0=i0, rng=np.random.default_rng(7),
              **kw)
        rec.check(p.sources['dw'].vshape == wsh, 'source shape %s' % (
            p.sources['dw'].vshape,))
        if form in ('corr', 'rho'):
            rec.same(p.sources['dw'].corr, C, 'correlation matrix')
            kw = dict(corr=C)
        ref = wiener_source(paths=3, vshape=wsh, rng=np.random.default_rng(7),
                            **kw)
        R = p(tt)
        start = np.ones((q,) + vshape + (3,))

        def noise(id, j, s, ds):
            if id == 'dt':
                return ds
            v = ref(s, ds)
            return np.array([piece(v, i, vshape, q, ax) for i in range(q)])
        sh = (q,) + (1,)*(len(vshape) + 1)
        w, done = em(tt, i0, None, start, lambda s, x: {
            'dt': np.arange(q).reshape(sh),
            'dw': 1 + .5*np.arange(q).reshape(sh)}, noise)
        w = np.array(w)
        rec.step(len(done))
        for i in range(q):
            rec.same(R[i], w[:, i], 'equation %d' % i)
        rec.state('corr', vshape, q, ax, i0, form)
    for vshape, q, ax, i0, form in itertools.product(
            ((), (1,), (2,), (3, 2)), (1, 2, 3), (False, True), (0, 1, 2),
            ('none', 'corr', 'callable', 'rho')):
        if form == 'rho' and wide(vshape, q, ax)[-1] % 2:
            continue
        rec.case(['corr', vshape, q, ax, i0, form],
                 lambda: body(vshape, q, ax, i0, form))


def errors(rec):
    tt = (0., 1.)

    def inst(ret, qq=2, **kw):
        class P(SDEs, integrator):
            q = qq

            def sde(self, t, x, y):
                return ret
        return P(**kw)(tt)
    bad = {
        'dict': {'dt': 1}, 'one': ({'dt': 1},), 'three': ({'dt': 1},)*3,
        'array': np.zeros(2), 'not dicts': (1., 2.), 'mixed': ({'dt': 1}, 2.),
        'unknown': ({'dt': 1}, {'dj': 1}), 'empty': (), 'none': None,
        'set': {1, 2},
    }
    for k, v in bad.items():
        for vs in ((), (2,)):
            rec.case([k, vs], lambda: rec.raises(
                lambda: inst(v, vshape=vs), 'sde returning %s' % k))
    # a system of unstated size has one equation
    def unstated(vs):
        class P(SDEs, integrator):
            def sde(self, t, x, a=3.):
                return {'dt': a*x},

        R = P(vshape=vs, x0=2.)((0., 1., 3.))
        rec.check(isinstance(R, (list, tuple)) and len(R) == 1,
                  'q not given: one process', type(R))
        w = np.array([2., 8., 56.]).reshape((3,) + (1,)*len(vs) + (1,))
        rec.same(np.array(R[0]), w + np.zeros((3,) + vs + (1,)), 'q not given: values')
    for vs in ((), (1,), (2,), (2, 3)):
        rec.case(['unstated', vs], lambda: unstated(vs))
    rec.case(['q=0'], lambda: rec.raises(
        lambda: inst(({'dt': 1},)*2, qq=0), 'q=0'))
    rec.case(['good'], lambda: rec.check(
        len(inst(({'dt': 1}, {}))) == 2, 'good'))
    rec.case(['list'], lambda: rec.check(
        len(inst([{'dt': 1}, {'dw': 1}])) == 2, 'list return'))
    # the number of initial values must match the equations or be one
    rec.case(['x0'], lambda: rec.raises(
        lambda: inst(({'dt': 1},)*2, x0=(1., 2., 3.)), 'three x0'))


def hooks(rec):
    tt = (0., .5, 2.)
    hd = np.array(histories(ALPHA, 2))
    n = len(hd)

    def body(vshape, ax, i0, lg):
        dw = ScriptedSource(hd, wide(vshape, 2, ax))

        class P(SDEs, integrator):
            q = 2
            addaxis = ax
            log = lg

            def init(self, t, out_X, x0=1., y0=2.):
                x, y = self.unpack(out_X)
                x[...] = x0
                y[...] = y0 + t

            def sde(self, t, x, y, a=.1):
                return {'dt': a*y}, {'dw': a, 'dt': x*a}

            def let(self, t, out_X, X):
                super().let(t, out_X, X)
                ox, oy = self.unpack(out_X)
                ox[...] = self.unpack(X)[0] + 1

            def result(self, tt, XX):
                x, y = super().result(tt, XX)
                return y, x
        R = P(paths=n, vshape=vshape, dw=dw, i0=i0, y0=4.)(tt)
        st = np.array([np.ones(vshape + (n,)),
                       np.full(vshape + (n,), 4. + tt[i0])])
        if lg:
            st = np.log(st)

        def coef(s, X):
            z = 0*X[0]
            return {'dt': np.array([.1*X[1], .1*X[0]]),
                    'dw': np.array([z, z + .1])}

        def noise(id, j, s, ds):
            return ds if id == 'dt' else np.array(
                [piece(dw.value(j, s, ds), i, vshape, 2, ax)
                 for i in range(2)])
        w, done = em(tt, i0, None, st, coef, noise)
        w = np.array(w)
        w[:, 0] += 1
        if lg:
            w = np.exp(w)
        rec.step(len(done))
        rec.same(R[0], w[:, 1], 'second equation')
        rec.same(R[1], w[:, 0], 'first equation')
        rec.state('hooks', vshape, ax, i0, lg)
    for vshape, ax, i0, lg in itertools.product(
            ((), (2,), (2, 3)), (False, True), (0, 1, 2), (False, True)):
        rec.case(['hooks', vshape, ax, i0, lg],
                 lambda: body(vshape, ax, i0, lg))
