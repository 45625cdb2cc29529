"""C02: Euler-Maruyama recursion of user SDEs, over all noise histories."""
import itertools
import numpy as np
import sdepy
from sdepy import SDE, SDEs, integrator, integrate, process
from mc.em import ScriptedSource, histories, em, legs, tame
from mc.core import shard, pick

PROPERTY = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of noise histories (noise tree as paths, '
             'and one by one) of the real integrator, lockstep with a '
             'reference recursion')
LEVEL_NOTE = ('All noise histories over a 3-letter alphabet up to 3-4 steps, for '
              'a family of SDEs x parameter forms x directions x steps x '
              'shapes; trusts the reference recursion in mc/em.py.'
              ' Plus timelines of hundreds of points and hundreds of paths; parameters changing between integrations; up to 26 sources.')
RULE = ('a state is (SDE, configuration, step, noise prefix of one path); a trace '
        'is one integration compared with the reference on all its paths')

ALPHA = (-1., 0.5, 2.)
TIMELINES = {'a': ((0., 0.5, 2.), None), 'b': ((0., 1.), 3),
             'c': ((-1., 0.25, 1.), (0., 0.5, 7.)), 'd': ((1.,), None),
             'e': ((0, 1, 3), None), 'f': ((0., 2.), 2)}

# many points, unevenly spaced; far from the origin, before or after it
LONG = {'near': (tuple(np.arange(200)/256 + (np.arange(200) % 3)/1024), None),
        'far': (tuple(1e5 + np.arange(150)/128), 301),
        'past': (tuple(-1000. + np.arange(120)/64),
                 tuple(-1000. + np.arange(77)/32 + 1/256)),
        'wide': (tuple(np.arange(-60, 120)**3/1e8), None)}
TIMELINES.update(LONG)


def nsteps(tt, i0, steps):
    return sum(len(o) - 1 for o, _ in legs(tt, i0, steps))


# ------------------------------------------------------------- SDE family
# each entry: (class factory, reference coefficients (t, x, a, b) -> dict,
#              log, source ids)

def f_linear(t, x, a=1., b=.5):
    return {'dt': a*x + b, 'dw': b + x*a}


def f_dwonly(t, x, a=1., b=.5):
    return {'dw': a + b*x*tame(t)}


def f_dtonly(t, x, a=1., b=.5):
    return {'dt': a*x*x/(8 + x*x/4) + b*tame(t)}


def f_none(t, x, a=1., b=.5):
    return {}


def f_three(t, x, a=1., b=.5):
    return {'dt': b - x/4, 'dw': a, 'dn': x/4 + b, 'dj': 0.5*a + 0*x}


def f_switch(t, x, a=1., b=.5):
    d = {'dt': a + 0*x}
    if t < 0.4:
        d['dw'] = b + x/2
    return d


def f_log(t, x, a=1., b=.5):
    return {'dt': a/32 - x/16, 'dw': b/64*(1 + x/4)}


FAMILY = {
    'linear': (f_linear, {'dt', 'dw'}, False),
    'dwonly': (f_dwonly, {'dw'}, False),
    'dtonly': (f_dtonly, {'dt'}, False),
    'none': (f_none, {'dt', 'dw'}, False),
    'three': (f_three, {'dt', 'dw', 'dn', 'dj'}, False),
    'switch': (f_switch, {'dt', 'dw'}, False),
    'log': (f_log, {'dt', 'dw'}, True),
}


def build(name, how):
    f, ids, lg = FAMILY[name]
    if how == 'class':
        class P(SDE, integrator):
            sources = ids
            log = lg

            def sde(self, t, x, a=1., b=.5):
                return f(t, x, a, b)
        return P
    if how == 'deco':
        return integrate(q=0, sources=ids, log=lg)(f)
    if how == 'infer':
        return integrate(f, log=lg)
    if how == 'static':
        return integrate(f, q=0, sources=tuple(sorted(ids)), log=lg)


# ------------------------------------------------------------- parameters
# name -> (value to pass, function t -> array in reference)

EPOCH = [0]


def params(vshape, paths, mod=None):
    full = np.arange(1, 1 + int(np.prod(vshape + (paths,))),
                     dtype=float).reshape(vshape + (paths,))/8
    if mod:
        full = full % mod
    ones = np.ones(vshape + (1,))
    col = full[..., :1]
    pt = (-1.5, 0.3, 2.5)
    pv = np.array([1., 2., -1.])

    def lin(t):
        return np.interp(t, pt, pv)
    shape = (3,) + vshape + (1,)
    pvals = pv.reshape((3,) + (1,)*len(vshape) + (1,))*(1 + col)
    e = EPOCH

    def now(f):
        # what a callable returns may change between integrations
        return lambda t: f(t)*(1 + e[0]/4)
    out = {
        'const': (0.75, lambda t: 0.75),
        'int': (2, lambda t: 2),
        'np': (np.float64(0.3), lambda t: 0.3),
        'full': (full, lambda t: full),
        'col': (col, lambda t: col),
        'list': (col.tolist(), lambda t: col),
        'call': (now(lambda t: 1 + tame(t)**2/4),
                 now(lambda t: 1 + tame(t)**2/4)),
        'calllist': (lambda t: (col*(1 + tame(t))*(1 + e[0]/4)).tolist(),
                     now(lambda t: col*(1 + tame(t)))),
        'callarr': (now(lambda s: full*(1 - tame(s)/8)),
                    now(lambda t: full*(1 - tame(t)/8))),
        # a callable that fails at t == 1, where test evaluations may occur
        'callpick': (lambda t: {0: 1.5}.get(t, 2.) if t != 1. or True else 0,
                     lambda t: 1.5 if t == 0 else 2.),
        'process': (process(pt, x=pvals), lambda t: lin(t)*(1 + col)),
        'cprocess': (process(c=col[..., 0]), lambda t: col),
        'pprocess': (process(pt, x=pvals[:, ..., :]*np.ones(paths)),
                     lambda t: lin(t)*(1 + col)*np.ones(paths)),
    }
    return out


def run_case(rec, fam, how, tlname, i0, vshape, pa, pb, x0k, dtype, single,
             maxk=4):
    tt, steps = TIMELINES[tlname]
    n = nsteps(tt, i0, steps)
    f, ids, lg = FAMILY[fam]
    k = min(n, maxk)
    H = {'dw': histories(ALPHA, k)}
    paths_all = len(H['dw'])
    hd = np.array(H['dw']).reshape(paths_all, -1) if k else \
        np.zeros((1, 1))
    # other sources: deterministic but distinct letters per path and step
    hn = (np.roll(hd, 1, axis=0)*2).round()
    hj = np.roll(hd, 2, axis=0) + 0.25
    sel = range(len(hd)) if not single else None
    groups = [list(range(len(hd)))] if not single else \
        [[p] for p in range(len(hd))]
    for g in groups:
        paths = len(g)
        src = {'dw': ScriptedSource(hd[g], vshape,
                                    scale=1. if maxk == 4 else 1/64),
               'dn': ScriptedSource(hn[g], vshape, integer=maxk == 4,
                                    scale=1/64),
               'dj': ScriptedSource(hj[g], vshape,
                                    scale=0.5 if maxk == 4 else 1/32)}
        par = params(vshape, paths, None if maxk == 4 else 1.625)
        (av, ar), (bv, br) = par[pa], par[pb]
        x0 = {'one': 1.5, 'int': 2, 'arr': 1 + par['col'][0],
              'full': 1 + par['full'][0],
              'list': (1 + par['col'][0]).tolist()}[x0k]
        kw = {i: src[i] for i in ids if i != 'dt'}
        cls = build(fam, how)
        P = cls(paths=paths, vshape=vshape, dtype=dtype, steps=steps, i0=i0,
                x0=x0, a=av, b=bv, **kw)
        shape = vshape + (paths,)
        x0r = np.broadcast_to(np.asarray(x0, dtype=float), shape)
        if lg:
            x0r = np.log(x0r)

        def coef(s, x):
            return f(s, x, np.asarray(ar(s)), np.asarray(br(s)))

        def noise(id, j, s, ds):
            return ds if id == 'dt' else src[id].value(j, s, ds)
        EPOCH[0] = 0
        wants = []
        for epoch in (0, 1):
            EPOCH[0] = epoch
            want, done = em(tt, i0, steps, x0r, coef, noise)
            want = np.array(want)
            wants.append(np.exp(want) if lg else want)
        # same results at each integration, unless parameters changed
        for rep, epoch in enumerate((0, 0, 1)):
            EPOCH[0] = epoch
            want = wants[epoch]
            for s in src.values():
                s.reset()
            arg = tt if rep == 1 else np.array(tt)
            X = P(arg)
            rec.trace(n=1)
            rec.step(len(done)*paths)
            rec.check(type(X) is process, 'type %s' % type(X))
            rec.same(X.view(np.ndarray), want, 'values (run %d)' % rep,
                     tol=1e-9 if dtype is None else 2e-4)
            rec.check(X.dtype == np.dtype(dtype if dtype else float),
                      'dtype %s' % X.dtype)
            rec.same(X.t, np.array(tt), 'timeline')
            rec.check(X.t.dtype == np.asarray(arg).dtype, 'timeline dtype')
            for id in ids - {'dt'}:
                c = src[id].calls
                rec.check(len(c) == len(done) and all(
                    abs(u[0]-v[0]) < 1e-12 and abs(u[1]-v[1]) < 1e-12
                    for u, v in zip(c, done)),
                    lambda: 'calls to %s: %s, expected %s' % (
                        id, c, [d[:2] for d in done]))
        for p in g:
            for j in range(k + 1 if maxk == 4 else 0):
                rec.state(fam, tlname, i0, vshape, pa, pb, x0k, str(dtype),
                          tuple(hd[p][:j]))


def units(tier, seed):
    for fam in FAMILY:
        for part in range(2):
            yield dict(u='forms', fam=fam, part=part)
    for fam in FAMILY:
        yield dict(u='long', fam=fam)
    yield dict(u='build')
    yield dict(u='hooks')
    yield dict(u='errors')
    yield dict(u='method')
    yield dict(u='defaults')
    yield dict(u='many')


def run_unit(rec, u):
    if u['u'] == 'forms':
        fam = u['fam']
        thorough = rec.tier == 'thorough'
        tls = [(t, i) for t, i in (('a', 0), ('a', 1), ('a', -1), ('b', 0),
                                   ('b', -1), ('c', 0), ('c', 1), ('d', 0),
                                   ('e', 0), ('e', -2), ('f', 0))]
        names = sorted(params((), 1))
        combos = []
        for (t, i), vs in itertools.product(tls, ((), (2,), (2, 2))):
            pairs = [(p, names[(k + 3) % len(names)])
                     for k, p in enumerate(names)]
            if not thorough:
                # every form for both parameters, spread over configurations
                off = (len(combos)*5) % len(pairs)
                pairs = [pairs[(off + q) % len(pairs)] for q in range(5)]
            else:
                pairs = list(itertools.product(names, names))[
                    (len(combos) % 3)::3]
            for pa, pb in pairs:
                combos.append((t, i, vs, pa, pb))
        combos = shard(combos, u['part'], 2)
        for q, (t, i, vs, pa, pb) in enumerate(combos):
            x0k = ('one', 'int', 'arr', 'full', 'list')[pick(q, 5)]
            dt = (None, None, np.float32)[pick(q + 1000, 3)]
            single = pick(q + 2000, 5) == 0 and vs == ()
            how = ('class', 'deco', 'static')[pick(q + 3000, 3)]
            rec.case([fam, how, t, i, vs, pa, pb, x0k, str(dt), single],
                     lambda: run_case(rec, fam, how, t, i, vs, pa, pb, x0k,
                                      dt, single))
        # each parameter form alone, on the plainest configuration
        for pa in names:
            for pos in (0, 1):
                c = (pa, 'const') if pos else ('const', pa)
                rec.case([fam, 'alone', c], lambda: run_case(
                    rec, fam, 'class', 'a', 0, (2,), c[0], c[1], 'one', None,
                    False))
    elif u['u'] == 'long':
        fam = u['fam']
        names = sorted(params((), 1))
        combos = [(t, i, vs) for t in sorted(LONG) for i in (0, -1, 100)
                  for vs in ((), (3,))]
        for q, (t, i, vs) in enumerate(combos):
            pa, pb = names[pick(q, len(names))], names[pick(q + 99, len(names))]
            big = pick(q + 50, 3) == 0
            rec.case(['long', t, i, vs, pa, pb, big], lambda: run_case(
                rec, fam, 'class', t, i, vs, pa, pb, 'arr', None, False,
                maxk=7 if big else 5))
    elif u['u'] == 'build':
        for fam in FAMILY:
            for how in ('class', 'deco', 'static', 'infer'):
                if how == 'infer' and fam in ('switch',):
                    continue
                if how == 'infer' and fam == 'none':
                    continue
                rec.case([fam, how], lambda: run_case(
                    rec, fam, how, 'a', 1, (), 'const', 'call', 'one', None,
                    False))
        rec.case(['inferred class'], lambda: inferred(rec))
    elif u['u'] == 'hooks':
        hooks(rec)
    elif u['u'] == 'errors':
        errors(rec)
    elif u['u'] == 'method':
        method(rec)
    elif u['u'] == 'many':
        many(rec)
    else:
        defaults(rec)


def many(rec):
    """Any number of sources and parameters, each with its own weight."""
    tt = (0., .5, 2., 3.)

    def body(n, vs, i0, lg, used, late):
        calls = []

        def source(k):
            def setup(self):
                def d(s, ds):
                    calls.append((k, s, ds))
                    return ds*(k + 1 + s)/64
                d.paths, d.vshape = self.paths, self.wshape
                return d
            return setup
        ids = ['d%s' % chr(97 + k) for k in range(n)]
        par = {'p%d' % k: (k + 2)/16 for k in range(n)}
        head = ', '.join('%s=%r' % (k, v if j % 2 else 0.)
                         for j, (k, v) in enumerate(par.items()))
        body = ', '.join('%r: p%d*(1 + 0*x)' % (ids[k], k)
                         for k in range(n) if k % used == 0)
        loc = {}
        exec('def sde(self, t, x, %s):\n    return {%s}' % (head, body), loc)
        ns = dict(sources=set(ids), log=lg, sde=loc['sde'])
        ns.update({'source_' + i: source(k) for k, i in enumerate(ids)})
        P = type('P', (SDE, integrator), ns)
        given = {k: v for j, (k, v) in enumerate(par.items()) if not j % 2}
        if late:
            given = {k: (lambda t, v=v: v) for k, v in given.items()}
        p = P(paths=2, vshape=vs, i0=i0, **given)
        want, done = em(tt, i0, None, np.zeros(vs + (2,)) if lg else
                        np.ones(vs + (2,)),
                        lambda s, x: {ids[k]: (k + 2)/16 for k in range(n)
                                      if k % used == 0},
                        lambda id, j, s, ds:
                        ds*(ids.index(id) + 1 + s)/64)
        want = np.exp(want) if lg else np.array(want)
        for rep in range(2):
            del calls[:]
            rec.same(np.array(p(tt)), want, 'values (%d sources)' % n)
            rec.step(len(done))
            for k in range(n):
                rec.check([c[1:] for c in calls if c[0] == k] ==
                          [d[:2] for d in done], 'calls to source %d' % k)
        rec.state('many', n, vs, i0, lg, used, late)
    for n, vs, i0, lg, used, late in itertools.product(
            (1, 5, 8, 13, 26), ((), (2,)), (0, 2, -1), (False, True), (1, 3),
            (False, True)):
        rec.case(['many', n, vs, i0, lg, used, late],
                 lambda: body(n, vs, i0, lg, used, late))


def inferred(rec):
    P = integrate(f_linear)
    rec.check(issubclass(P, SDE) and not issubclass(P, SDEs) and
              set(P.sources) == {'dt', 'dw'}, 'single equation')
    Q = integrate(lambda t=0., x=0.: ({'dt': 1, 'dn': 1},))
    rec.check(issubclass(Q, SDEs) and Q.q == 1 and
              set(Q.sources) == {'dt', 'dn'}, 'one equation system')
    R = integrate(q=2, sources={'dt', 'dw'}, addaxis=True)(
        lambda t, x, y: 1/0)
    rec.check(issubclass(R, SDEs) and R.q == 2 and R.addaxis is True and
              set(R.sources) == {'dt', 'dw'}, 'explicit: no test evaluation')
    S = integrate(f_linear, q=0)
    rec.check(issubclass(S, SDE), 'q only')
    S = integrate(f_linear, sources={'dw', 'dt'}, log=True)
    rec.check(S.log is True, 'log')
    rec.raises(lambda: integrate(f_linear, q=1), 'inconsistent q', TypeError)
    rec.raises(lambda: integrate(f_linear, sources={'dt'}),
               'inconsistent sources', TypeError)
    rec.raises(lambda: integrate(lambda t, x, y: ({}, {})),
               'failing test evaluation', TypeError)
    rec.raises(lambda: integrate(lambda t=0, x=0: ()), 'empty tuple')


def hooks(rec):
    tt = (0., 0.5, 2.)
    hd = np.array(histories(ALPHA, 2))
    n = len(hd)

    def run(name, fn):
        rec.case([name], fn)

    for i0 in (0, 1, 2):
        for vshape in ((), (2,)):
            def mk():
                return ScriptedSource(hd, vshape)

            def sub(body):
                return lambda: body(i0, vshape, mk())

            def h_init(i0, vshape, dw):
                class P(SDE, integrator):
                    def init(self, t, out_x, x0=1., shift=2.):
                        rec.check(t == tt[i0], 'init time %s' % t)
                        rec.check(isinstance(shift, np.ndarray), 'init args')
                        out_x[...] = x0*shift + t

                    def sde(self, t, x, a=1.):
                        return {'dt': a*x, 'dw': 1}
                X = P(paths=n, vshape=vshape, dw=dw, i0=i0, x0=3,
                      shift=[0.5])(tt)
                w, _ = em(tt, i0, None, np.full(vshape + (n,), 1.5 + tt[i0]),
                          lambda s, x: {'dt': x, 'dw': 1},
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds))
                rec.same(X, w, 'init hook')

            def h_let(i0, vshape, dw):
                class P(SDE, integrator):
                    def sde(self, t, x, a=1.):
                        return {'dt': a*x, 'dw': 1}

                    def let(self, t, out_x, x):
                        out_x[...] = 10*x + t
                X = P(paths=n, vshape=vshape, dw=dw, i0=i0)(tt)
                w, _ = em(tt, i0, None, np.ones(vshape + (n,)),
                          lambda s, x: {'dt': x, 'dw': 1},
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds))
                rec.same(X, [10*v + t for v, t in zip(w, tt)], 'let hook')

            def h_result(i0, vshape, dw):
                got = []

                class P(SDE, integrator):
                    log = True

                    def sde(self, t, x, a=.1):
                        return {'dt': a*x, 'dw': a}

                    def result(self, tt, xx):
                        got.append((tt, xx.copy()))
                        return 'res', xx + 1
                r = P(paths=n, vshape=vshape, dw=dw, i0=i0, x0=2.)(tt)
                w, _ = em(tt, i0, None, np.log(np.full(vshape + (n,), 2.)),
                          lambda s, x: {'dt': .1*x, 'dw': .1},
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds))
                rec.check(r[0] == 'res' and len(got) == 1, 'result hook')
                rec.same(r[1], np.exp(w) + 1, 'result hook values')
                rec.same(got[0][0], tt, 'result hook timeline')

            def h_shapes(i0, vshape, dw_):
                dw = ScriptedSource(hd, vshape + (3,))

                class P(SDE, integrator):
                    def more(self, m=3, what='x'):
                        self.seen = (m, what)

                    def shapes(self, vshape):
                        return vshape, vshape, vshape + (self.args['m'],)

                    def sde(self, t, x, a=1.):
                        return {'dt': a*x, 'dw': 1}

                    def let(self, t, out_x, x):
                        out_x[...] = x[..., 0, :] - x[..., 2, :]
                P_ = P(paths=n, vshape=vshape, dw=dw, i0=i0, what='y')
                rec.check(P_.seen == (3, 'y'), 'more hook')
                X = P_(tt)
                w, _ = em(tt, i0, None, np.ones(vshape + (3, n)),
                          lambda s, x: {'dt': x, 'dw': 1},
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds))
                w = np.array(w)
                rec.same(X, w[..., 0, :] - w[..., 2, :], 'shapes hook')

            def h_source(i0, vshape, dw):
                foo = ScriptedSource(hd[::-1], vshape)

                class P(SDE, integrator):
                    sources = {'dt', 'dw', 'foo'}

                    def source_foo(self, foo=None, boost=1.):
                        def z(s, ds):
                            return boost*foo(s, ds)
                        z.paths, z.vshape = foo.paths, foo.vshape
                        return z

                    def sde(self, t, x, a=1.):
                        return {'dt': a, 'foo': x, 'dw': 1}
                X = P(paths=n, vshape=vshape, dw=dw, foo=foo, boost=3.,
                      i0=i0)(tt)
                w, _ = em(tt, i0, None, np.ones(vshape + (n,)),
                          lambda s, x: {'dt': 1., 'dw': 1, 'foo': x},
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds) if d == 'dw' else
                          3*foo.value(j, s, ds))
                rec.same(X, w, 'custom source')

            def h_source_dt(i0, vshape, dw):
                class P(SDE, integrator):
                    def source_dt(self, speed=1.):
                        def z(s, ds):
                            return speed*ds
                        z.paths, z.vshape = self.paths, self.wshape
                        return z

                    def sde(self, t, x):
                        return {'dt': x, 'dw': 1}
                X = P(paths=n, vshape=vshape, dw=dw, speed=.5, i0=i0)(tt)
                w, _ = em(tt, i0, None, np.ones(vshape + (n,)),
                          lambda s, x: {'dt': x, 'dw': 1},
                          lambda d, j, s, ds: ds/2 if d == 'dt' else
                          dw.value(j, s, ds))
                rec.same(X, w, 'custom dt source')

            def h_args(i0, vshape, dw):
                # args may be accessed and modified by subclass methods
                class P(SDE, integrator):
                    def more(self, m=2.):
                        self.args['a'] = self.args['a']*m

                    def sde(self, t, x, a=1.):
                        return {'dt': a*x, 'dw': a}
                X = P(paths=n, vshape=vshape, dw=dw, i0=i0, a=.5, m=3.)(tt)
                w, _ = em(tt, i0, None, np.ones(vshape + (n,)),
                          lambda s, x: {'dt': 1.5*x, 'dw': 1.5},
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds))
                rec.same(X, w, 'args')

            def h_coef(i0, vshape, dw):
                # the sde sees the current time and values, and array params
                seen = []

                class P(SDE, integrator):
                    def sde(self, t, x, a=1., c=(2.,)):
                        seen.append((float(t), x.copy()))
                        rec.check(isinstance(a, np.ndarray) and
                                  isinstance(c, np.ndarray), 'array params')
                        rec.check(x.shape == vshape + (n,), 'x shape')
                        return {'dt': a*x, 'dw': c}
                X = P(paths=n, vshape=vshape, dw=dw, i0=i0, a=lambda t: 2)(tt)
                xs = []

                def coef(s, x):
                    xs.append((s, x))
                    return {'dt': 2*x, 'dw': 2.}
                w, _ = em(tt, i0, None, np.ones(vshape + (n,)), coef,
                          lambda d, j, s, ds: ds if d == 'dt' else
                          dw.value(j, s, ds))
                rec.same(X, w, 'coef')
                rec.check(len(seen) == len(xs) and all(
                    a == c and np.allclose(b, d) for (a, b), (c, d) in
                    zip(seen, xs)), 'sde evaluations')

            for f in (h_init, h_let, h_result, h_shapes, h_source,
                      h_source_dt, h_args, h_coef):
                run([f.__name__, i0, vshape], sub(f))


def errors(rec):
    tt = (0., 1.)

    def inst(sde=None, ids=('dt', 'dw'), base=(SDE, integrator), call=True,
             **kw):
        ns = dict(sources=set(ids))
        if sde is not None:
            ns['sde'] = sde
        cls = type('P', base, ns)
        P = cls(**kw)
        return P(tt) if call else P

    good = lambda self, t, x, a=1.: {'dt': a}          # noqa
    nodef = lambda self, t, x, a: {'dt': a}            # noqa
    cases = {
        'unknown parameter': lambda: inst(good, b=1.),
        'missing parameter': lambda: inst(nodef),
        'not a dict': lambda: inst(lambda self, t, x: [1.]),
        'not a dict 2': lambda: inst(lambda self, t, x: 1.),
        'tuple from SDE': lambda: inst(lambda self, t, x: ({'dt': 1.},)),
        'undeclared source': lambda: inst(lambda self, t, x: {'dj': 1.}),
        'undeclared source 2': lambda: inst(
            lambda self, t, x: {'dt': 1, 'dn': 1.}),
        'unknown source': lambda: inst(good, ids=('dt', 'zz')),
        'unknown method': lambda: inst(good, method='milstein'),
        'no integrator': lambda: inst(good, base=(SDE,)),
        'wrong order': lambda: inst(good, base=(integrator, SDE)),
        'incompatible defaults': lambda: inst(
            lambda self, t, x, x0=2.: {'dt': 1}),
        'incompatible defaults 2': lambda: inst(
            lambda self, t, x, corr=1: {'dt': 1}),
        'required vs default': lambda: inst(
            lambda self, t, x, x0: {'dt': 1}),
        'param shape': lambda: inst(good, a=np.ones((3, 5)), paths=2),
        'x0 shape': lambda: inst(good, x0=np.ones((3, 5)), paths=2),
    }
    for k, f in cases.items():
        rec.case([k], lambda: rec.raises(f, k))
    rec.case(['given'], lambda: rec.same(
        inst(nodef, a=2.), [[1.], [3.]], 'given required parameter'))
    rec.case(['consistent'], lambda: rec.same(
        inst(lambda self, t, x, x0=1.: {'dt': x0}, x0=3.), [[3.], [6.]],
        'repeated parameter with consistent default'))


def method(rec):
    """A custom integration method is used when, and only when, chosen."""
    def body(vshape, i0):
        tt = (0., 1., 3.)
        hd = np.array(histories(ALPHA, 2))
        dw = ScriptedSource(hd, vshape)

        class my(integrator):
            def half_next(self):
                iv = self.itervars
                sw, xw = iv['sw'], iv['xw']
                s, ds = sw[0], sw[1] - sw[0]
                A, dZ = self.A(s, xw[0]), self.dZ(s, ds)
                xw[1][...] = xw[0] + sum(A[k]*dZ[k] for k in A)/2

        class P(SDE, my):
            def sde(self, t, x, a=1.):
                return {'dt': x, 'dw': a}
        for m, q in (('half', .5), ('euler', 1.), (None, 1.)):
            dw.reset()
            kw = {} if m is None else dict(method=m)
            X = P(paths=len(hd), vshape=vshape, dw=dw, i0=i0, a=2., **kw)(tt)
            w, _ = em(tt, i0, None, np.ones(vshape + (len(hd),)),
                      lambda s, x: {'dt': x*q, 'dw': 2*q},
                      lambda d, j, s, ds: ds if d == 'dt' else
                      dw.value(j, s, ds))
            rec.same(X, w, 'method %s' % m)
    for vshape in ((), (2,)):
        for i0 in (0, 1, 2):
            rec.case(['method', vshape, i0], lambda: body(vshape, i0))

    # integrator used directly, with explicit A and dZ
    def direct(i0):
        class I(integrator):
            def begin(self):
                self.itervars['xw'][0][...] = 2.

            def store(self, i, k):
                self.itervars['xx'][i] = self.itervars['xw'][k]

            def A(self, t, x):
                return {'dt': x*t, 'dz': 1.}

            def dZ(self, t, dt):
                return {'dt': dt, 'dz': np.array([1., -1.])*dt, 'dy': 7.}
        tt = (0., 1., 3.)
        X = I(paths=2, **({} if i0 is None else {'i0': i0}))(tt)
        w, _ = em(tt, i0 or 0, None, np.full(2, 2.),
                  lambda s, x: {'dt': x*s, 'dz': 1.},
                  lambda d, j, s, ds: ds*(1. if d == 'dt' else
                                          np.array([1., -1.])))
        rec.same(X, w, 'direct integrator')
    for i0 in (0, 1, 2, -1, None):
        rec.case(['direct', i0], lambda: direct(i0))


def defaults(rec):
    """Parameter defaults of every kind found in signatures are honoured."""
    tt = (0., 1., 3.)
    dfl = {'scalar': (.5, .5), 'list': ([1., 2.], [1., 2.]),
           'tuple': ((1., 2.), (1., 2.)),
           'array': (np.array([1., 2.]), [1., 2.]),
           'callable': ((lambda t: t), None), 'none': (2, 2)}
    for name, (val, ref) in dfl.items():
        for how in ('class', 'deco'):
            def body():
                if how == 'class':
                    class P(SDE, integrator):
                        sources = {'dt'}

                        def sde(self, t, x, a=val):
                            return {'dt': a + 0*x}
                else:
                    P = integrate(q=0, sources={'dt'})(
                        lambda t, x, a=val: {'dt': a + 0*x})
                for rep in range(2):
                    X = P(paths=2, x0=0.)(tt)
                    w, _ = em(tt, 0, None, np.zeros(2), lambda s, x:
                              {'dt': np.asarray(s if ref is None else ref)},
                              lambda d, j, s, ds: ds)
                    rec.same(X, w, 'default %s' % name)
                # an explicit value overrides the default
                X = P(paths=2, x0=0., a=3.)(tt)
                rec.same(X, np.array([[0, 0], [3., 3.], [9., 9.]]),
                         'override')
            rec.case(['default', name, how], body)
