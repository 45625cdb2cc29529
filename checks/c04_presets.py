"""C04: every preset process against the recursion of its documented SDE."""
import inspect
import itertools
import numpy as np
import sdepy
from checks.c06_sources import EMPTY
from sdepy import process
from sdepy import integration as _integration
from mc.core import pick
from mc.em import ScriptedSource, histories, em, legs, tame
from mc.tape import constant_rng

PROPERTY = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of noise histories (incl. jump counts and jump '
             'variates on a scripted generator) of each real preset, lockstep with '
             'the recursion of its documented SDE')
LEVEL_NOTE = ('All 3-letter noise histories up to 3 steps, per preset, parameter '
              'form, value shape, direction; trusts the transcription of the '
              'documented SDEs in this file.'
              ' Plus long timelines, equal sizes of all axes and parameters of every sign.')
RULE = ('a state is (preset, configuration, step, noise prefix); a trace is one '
        'integration compared on all paths')

ALPHA = (-1., 0.5, 2.)
TL = {'a': ((0., 0.5, 2.), None), 'b': ((0., 1.), 3), 'e': ((0, 1, 3), None),
      'd': ((0., .5), None)}
BIG = {'near': (tuple(np.arange(150)/256 + (np.arange(150) % 3)/1024), None),
       'far': (tuple(1e5 + np.arange(100)/128), 201),
       'past': (tuple(-1000. + np.arange(90)/64),
                tuple(-1000. + np.arange(77)/32 + 1/256))}
TL.update(BIG)

# preset: (parameters with documented defaults, x0 default)
PAR = {
    'wiener': dict(x0=0., mu=0., sigma=1.),
    'lognorm': dict(x0=1., mu=0., sigma=1.),
    'oruh': dict(x0=0., theta=0., k=1., sigma=1.),
    'hw1f': dict(x0=0., theta=0., k=1., sigma=1.),
    'hwff': dict(x0=0., theta=0., k=1., sigma=1., factors=1),
    'cir': dict(x0=1., theta=1., k=1., xi=1.),
    'heston': dict(x0=1., y0=1., mu=0., sigma=1., theta=1., k=1., xi=1.),
    'heston_xy': dict(x0=1., y0=1., mu=0., sigma=1., theta=1., k=1., xi=1.),
    'jumpdiff': dict(x0=1., mu=0., sigma=1.),
    'mjd': dict(x0=1., mu=0., sigma=1.),
    'kou': dict(x0=1., mu=0., sigma=1.),
}
LONG = {'wiener': 'wiener_process', 'lognorm': 'lognorm_process',
        'oruh': 'ornstein_uhlenbeck_process', 'hwff': 'hull_white_process',
        'hw1f': 'hull_white_1factor_process',
        'cir': 'cox_ingersoll_ross_process',
        'heston_xy': 'full_heston_process', 'heston': 'heston_process',
        'jumpdiff': 'jumpdiff_process', 'mjd': 'merton_jumpdiff_process',
        'kou': 'kou_jumpdiff_process'}
CONST = ('x0', 'y0', 'factors')
# values for each parameter (constant form)
VAL = dict(mu=.25, sigma=.5, theta=.75, k=1.25, xi=.8, x0=1.5, y0=.6)


def forms(name, vshape, paths, scale):
    """parameter forms: name -> (value, reference function of time)"""
    n = int(np.prod(vshape + (paths,)))
    full = scale*(1 + np.arange(n, dtype=float).reshape(
        vshape + (paths,))/(2*n))
    col = full[..., :1]
    one = np.ones(vshape + (1,))
    pt = (-.5, 1., 2.5)
    pv = scale*np.array([1., 1.5, .5])
    return {
        'const': (scale, lambda t: scale),
        'col': (col, lambda t: col),
        'full': (full, lambda t: full),
        'call': (lambda t: scale*(1 + tame(t)/4),
                 lambda t: scale*(1 + tame(t)/4)),
        'process': (process(pt, x=pv.reshape((3,) + (1,)*(len(vshape) + 1)) *
                            one), lambda t: np.interp(t, pt, pv)*one),
    }


def coef(name, s, x, p, vshape):
    """documented coefficients; x: working array"""
    if name == 'wiener':
        return {'dt': p['mu'], 'dw': p['sigma']}
    if name in ('lognorm', 'jumpdiff', 'mjd', 'kou'):
        d = {'dt': p['mu'] - p['sigma']**2/2, 'dw': p['sigma']}
        if name != 'lognorm':
            d['dj'] = 1.
        return d
    if name in ('oruh', 'hw1f', 'hwff'):
        return {'dt': p['k']*(p['theta'] - x), 'dw': p['sigma']}
    if name == 'cir':
        xp = np.where(x > 0, x, 0.)
        return {'dt': p['k']*(p['theta'] - xp), 'dw': p['xi']*np.sqrt(xp)}
    y = x[1]
    yp = np.where(y > 0, y, 0.)
    z = 0*yp
    return {'dt': np.array([p['mu'] - p['sigma']**2*yp/2 + z,
                            p['k']*(p['theta'] - yp) + z]),
            'dw': np.array([p['sigma']*np.sqrt(yp) + z,
                            p['xi']*np.sqrt(yp) + z])}


def wide(name, vshape, factors):
    if name == 'hwff':
        return vshape + (factors,)
    if name.startswith('heston'):
        return (2,) if vshape == () else vshape[:-1] + (2*vshape[-1],)
    return vshape


def run_case(rec, name, cls, tl, i0, vshape, pf, factors, how, omit=(),
             npaths=None, val=None):
    tt, steps = TL[tl]
    k = sum(len(o) - 1 for o, _ in legs(tt, i0, steps))
    big = k > 5
    k = min(k, 5)
    hd = np.array(histories(ALPHA, k))[:npaths]
    paths = len(hd)
    wsh = wide(name, vshape, factors)
    pshape = wsh if name == 'hwff' else vshape
    dw = ScriptedSource(hd, wsh, scale=1/32 if big else 1.)
    dj = ScriptedSource(np.roll(hd, 1, axis=0) + .25, wsh,
                        scale=1/64 if big else .5)
    kw, ref = {}, {}
    for j, par in enumerate(sorted(PAR[name])):
        if par == 'factors':
            if factors != 1 or 'factors' not in omit:
                kw[par] = factors
            continue
        if par in omit:
            d = PAR[name][par]
            ref[par] = lambda t, d=d: d
            continue
        f = pf[j % len(pf)]
        if par in CONST and f in ('call', 'process'):
            f = 'col'
        kw[par], ref[par] = forms(
            par, pshape, paths, (val or VAL)[par])[f]
    kw.update(dw=dw)
    if name in ('jumpdiff', 'mjd', 'kou'):
        kw.update(dj=dj)
    if how == 'call':        # parameters given in two steps, where possible
        P = cls(paths=paths, vshape=vshape, steps=steps, i0=i0, **kw)
    else:
        P = cls(paths=paths, vshape=vshape, steps=steps, i0=i0, getinfo=False,
                **kw)
    start = np.broadcast_to(np.asarray(ref['x0'](0), float),
                            wsh + (paths,)) if not name.startswith(
                                'heston') else None
    lg = name in ('lognorm', 'jumpdiff', 'mjd', 'kou')
    if lg:
        start = np.log(start)
    if start is None:
        sh = vshape + (paths,)
        start = np.array([np.log(np.broadcast_to(ref['x0'](0), sh)),
                          np.broadcast_to(ref['y0'](0), sh)])

    def noise(id, j, s, ds):
        if id == 'dt':
            return ds
        v = (dw if id == 'dw' else dj).value(j, s, ds)
        if name.startswith('heston'):
            if vshape == ():
                return np.array([v[0], v[1]])
            m = vshape[-1]
            return np.array([v[..., :m, :], v[..., m:, :]])
        return v
    want, done = em(tt, i0, steps, start, lambda s, x: coef(
        name, s, x, {q: f(s) for q, f in ref.items()}, vshape), noise)
    want = np.array(want)
    if lg:
        want = np.exp(want)
    elif name == 'hwff':
        want = want.sum(axis=-2)
    elif name.startswith('heston'):
        want = [np.exp(want[:, 0]), want[:, 1]]
        if name == 'heston':
            want = want[:1]
    R = P(tt)
    rec.step(len(done)*paths)
    if name == 'heston_xy':
        rec.check(isinstance(R, tuple) and len(R) == 2, 'two processes')
    else:
        rec.check(isinstance(R, process), 'one process expected, got %s' %
                  type(R))
        R = (R,)
    if not name.startswith('heston'):
        want = [want]
    for x, w in zip(R, want):
        rec.check(type(x) is process, 'type')
        rec.same(x.view(np.ndarray), w, 'values')
        rec.same(x.t, tt, 'timeline')
        rec.check(x.dtype == float, 'dtype')
    rec.check(dw.calls == [d[:2] for d in done], 'dw calls')
    for h in hd[:0] if big else hd:
        for j in range(k + 1):
            rec.state(name, tl, i0, vshape, pf, factors, omit, tuple(h[:j]))


def units(tier, seed):
    for n in sorted(PAR):
        yield dict(u='run', name=n)
        for k in range(2):
            yield dict(u='signs', name=n, k=k)
    for n in ('jumpdiff', 'mjd', 'kou'):
        yield dict(u='jumps', name=n)
    yield dict(u='sources')
    yield dict(u='signature')
    yield dict(u='empty')


def empty_case(rec, name, paths, vs, i0):
    P = getattr(sdepy, name)(paths=paths, vshape=vs, i0=i0,
                             rng=np.random.default_rng(1))
    r = P((0., .5, 2.))
    rec.check(isinstance(r, tuple) == (name == 'heston_xy'), 'outputs')
    for p in r if isinstance(r, tuple) else (r,):
        rec.check(p.shape == (3,) + vs + (paths,), lambda: 'shape %r' % (
            p.shape,))
        rec.check(p.t.tolist() == [0., .5, 2.], 'timeline')
    rec.check(P.info['computed_steps'] == 2, 'info')
    rec.state('empty', name, paths, vs)


def run_unit(rec, u):
    if u['u'] == 'empty':
        for n, (paths, vs), i0 in itertools.product(
                sorted(PAR), EMPTY, (0, 1, -1)):
            rec.case(['empty', n, paths, vs, i0],
                     lambda: empty_case(rec, n, paths, vs, i0))
        return
    if u['u'] == 'run':
        name = u['name']
        F = ('const', 'col', 'full', 'call', 'process')
        cfgs = list(itertools.product(
            (('a', 0), ('a', 1), ('a', 2), ('b', 0), ('b', 1), ('e', 1)),
            ((), (1,), (2,), (2, 2)),
            (1, 2, 3) if name == 'hwff' else (1,)))
        n = 0
        for (tl, i0), vs, fac in cfgs:
            pfs = [tuple(F[(a + b*n) % 5] for a in range(7))
                   for b in (0, 1, 2)] if rec.tier != 'thorough' else [
                tuple(F[(a*m + b) % 5] for a in range(7))
                for b in range(5) for m in (1, 2, 3)]
            if rec.tier != 'thorough':
                pfs += [('const',)]
            for pf in pfs:
                n += 1
                cls = getattr(sdepy, (name, LONG[name])[pick(n, 2)])
                rec.case([name, tl, i0, vs, fac, pf], lambda: run_case(
                    rec, name, cls, tl, i0, vs, pf, fac,
                    ('call', 'plain')[pick(n + 1000, 3) == 0]))
        # many points and paths
        for tl, i0, vs in itertools.product(sorted(BIG), (0, 40, -1),
                                            ((), (4,), (3, 2))):
            n += 1
            pf = tuple(F[pick(7*n + a, 5)] for a in range(7))
            fac = 1 + pick(n + 2000, 4) if name == 'hwff' else 1
            rec.case([name, tl, i0, vs, fac, pf], lambda: run_case(
                rec, name, getattr(sdepy, name), tl, i0, vs, pf, fac, 'call'))
        # as many paths as components
        for a, b, paths, (tl, i0) in itertools.product(
                (1, 2, 3), (1, 2, 3), (1, 2, 3), (('d', 0), ('d', 1))):
            for vs in ((a, b), (a,)):
                n += 1
                pf = tuple(F[pick(7*n + q, 5)] for q in range(7))
                fac = 1 + pick(n + 2000, 3) if name == 'hwff' else 1
                rec.case([name, 'equal', tl, i0, vs, b, paths, fac, pf],
                         lambda: run_case(
                             rec, name, getattr(sdepy, name), tl, i0, vs, pf,
                             fac, 'call', npaths=paths))
        # defaults: each parameter omitted, and all of them
        pars = [q for q in PAR[name]]
        for omit in [(q,) for q in pars] + [tuple(pars)]:
            for (tl, i0), vs in itertools.product(
                    (('a', 1), ('b', 0)), ((), (2,))):
                rec.case([name, 'default', omit, tl, vs], lambda: run_case(
                    rec, name, getattr(sdepy, name), tl, i0, vs, ('const',),
                    1, 'plain', omit=tuple(omit)))
    elif u['u'] == 'signs':
        signs(rec, u['name'], u['k'])
    elif u['u'] == 'jumps':
        jumps(rec, u['name'])
    elif u['u'] == 'sources':
        sources(rec)
    else:
        signature(rec)


def signs(rec, name, k):
    """Parameters positive, negative or null, with no round value."""
    pars = [p for p in sorted(PAR[name]) if p != 'factors' and not (
        p == 'x0' and (PAR[name][p] == 1. and name != 'cir'))]
    for n, sg in enumerate(itertools.product((1, -1, 0), repeat=len(pars))):
        if n % 2 != k:
            continue
        val = {p: v*1.0123457 for p, v in VAL.items()}
        for p, c in zip(pars, sg):
            val[p] = val[p]*c + 0.
        form = (('const',), ('call',), ('col', 'const', 'full'))[pick(n, 3)]
        for tl, i0, vs in ((('a', 1, ()),) if pick(n + 50, 3) else
                           (('b', 1, (2,)), ('a', 2, (2,)))):
            fac = 1 + pick(n + 2000, 3) if name == 'hwff' else 1
            rec.case([name, 'signs', sg, tl, i0, vs, form, fac],
                     lambda: run_case(rec, name, getattr(sdepy, name), tl, i0,
                                      vs, form, fac, 'call', val=val))


def jumps(rec, name):
    """Default jump sources, on a scripted generator: all combinations of
    jump counts, jump variates and parameter forms."""
    tt = (0., .5, 2.)
    cls = getattr(sdepy, name)

    def mk(v, form):
        if form == 'const':
            return v, lambda t: v
        if form == 'call':
            return (lambda t: v*(1 + t/8)), (lambda t: v*(1 + t/8))
        if form == 'process':
            return process((-4., 4.), x=np.array([[v/2], [v*1.5]])), \
                lambda t: v*(1 + t/8)
        return None, None

    def body(vshape, i0, form, counts, un, z, withdn, dfl, ptype):
        seen = []

        def poisson(lam):
            seen.append(lam)
            return np.full(lam.shape, counts[(len(seen) - 1) % 2])
        e = 1.75
        rng = constant_rng(normal=z, uniform=un, expo=e, poisson=poisson)
        kw, law = {}, None
        paths = 3
        lamv, lamf = mk(1.5, form)
        if dfl:
            lamf = lambda t: 1.       # noqa: E731
        else:
            kw['lam'] = lamv
        if name == 'mjd':
            av, af = mk(-.3173 if withdn else .25, form)
            bv, bf = mk(.5, form)
            if dfl:
                af, bf = (lambda t: 0.), (lambda t: 1.)
            else:
                kw.update(a=av, b=bv)

            def law(t):
                return af(t) + bf(t)*z
        elif name == 'kou':
            av, af = mk(.25, form)
            bv, bf = mk(.375, form)
            pv, pf = mk(.6173, form)
            if dfl:
                af = bf = pf = lambda t: .5
            else:
                kw.update(a=av, b=bv, pa=pv)

            def law(t):
                return af(t)*e if un <= pf(t) else -bf(t)*e
        else:
            if dfl:
                def law(t):
                    return un                       # uniform on (0, 1)
            else:
                mv, mf = mk(.5, form)
                kw['y'] = sdepy.norm_rv(a=mv, b=2)

                def law(t):
                    return mf(t) + 2*z
        if withdn:
            hist = np.tile(np.array(counts, float), (paths, 1))

            class DN:
                pass
            dn = DN.__new__(type('DNS', (), dict(
                paths=paths, vshape=vshape,
                __call__=lambda self, s, ds: self.f(s, ds))))
            st = [0]

            def f(s, ds):
                v = counts[st[0] % 2]*np.sign(ds)
                st[0] += 1
                return np.full(vshape + (paths,), int(v))
            dn.f = f
            kw['dn'] = dn
        dw = ScriptedSource(np.zeros((paths, 2)), vshape)
        P = cls(paths=paths, vshape=vshape, i0=i0, rng=rng, dw=dw, x0=2.,
                mu=.125, sigma=.5, **kw)
        if ptype and not withdn:
            pass
        X = P(tt)
        rec.step(2)
        j = [0]

        def noise(id, k, s, ds):
            if id == 'dt':
                return ds
            if id == 'dw':
                return 0.
            return np.sign(ds)*counts[k % 2]*law(s + ds/2)
        want, done = em(tt, i0, None, np.log(np.full(vshape + (paths,), 2.)),
                        lambda s, x: {'dt': .125 - .125, 'dw': .5, 'dj': 1},
                        noise)
        rec.same(X, np.exp(np.array(want)), 'jump increments')
        if not withdn:
            rec.check(len(seen) == len(done), 'one Poisson draw per step')
            for L, (s, ds, _) in zip(seen, done):
                rec.same(L, np.full(vshape + (paths,),
                                    lamf(s + ds/2)*abs(ds)), 'intensity')
        rec.state(name, vshape, i0, form, counts, un, z, withdn, dfl)
    for vshape, i0, form, counts, (un, z), withdn in itertools.product(
            ((), (2,)), (0, 1, 2), ('const', 'call', 'process'),
            ((0, 0), (1, 0), (0, 2), (3, 1)),
            ((.2, -1.), (.9, 1.5)), (False, True)):
        rec.case([name, vshape, i0, form, counts, un, withdn],
                 lambda: body(vshape, i0, form, counts, un, z, withdn, False,
                              None))
        if form == 'const':
            rec.case([name, 'default', vshape, i0, counts, un, withdn],
                     lambda: body(vshape, i0, form, counts, un, z, withdn,
                                  True, None))


def sources(rec):
    """Default Wiener source of each preset: shape, correlation, generator,
    data-type."""
    def body(name, vshape, factors, form):
        wsh = wide(name, vshape, factors)
        kw = {'factors': factors} if name == 'hwff' else {}
        M = wsh[-1] if wsh else 0
        C = None
        if form == 'corr':
            C = np.eye(M) + (np.ones((M, M)) - np.eye(M))/4
            kw['corr'] = C
        elif form == 'rho':
            r = np.linspace(-.5, .75, M//2) if M > 2 else .5
            kw['rho'] = r
            C = np.eye(M)
            for i in range(M//2):
                C[i, i + M//2] = C[i + M//2, i] = np.ravel(r)[i]
        paths = 2
        got = []

        def normal(shape):
            z = np.arange(1, 1 + int(np.prod(shape)), dtype=float)
            z = (z*7 % 11 - 5).reshape(shape)
            got.append(z)
            return z
        from mc.tape import TapeRNG
        mk = lambda: TapeRNG(normal=normal, poisson=lambda L: 0*L,   # noqa
                             uniform=lambda s: np.zeros(s))
        P = getattr(sdepy, name)(paths=paths, vshape=vshape, rng=mk(), **kw)
        rec.check(set(P.sources) == ({'dt', 'dw', 'dj'} if name in (
            'jumpdiff', 'mjd', 'kou') else {'dt', 'dw'}), 'sources')
        dw = P.sources['dw']
        rec.check(dw.paths == paths and dw.vshape == wsh, 'dw shape')
        if C is not None:
            rec.same(dw.corr, C, 'corr')
        else:
            rec.check(dw.corr is None, 'no corr')
        X = P((0., 1.))
        X = X[0] if name == 'heston_xy' else X
        src = sdepy.wiener_source(paths=paths, vshape=wsh, rng=mk(), corr=C)
        dw2 = ScriptedSource(np.zeros((paths, 1)), wsh)
        z = src(0., 1.)
        dw2.value = lambda j, s, ds: z
        Y = getattr(sdepy, name)(paths=paths, vshape=vshape, rng=mk(), dw=dw2,
                                 **{k: v for k, v in kw.items()
                                    if k == 'factors'})((0., 1.))
        Y = Y[0] if name == 'heston_xy' else Y
        rec.same(X, Y, 'default dw')
        rec.check(X.shape == (2,) + vshape + (paths,), 'output shape')
        rec.step()
        rec.state(name, vshape, factors, form)
    for name, vshape, form in itertools.product(
            sorted(PAR), ((), (1,), (2,), (2, 4)), ('none', 'corr', 'rho')):
        for factors in ((1, 2, 4) if name == 'hwff' else (1,)):
            wsh = wide(name, vshape, factors)
            if form != 'none' and not wsh:
                continue
            if form == 'rho' and wsh[-1] % 2:
                continue
            rec.case(['dw', name, vshape, factors, form],
                     lambda: body(name, vshape, factors, form))

    def dtypes(name):
        P = getattr(sdepy, name)(paths=2, dtype=np.float32,
                                 rng=np.random.default_rng(0))
        X = P((0., 1.))
        for x in (X if isinstance(X, tuple) else (X,)):
            rec.check(x.dtype == np.float32, 'dtype %s' % x.dtype)
    for name in sorted(PAR):
        rec.case(['dtype', name], lambda: dtypes(name))


def signature(rec):
    """Accepted parameters and defaults, as reported by params/args."""
    jd = dict(dw=None, corr=None, rho=None)
    extra = {n: dict(jd) for n in PAR}
    extra['jumpdiff'].update(dj=None, dn=None, ptype=int, lam=1., y=None)
    extra['mjd'].update(dj=None, dn=None, ptype=int, lam=1., a=0., b=1.)
    extra['kou'].update(dj=None, dn=None, ptype=int, lam=1., a=.5, b=.5,
                        pa=.5)

    def body(name):
        P = getattr(sdepy, name)(paths=2)
        want = {**PAR[name], **extra[name]}
        got = {k: v for k, v in P.args.items()}
        rec.check(set(got) == set(want), 'parameters %s' % sorted(got))
        for k in want:
            if want[k] is None or want[k] is int:
                rec.check(got[k] is want[k], '%s default' % k)
            else:
                rec.same(got[k], want[k], '%s default' % k)
        rec.raises(lambda: getattr(sdepy, name)(paths=2, unknown=1),
                   'unknown parameter', TypeError)
        rec.state('sig', name)
        base = getattr(_integration, LONG[name])
        rec.check(issubclass(getattr(sdepy, name), base) or
                  getattr(sdepy, name) is base, 'class')
    for name in sorted(PAR):
        rec.case(['signature', name], lambda: body(name))
