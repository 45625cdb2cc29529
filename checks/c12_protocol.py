"""C12: any object honouring the source protocol can drive an integration."""
import itertools
import numpy as np
import sdepy
from sdepy import process
from mc.em import em, legs

PROPERTY = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of source forms, shapes, timelines and sequences of '
             'integrations on the real code, replaying each with the increments '
             'of the supplied object itself')
LEVEL_NOTE = ('All forms of the source protocol, for each of dw, dn, dj and dn within '
              'dj, all value shapes broadcastable to the requested one up to 2 '
              'dimensions, all sequences of 3 integrations out of 5 timelines driven '
              'by one source with memory, all kinds of protocol violations.'
              ' Plus long timelines.')
RULE = ('a state is (form, source id, shapes, timeline or sequence); a transition '
        'is one integration; a trace is one integration compared step by step')

TL = {'a': ((0., .5, 1.), None, 0), 'b': ((0., 1.), 3, 0),
      'c': ((-1., 0., 2.), (.5,), 1), 'd': ((0., .25, 1.5, 2.), None, -1),
      'e': ((0, 1, 2), None, 0)}
LTL = {'l': (tuple(np.arange(200)*.05), None, 0),
       'm': (tuple(np.arange(101)*.1 - 2), 333, 50),
       'n': ((0., 10.), 500, 0), 'o': (tuple(np.arange(300)), None, -1)}
ATL = dict(TL, **LTL)
PATHS = 3


def table(s, ds, shape):
    n = int(np.prod(shape))
    base = (1 + np.arange(n, dtype=float)).reshape(shape)
    return np.sign(ds)*np.sqrt(abs(ds))*np.cos(base + 3*s)


class Plain:
    """the bare protocol: callable, with paths and vshape"""

    def __init__(self, paths=PATHS, vshape=(), dtype=None, rng=None,
                 integer=False, **kw):
        self.paths, self.vshape, self.kw = paths, vshape, kw
        self.integer, self.dtype, self.calls = integer, dtype, []

    def __call__(self, t, dt):
        self.calls.append((float(t), float(dt)))
        t, dt = np.broadcast_arrays(t, dt)
        out = np.empty(t.shape + tuple(self.vshape) + (self.paths,))
        for i in np.ndindex(t.shape):
            z = table(t[i], dt[i], tuple(self.vshape) + (self.paths,))
            out[i] = np.round(2*np.abs(z))*np.sign(dt[i]) if self.integer \
                else z
        return out


class Counts(Plain):
    def __init__(self, *a, **k):
        super().__init__(*a, integer=True, **k)

    def __call__(self, t, dt):
        return super().__call__(t, dt).astype(int)


class Derived(sdepy.source):
    """derived from the base class"""

    def __call__(self, t, dt):
        t, dt = np.broadcast_arrays(t, dt)
        out = np.empty(t.shape + self.vshape + (self.paths,))
        for i in np.ndindex(t.shape):
            out[i] = table(t[i], dt[i], self.vshape + (self.paths,))
        return out


def function(paths, vshape):
    def f(t, dt):
        f.calls.append((float(t), float(dt)))
        return table(float(t), float(dt), tuple(vshape) + (paths,))
    f.paths, f.vshape, f.calls = paths, vshape, []
    return f


def as_process(paths, vshape, integer=False):
    tt = np.array((-2., -1., 0., .25, .75, 1., 2., 3.))
    n = tt.size*int(np.prod(vshape))*paths
    x = np.cos(np.arange(n)*1.7).reshape((tt.size,) + tuple(vshape) +
                                         (paths,))
    return process(tt, x=x)


def forms(id, vshape, paths=PATHS):
    """name -> (object to be given, replay(t, dt) of its increments or None,
    the integration drives a fresh instance)"""
    g = (lambda s=11: np.random.default_rng(s))
    out = {}
    full = tuple(vshape)
    p = Plain(paths, full) if id != 'dn' else Counts(paths, full)
    out['plain'] = (p, None)
    out['derived'] = (Derived(paths=paths, vshape=full), None)
    out['function'] = (function(paths, full), None)
    out['process'] = (as_process(paths, full), None)
    true, plain = dict(
        dw=(sdepy.true_wiener_source, sdepy.odd_wiener_source),
        dn=(sdepy.true_poisson_source, sdepy.even_poisson_source),
        dj=(sdepy.true_cpoisson_source, sdepy.even_cpoisson_source))[id]
    short = dict(dw=(sdepy.true_dw, sdepy.dw), dn=(sdepy.true_dn, sdepy.dn),
                 dj=(sdepy.true_dj, sdepy.dj))[id]
    kw = {} if id == 'dw' else dict(lam=3.)
    z = true(paths=paths, vshape=full, rng=g(), **kw)
    out['true'] = (z, None)
    z = short[0](paths=paths, vshape=full, rng=g(), t0=-.5, **kw)
    out['trueshort'] = (z, None)
    big = true(paths=paths, vshape=(2,) + full, rng=g(), **kw)
    out['indexed'] = (big[1], None)
    big2 = true(paths=paths, vshape=full + (3,), rng=g(), **kw)
    out['indexed2'] = (big2[..., 2], None)
    out['memoryless'] = (short[1](paths=paths, vshape=full, rng=g(), **kw),
                         short[1](paths=paths, vshape=full, rng=g(), **kw))
    if paths % 2 == 0:
        out['antithetic'] = (plain(paths=paths, vshape=full, rng=g(), **kw),
                             plain(paths=paths, vshape=full, rng=g(), **kw))
    # the process generated by another integration
    w = sdepy.wiener_process(paths=paths, vshape=full, rng=g())(
        np.array((-1., 0., .5, 1., 2.)))
    out['integrated'] = (w, None)
    # classes
    out['class'] = (Plain if id != 'dn' else Counts,
                    (Plain if id != 'dn' else Counts)(paths, full))
    out['derivedclass'] = (Derived, Derived(paths=paths, vshape=full)) \
        if id == 'dt' else out['class']
    out['trueclass'] = (true, true(paths=paths, vshape=full, rng=g(5)))
    out['shortclass'] = (short[1], short[1](paths=paths, vshape=full,
                                            rng=g(5)))
    return out


def subshapes(vshape):
    """value shapes that broadcast to vshape"""
    out = {tuple(vshape)}
    for k in range(len(vshape) + 1):
        for sub in itertools.product(*[{1, n} for n in vshape[k:]]):
            out.add(tuple(sub))
    return sorted(out)


def process_class(ids):
    @sdepy.integrate(q=0, sources=set(ids))
    def P(t, x, a=.5):
        A = {'dt': a, 'dw': 1 + x/8, 'dn': .25, 'dj': 1.}
        return {k: A[k] for k in ids}
    return P


def coef(ids):
    def f(s, x):
        A = {'dt': .5, 'dw': 1 + x/8, 'dn': .25, 'dj': 1.}
        return {k: A[k] for k in ids}
    return f


def drive(rec, id, form, vshape, sub, tl):
    """one integration, replayed with the increments of the object itself"""
    tt, steps, i0 = ATL[tl]
    obj, twin = forms(id, sub)[form]
    isclass = isinstance(obj, type)
    if isclass:
        twin = forms(id, vshape)[form][1]
    kw = {id: obj}
    P = process_class(['dt', id])
    p = P(paths=PATHS, vshape=vshape, rng=np.random.default_rng(5),
          x0=1.5, steps=steps, i0=i0, **kw)
    x = p(np.array(tt))
    rec.step()
    rec.trace()
    rec.state(form, id, vshape, sub, tl)
    n = sum(len(o) - 1 for o, _ in legs(tt, i0, steps))
    calls = getattr(obj, 'calls', None)
    if not isclass and isinstance(calls, list):
        rec.check(len(calls) == n, lambda: '%d calls for %d steps' % (
            len(calls), n))
    src = obj if twin is None else twin
    if isclass and id == 'dn' and form == 'class':
        rec.check(True, '')
    ref, _ = em(tt, i0, steps, np.full(vshape + (PATHS,), 1.5),
                coef(['dt', id]),
                lambda k, j, s, ds: ds if k == 'dt' else np.broadcast_to(
                    src(s, ds), np.broadcast_shapes(
                        np.shape(src(s, ds)) if twin is None else
                        (vshape if isclass else sub) + (PATHS,),
                        vshape + (PATHS,))))
    # times differing by rounding are different times of a source with memory
    rec.same(x, np.array(ref), 'integration along the given source',
             tol=1e-6 if tl in LTL else 1e-12)
    if not isclass:
        rec.check(p.sources[id] is obj, 'the object was copied')
    else:
        made = p.sources[id]
        rec.check(isinstance(made, obj) and made.paths == PATHS and
                  tuple(made.vshape) == tuple(vshape),
                  lambda: 'class instantiated with paths %s vshape %s' % (
                      made.paths, made.vshape))


def nested_dn(rec, form, vshape, sub, tl, cls):
    """the Poisson source within a compound Poisson source"""
    tt, steps, i0 = ATL[tl]
    obj, _ = forms('dn', sub)[form]

    class Ones:
        """unit jumps: the compound source moves as its Poisson source"""
        def rvs(self, size, random_state=None):
            return np.ones(size)
    ones = Ones()
    if form in ('process', 'function', 'derived', 'integrated'):
        return
    src = cls(paths=PATHS, vshape=vshape, dn=obj, y=ones,
              rng=np.random.default_rng(5))
    isclass = isinstance(obj, type)
    for s, ds in ((0., 1.), (1., -.5), (.5, 1.)):
        rec.step()
        z = src(s, ds)
        rec.check(z.shape == vshape + (PATHS,), 'shape')
        n = src.dn(s, ds) if form.startswith(('true', 'ind')) and not \
            isclass else src.dn_value
        rec.same(z, np.broadcast_to(n, z.shape), 'unit jumps')
    rec.check(isclass or src.dn is obj, 'the Poisson source was copied')
    rec.state('nested', form, vshape, sub, cls.__name__)
    y = sdepy.uniform_rv(a=1, b=1 + 1e-9)
    obj2, _ = forms('dn', sub)[form]
    p = sdepy.jumpdiff_process(paths=PATHS, vshape=vshape, sigma=0., y=ones,
                               dn=obj2, rng=np.random.default_rng(5),
                               x0=1., steps=steps, i0=i0)
    x = p(np.array(tt, float))
    n = np.log(np.asarray(x))
    rec.same(n, np.rint(n), 'integer jumps', tol=1e-6)
    if form in ('true', 'trueshort', 'indexed', 'indexed2', 'plain'):
        k = i0 % len(tt)
        for i, t in enumerate(tt):
            if form == 'plain' and steps is None:
                continue
            if form != 'plain':
                want = obj2(float(t)) - obj2(float(tt[k]))
                rec.same(n[i], np.broadcast_to(want, n[i].shape),
                         'jumps of the Poisson source', tol=1e-6)


def consistent(rec, kind, seq, vshape):
    """several integrations along one source with memory"""
    rng = np.random.default_rng(3)
    if kind == 'dw':
        src = sdepy.true_wiener_source(paths=PATHS, vshape=vshape, rng=rng)
    elif kind == 'corr':
        C = np.full((vshape[-1],)*2, .5) + .5*np.eye(vshape[-1])
        src = sdepy.true_wiener_source(paths=PATHS, vshape=vshape, rng=rng,
                                       corr=C)
    elif kind == 'dn':
        src = sdepy.true_poisson_source(paths=PATHS, vshape=vshape, rng=rng,
                                        lam=3.)
    else:
        src = sdepy.true_cpoisson_source(paths=PATHS, vshape=vshape, rng=rng,
                                         lam=3., y=sdepy.norm_rv())
    id = {'corr': 'dw'}.get(kind, kind)

    @sdepy.integrate(q=0, sources={id})
    def P(t, x):
        return {id: 1.}
    known = {}
    done = []
    for k, name in enumerate(seq):
        tt, steps, i0 = ATL[name]
        p = P(paths=PATHS, vshape=vshape, steps=steps, i0=i0, x0=1.,
              **{id: src if k != 1 or not vshape else src[...]})
        x = np.asarray(p(np.array(tt)))
        rec.step()
        a = float(tt[i0 % len(tt)])
        for i, t in enumerate(tt):
            done.append((float(t), a, x[i]))
    for t, a, v in done:
        rec.same(v, 1. + (src(t) - src(a)), 'x(%s) - x(%s)' % (t, a),
                 tol=1e-9 if not set(seq) & set(LTL) else 1e-5)
    rec.state('consistent', kind, seq, vshape)


def shared(rec):
    """one object used twice: by two equations, two sources, two processes"""
    def two_processes():
        src = Plain(PATHS, (2,))
        p = sdepy.wiener_process(paths=PATHS, vshape=2, dw=src)
        q = sdepy.lognorm_process(paths=PATHS, vshape=2, dw=src, sigma=.5)
        tt = np.array((0., 1., 2.))
        x, y = p(tt), q(tt)
        rec.step(2)
        rec.check(len(src.calls) == 4, 'one call per step per process')
        rec.same(np.log(np.asarray(y)), .5*np.asarray(x) -
                 .125*tt.reshape(3, 1, 1), 'same noise')
    rec.case(['two processes'], two_processes)

    def two_sources():
        w = sdepy.true_dw(paths=PATHS, rng=np.random.default_rng(1))

        class both(sdepy.SDE):
            sources = {'dw', 'du'}

            def sde(self, t, x):
                return {'dw': 1., 'du': -1.}

            def source_du(self, du=None):
                return self.source_dw(dw=du)

        class P(both, sdepy.integrator):
            pass
        x = P(paths=PATHS, dw=w, du=w, x0=2., steps=7)(np.array((0., 1.)))
        rec.same(np.asarray(x), np.full((2, PATHS), 2.), 'opposite noises')
        rec.step()
    rec.case(['two sources'], two_sources)

    def components():
        w = sdepy.true_dw(paths=PATHS, vshape=(2,),
                          rng=np.random.default_rng(1))
        tt = np.array((0., .3, 1.))
        xs = [np.asarray(sdepy.wiener_process(paths=PATHS, dw=w[i])(tt))
              for i in (0, 1)]
        both = np.asarray(sdepy.wiener_process(paths=PATHS, vshape=2, dw=w,
                                               steps=5)(tt))
        rec.step(3)
        for i in (0, 1):
            rec.same(xs[i], both[:, i], 'component')
        h = sdepy.full_heston_process(paths=PATHS, dw=w, sigma=0., xi=0.)(tt)
        rec.check(len(h) == 2, 'heston driven by a source with memory')
        big = sdepy.true_dw(paths=PATHS, vshape=(3,),
                            rng=np.random.default_rng(2))
        x, y = sdepy.full_heston_process(
            paths=PATHS, dw=big[[2, 0]], k=0., xi=0.)(tt)
        rec.same(np.log(np.asarray(x)), np.array([
            big(float(t))[2] - t/2 for t in tt]), 'heston, indexed source')
        hw = sdepy.hull_white_process(paths=PATHS, dw=big, factors=3, k=0.)(
            tt)
        rec.same(np.asarray(hw), np.array([big(float(t)).sum(axis=0)
                                           for t in tt]), 'hull-white')
        rec.step(3)
    rec.case(['components'], components)

    def feedback():
        # a process drives another, which drives another
        tt = np.array((0., .5, 1.))
        w = sdepy.wiener_process(paths=PATHS, rng=np.random.default_rng(1))(tt)
        v = sdepy.wiener_process(paths=PATHS, dw=w, sigma=2.)(tt)
        u = sdepy.wiener_process(paths=PATHS, dw=v, steps=9)(tt)
        rec.same(np.asarray(v), 2*np.asarray(w), 'driven by a process')
        rec.same(np.asarray(u), 2*np.asarray(w), 'driven by a driven process')
        rec.step(3)
    rec.case(['feedback'], feedback)


class NoPaths:
    vshape = ()

    def __call__(self, t, dt):
        return np.zeros(PATHS)


class NoVshape:
    paths = PATHS

    def __call__(self, t, dt):
        return np.zeros(PATHS)


class NotCallable:
    paths, vshape = PATHS, ()


def bad_forms(vshape, wide):
    def f(t, dt):
        return np.zeros(PATHS)
    out = {'no paths': NoPaths(), 'no vshape': NoVshape(),
           'not callable': NotCallable(), 'function': f, 'number': 1.,
           'array': np.zeros(PATHS), 'string': 'dw',
           'paths+1': Plain(PATHS + 1, vshape), 'paths1': Plain(1, vshape),
           'paths-1': Plain(PATHS - 1, vshape),
           'process1': process((0., 1.), v=np.zeros((2,) + vshape)),
           'processc': process(c=np.zeros(vshape)),
           'true paths': sdepy.true_dw(paths=PATHS + 2, vshape=vshape),
           'vshape+': Plain(PATHS, (2,) + vshape),
           'vshape 5': Plain(PATHS, vshape[:-1] + (5,)),
           'process v': as_process(PATHS, vshape[:-1] + (5,)),
           'true v': sdepy.true_dw(paths=PATHS, vshape=(5,) + vshape),
           'indexed v': sdepy.true_dw(paths=PATHS,
                                      vshape=(4, 5) + vshape)[0]}
    return out


def rejected(rec):
    for vshape in ((), (2,), (3, 2)):
        for name in bad_forms(vshape, vshape):
            for id in ('dw', 'dn', 'dj'):
                def run():
                    obj = bad_forms(vshape, vshape)[name]
                    P = process_class(['dt', id])
                    rec.raises(lambda: P(paths=PATHS, vshape=vshape,
                                         **{id: obj}), '%s as %s' % (name,
                                                                     id))
                    rec.state('bad', vshape, name, id)
                rec.case(['rejected', vshape, name, id], run)
            for cls in ('wiener_process', 'jumpdiff_process', 'heston_process',
                        'hull_white_process', 'kou_jumpdiff_process'):
                def run():
                    obj = bad_forms(vshape, vshape)[name]
                    kw = dict(dw=obj)
                    if cls == 'heston_process' and name == 'vshape+':
                        return      # two factors, indeed
                    rec.raises(lambda: getattr(sdepy, cls)(
                        paths=PATHS, vshape=vshape, **kw),
                        '%s, %s' % (cls, name))
                    rec.state('bad', vshape, name, cls)
                rec.case(['rejected', vshape, name, cls], run)
            for cls in (sdepy.cpoisson_source, sdepy.dj,
                        sdepy.true_cpoisson_source):
                def run():
                    obj = bad_forms(vshape, vshape)[name]
                    rec.raises(lambda: cls(paths=PATHS, vshape=vshape,
                                           dn=obj), 'dn, %s' % name)
                rec.case(['rejected', vshape, name, cls.__name__, 'dn'], run)


def units(tier, seed):
    out = [dict(u='drive', id=id, k=k) for id in ('dw', 'dn', 'dj')
           for k in range(2)]
    out += [dict(u='nested')]
    out += [dict(u='consistent', kind=k) for k in ('dw', 'corr', 'dn', 'dj')]
    out += [dict(u='long', id=id) for id in ('dw', 'dn', 'dj')]
    out += [dict(u='shared'), dict(u='rejected')]
    return out


def run_unit(rec, u):
    shapes = [(), (1,), (2,), (3, 2)]
    if rec.tier == 'thorough':
        shapes += [(2, 1), (2, 1, 3)]
    if u['u'] == 'drive':
        id = u['id']
        n = 0
        for vshape in shapes:
            for sub in subshapes(vshape):
                for form in forms(id, sub):
                    cl = isinstance(forms(id, sub)[form][0], type)
                    if cl and sub != vshape:
                        continue
                    for tl in TL:
                        n += 1
                        if n % 2 == u['k']:
                            rec.case([id, form, vshape, sub, tl],
                                     lambda: drive(rec, id, form, vshape, sub,
                                                   tl))
    elif u['u'] == 'nested':
        for vshape in shapes:
            for sub in subshapes(vshape):
                for form in forms('dn', sub):
                    for cls in (sdepy.cpoisson_source, sdepy.dj,
                                sdepy.true_cpoisson_source):
                        if cls is sdepy.true_cpoisson_source and \
                                form not in ('true', 'trueshort', 'indexed',
                                             'indexed2'):
                            continue
                        if form.endswith('class') and sub != vshape:
                            continue
                        tl = 'abcd'[len(form) % 4]
                        rec.case(['nested', form, vshape, sub, cls.__name__],
                                 lambda: nested_dn(rec, form, vshape, sub, tl,
                                                   cls))
    elif u['u'] == 'consistent':
        for vshape in ((), (2,)) if u['kind'] != 'corr' else ((2,), (2, 2)):
            for seq in itertools.product(TL, repeat=3 if rec.tier == 'quick'
                                         else 4):
                rec.case(['consistent', u['kind'], list(seq), vshape],
                         lambda: consistent(rec, u['kind'], seq, vshape))
    elif u['u'] == 'long':
        id = u['id']
        for vshape in ((), (2,), (40,)):
            for form in forms(id, vshape):
                for tl in LTL:
                    if 'process' in form or form == 'integrated':
                        continue        # constant outside of its timeline
                    if form.startswith(('true', 'ind')) and (
                            vshape == (40,) or id != 'dw' and vshape):
                        continue
                    rec.case(['long', id, form, vshape, tl],
                             lambda: drive(rec, id, form, vshape, vshape, tl))
        for vshape in ((), (2,)):
            for seq in (('l', 'a', 'm'), ('m', 'l'), ('n', 'c', 'l'),
                        ('a', 'o', 'd', 'a')):
                rec.case(['long consistent', id, list(seq), vshape],
                         lambda: consistent(rec, id, seq, vshape))
    elif u['u'] == 'shared':
        shared(rec)
    else:
        rejected(rec)
