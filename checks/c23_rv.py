"""C23: jump-size distributions: law, moments, time dependence, mapping."""
import itertools
import warnings
import numpy as np
import scipy.integrate
import scipy.stats
import sdepy
from sdepy import process, norm_rv, uniform_rv, exp_rv, double_exp_rv, rvmap
from mc.tape import TapeRNG, Unscripted

PROPERTY = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the outcomes of the underlying draws on a quantile grid '
             '(scripted generator), giving the exact law of the variates to compare with the '
             'stated one; enumeration of all parameter, time-dependence and mapping forms '
             'against constant-parameter distributions')
LEVEL_NOTE = ('4 families; 4-12 parameter values each, of all signs, as python and numpy scalars, lists '
              'and arrays of up to 2 dimensions; grids of 4096 (one draw) or 48-64 per axis (up to three '
              'draws); all subsets of time-dependent parameters in 6 forms; rvmap: 9 kinds of '
              'functions by 6 kinds of variates, composed twice. Law agreement is decided up to '
              'the resolution of the grid.')
RULE = ('a state is (family, parameters, form); a trace is one set of variates with its moments; '
        'transitions count the enumerated outcomes of the draws')

NAMES = dict(norm=('a', 'b'), uniform=('a', 'b'), exp=('a',),
             dexp=('a', 'b', 'pa'))
RV = dict(norm=norm_rv, uniform=uniform_rv, exp=exp_rv, dexp=double_exp_rv)
DEFAULT = dict(norm=(0, 1), uniform=(0, 1), exp=(1,), dexp=(1, 1, .5))

PARAMS = dict(
    norm=[(0, 1), (1.5, .25), (-2, 3), (0., .5), (7, 2)],
    uniform=[(0, 1), (-1, 1), (2., 2.5), (-3, -2), (-.25, 4)],
    exp=[(1,), (.5,), (2,), (-1,), (-.25,), (-3,), (.125,)],
    dexp=[(1, 1, .5), (.5, .25, .25), (2, .5, .75), (.25, 3, 0.), (.5, 1, 1),
          (.125, 2, .125), (3, 4, 0)])


# ---------------------------------------------------- reference laws

def ref_cdf(kind, p, x):
    x = np.asarray(x, float)
    if kind == 'norm':
        return scipy.stats.norm.cdf((x - p[0])/p[1])
    if kind == 'uniform':
        return np.clip((x - p[0])/(p[1] - p[0]), 0, 1)
    if kind == 'exp':
        a = p[0]
        if a > 0:
            return np.where(x > 0, 1 - np.exp(-np.maximum(x, 0)/a), 0.)
        return np.where(x < 0, np.exp(np.minimum(x, 0)/abs(a)), 1.)
    a, b, pa = p
    return np.where(x < 0, (1 - pa)*np.exp(np.minimum(x, 0)/b),
                    1 - pa*np.exp(-np.maximum(x, 0)/a))


def ref_moments(kind, p):
    """mean, var, std, exp_mean, by integration of the density"""
    if kind == 'norm':
        a, b = p
        pieces = [(lambda z: scipy.stats.norm.pdf(z), lambda z: a + b*z,
                   -12 - 2*b, 12 + 2*b)]
    elif kind == 'uniform':
        a, b = p
        pieces = [(lambda z: 1., lambda z: a + (b - a)*z, 0, 1)]
    else:
        if kind == 'exp':
            legs = [(1., p[0])]
        else:
            legs = [(p[2], p[0]), (1 - p[2], -p[1])]
        pieces = [((lambda z, w=w: w*np.exp(-z)), (lambda z, s=s: s*z),
                   0, 60 if s < .9 else 60) for w, s in legs if w > 0]

    def integral(g, fine=False):
        return sum(scipy.integrate.quad(
            lambda z: d(z)*g(v(z)), lo, hi, limit=200,
            epsabs=1e-13, epsrel=1e-12)[0] for d, v, lo, hi in pieces)
    m = integral(lambda y: y)
    var = integral(lambda y: (y - m)**2)
    if kind in ('norm', 'uniform'):
        em = integral(np.exp)
    else:
        if any(s >= 1 for _, s in legs if _ > 0):
            em = np.inf
        else:
            # int_0^oo exp(-z) exp(s*z) dz, rescaled
            em = sum(w*scipy.integrate.quad(
                lambda z: np.exp(-z)/(1 - s), 0, 60)[0]
                for w, s in legs if w > 0)
    return m, var, np.sqrt(var), em


_MOM = {}


def moments(kind, p):
    k = (kind,) + tuple(float(x) for x in p)
    if k not in _MOM:
        _MOM[k] = ref_moments(kind, k[1:])
    return _MOM[k]


METH = ('mean', 'var', 'std', 'exp_mean')


def check_moments(rec, rv, kind, params, what):
    """params: broadcastable arrays"""
    arr = np.broadcast_arrays(*[np.asarray(p, float) for p in params])
    shape = arr[0].shape
    want = np.empty((4,) + shape)
    for i in np.ndindex(*shape):
        want[(slice(None),) + i] = moments(kind, [x[i] for x in arr])
    for m, w in zip(METH, want):
        got = getattr(rv, m)()
        rec.check(np.shape(got) == shape, '%s.%s(): shape %s, expected %s'
                  % (what, m, np.shape(got), shape))
        rec.check(np.allclose(got, w, rtol=1e-6, atol=1e-9),
                  lambda: '%s.%s() = %s, expected %s' % (what, m, got, w))


# ---------------------------------------------------- scripted draws

class Grid:
    """k-th draw of the full size: quantile midpoints along axis k"""

    def __init__(self, size, naxes):
        self.size, self.m = size, naxes
        self.k = 0

    def rng(self):
        return TapeRNG(normal=self.normal, uniform=self.uniform,
                       expo=self.expo)

    def q(self, shape):
        shape = tuple(shape)
        if shape != tuple(self.size) or self.k >= self.m:
            raise Unscripted('draw of shape %s' % (shape,))
        n = shape[self.k]
        u = (np.arange(n) + .5)/n
        # the draws are independent: any order does
        u = u.reshape((n,) + (1,)*(len(shape) - 1 - self.k))
        self.k += 1
        return np.broadcast_to(u, shape)

    def uniform(self, shape):
        return self.q(shape)

    def normal(self, shape):
        return scipy.stats.norm.ppf(self.q(shape))

    def expo(self, shape):
        return -np.log1p(-self.q(shape))


def n_draws(rv, tail):
    rng = TapeRNG(normal=lambda s: np.zeros(s), uniform=lambda s:
                  np.full(s, .5), expo=lambda s: np.ones(s))
    rv.rvs(size=(2, 3) + tail, random_state=rng)
    return len(rng.log)


def law_sample(rv, tail):
    """all outcomes of rv over the grid, as an array of shape (N,) + tail,
    and resolution of the law"""
    m = n_draws(rv, tail)
    n = {1: 4096, 2: 96, 3: 64}.get(m)
    if n is None:
        raise Unscripted('%d draws' % m)
    if m == 3 and tail:
        n = 48
    g = Grid((n,)*m + tail, m)
    x = rv.rvs(size=(n,)*m + tail, random_state=g.rng())
    assert np.shape(x) == (n,)*m + tail, \
        'rvs shape %s, expected %s' % (np.shape(x), (n,)*m + tail)
    return np.reshape(x, (-1,) + tail), {1: .6, 2: 1.1, 3: 1.6}[m]/n


def check_law(rec, rv, kind, params, what):
    arr = np.broadcast_arrays(*[np.asarray(p, float) for p in params])
    shape = arr[0].shape
    try:
        x, tol = law_sample(rv, shape)
    except Unscripted:
        rec.count('unscripted')
        return
    rec.step(x.size)
    for i in np.ndindex(*shape):
        xi = np.sort(x[(slice(None),) + i])
        F = ref_cdf(kind, [p[i] for p in arr], xi)
        N = xi.size
        # last and first index of each set of equal values
        hi = np.searchsorted(xi, xi, 'right')/N
        lo = np.searchsorted(xi, xi, 'left')/N
        err = max(np.max(lo - F), np.max(F - hi))
        rec.check(err <= tol + 1e-9, lambda: '%s: law differs from the '
                  'stated one, by %g in probability' % (what, err))


# ---------------------------------------------------- units

def units(tier, seed):
    for kind in RV:
        yield dict(u='law', kind=kind)
        yield dict(u='arrays', kind=kind)
        yield dict(u='timedep', kind=kind)
    yield dict(u='invalid')
    for k in range(len(ykinds())):
        yield dict(u='rvmap', k=k)


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['u_' + u.pop('u')](rec, **u)


def sfmt(kind, p):
    return '%s_rv%s' % (kind, tuple(p))


def forms_of(p):
    yield 'python', p
    yield 'numpy', tuple(np.float64(x) for x in p)
    yield '0-d', tuple(np.array(x) for x in p)
    if all(np.float32(x) == x and x*8 == int(x*8) for x in p):
        yield 'float32', tuple(np.float32(x) for x in p)
    if all(float(x).is_integer() for x in p):
        yield 'int', tuple(int(x) for x in p)
        yield 'int64', tuple(np.int64(x) for x in p)
        yield 'int32', tuple(np.array(int(x), dtype=np.int32) for x in p)


def make(kind, p):
    return RV[kind](**dict(zip(NAMES[kind], p)))


def u_law(rec, kind):
    P = PARAMS[kind]
    if rec.tier == 'thorough':
        extra = dict(norm=itertools.product((-5, .1, 3), (.01, 1, 10)),
                     uniform=itertools.product((-5, .1), (.2, 11)),
                     exp=((x,) for x in (-10, -.01, .01, .99, 1.01, 30)),
                     dexp=itertools.product((.1, 1, 3), (.2, 2),
                                            (0, .1, .9, 1)))[kind]
        P = P + list(extra)

    def defaults():
        check_moments(rec, RV[kind](), kind, DEFAULT[kind], 'default')
        check_law(rec, RV[kind](), kind, DEFAULT[kind], 'default')
    rec.case([kind, 'default'], defaults)
    for p in P:
        for fname, q in forms_of(p):
            def run():
                rec.state(kind, fname, p)
                rv = make(kind, q)
                what = sfmt(kind, p) + ' ' + fname
                check_moments(rec, rv, kind, p, what)
                check_law(rec, rv, kind, p, what)
                if q:
                    pos = RV[kind](*q)
                    rec.same(pos.mean(), rv.mean(), what + ' positional')
                sizes(rec, rv, (), what)
            rec.case([kind, fname, [float(x) for x in p]], run)
        # each parameter alone, others default
        for j, name in enumerate(NAMES[kind]):
            q = list(DEFAULT[kind])
            q[j] = p[j]
            if kind == 'uniform' and q[1] <= q[0]:
                continue

            def alone():
                rv = RV[kind](**{name: p[j]})
                check_moments(rec, rv, kind, q, sfmt(kind, q) + ' ' + name)
                check_law(rec, rv, kind, q, sfmt(kind, q) + ' ' + name)
            rec.case([kind, 'alone', name, float(p[j])], alone)


def sizes(rec, rv, tail, what):
    def G(s=5):
        return np.random.default_rng(s)
    for lead in ((), (1,), (4,), (2, 3), (3, 1, 2), (0,), (400,)):
        size = lead + tail
        state0 = np.random.get_state()
        x = rv.rvs(size=size, random_state=G())
        rec.check(np.shape(x) == size, '%s: rvs(size=%s) has shape %s'
                  % (what, size, np.shape(x)))
        y = rv.rvs(size=size, random_state=G())
        rec.same(y, x, '%s: same generator, other variates' % what, tol=0)
        rec.check(np.unique(x).size == np.size(x),
                  '%s: draws are not independent' % what)
        z = rv.rvs(size, random_state=G())
        rec.same(z, x, '%s: rvs(size)' % what, tol=0)
        s1 = np.random.get_state()
        rec.check((state0[1] == s1[1]).all() and state0[2] == s1[2],
                  '%s: the global generator was used' % what)
        # a generator moves on
        if np.size(x) and size:
            g = G()
            a, b = (rv.rvs(size=size, random_state=g) for _ in 'ab')
            rec.check(not np.isin(a, b).any(),
                      '%s: the same variates twice' % what)
        # other kinds of generators
        for R in (np.random.RandomState, lambda s: np.random.Generator(
                np.random.PCG64(s))):
            u, v = (rv.rvs(size=size, random_state=R(3)) for _ in 'ab')
            rec.same(u, v, '%s: reproducible' % what, tol=0)
            rec.check(np.shape(u) == size, '%s: shape' % what)
    if not tail:
        for n in (1, 7, np.int64(3)):
            x = rv.rvs(size=n, random_state=G())
            rec.check(np.shape(x) == (n,), '%s: rvs(size=%d) shape' %
                      (what, n))


ARR = ((2,), (2, 1), (3,), (2, 3), (1,))


def u_arrays(rec, kind):
    vals = PARAMS[kind]
    names = NAMES[kind]

    def arr(j, shape, off):
        n = int(np.prod(shape))
        return np.array([float(vals[(i + off) % len(vals)][j])
                         for i in range(n)]).reshape(shape)

    # all parameters of the same shape; then each subset an array of its
    # own shape, others scalar
    todo = []
    for shape in ARR:
        todo.append([arr(j, shape, 0) for j in range(len(names))])
    base = dict(norm=(.5, 2.), uniform=(-4., 8.), exp=(1.,),
                dexp=(.5, .75, .25))[kind]
    mild = dict(norm=((-1, .5, 3, 7, 0, 2), (1, .5, 3, 2, .25, 1.5)),
                uniform=((-5, -4.5, 3, 0, 1, 2), (8, 9, 12, 3.5, 7, 10)),
                exp=((-1, .5, 3, -.25, 1, 2),),
                dexp=((.5, 1, 2, .25, 3, .75), (1, .5, 3, .25, 2, 4),
                      (0, .25, .5, 1, .75, .125)))[kind]
    for shapes in itertools.product(((),) + ARR, repeat=len(names)):
        if not any(shapes):
            continue
        try:
            np.broadcast_shapes(*shapes)
        except ValueError:
            continue
        if len(names) == 3 and rec.tier == 'quick' and len(
                [s for s in shapes if s]) == 3 and len(set(shapes)) > 2:
            continue
        todo.append([np.array(mild[j][:int(np.prod(s))], float).reshape(s)
                     if s else base[j] for j, s in enumerate(shapes)])
    for k, q in enumerate(todo):
        def run():
            shape = np.broadcast_shapes(*[np.shape(x) for x in q])
            what = sfmt(kind, [np.asarray(x).tolist() for x in q])
            rec.state(kind, what)
            keep = [np.array(x) for x in q]
            rv = make(kind, q)
            check_moments(rec, rv, kind, q, what)
            if k < 5 or k % (7 if rec.tier == 'quick' else 1) == 0:
                check_law(rec, rv, kind, q, what)
            if k < 5:
                sizes(rec, rv, shape, what)
            # lists give the same
            lst = make(kind, [np.asarray(x).tolist() for x in q])
            check_moments(rec, lst, kind, q, what + ' as lists')
            g = np.random.default_rng
            size = (3,) + shape
            rec.same(lst.rvs(size=size, random_state=g(1)),
                     rv.rvs(size=size, random_state=g(1)), what + ' lists',
                     tol=0)
            # a size not compatible
            bad = shape[:-1] + (shape[-1] + 1 if shape[-1] > 1 else 0,)
            if shape[-1] > 1:
                rec.raises(lambda: rv.rvs(size=(3,) + bad, random_state=g(1)),
                           what + ' incompatible size')
            for x, y in zip(q, keep):
                rec.check(np.array_equal(x, y), what + ': input modified')
        rec.case([kind, k], run)


# ---------------------------------------------------- time dependence

def tforms():
    """name -> callable of t giving the value f(t), from a python f"""
    tt = np.array([0., .5, 1., 2.])
    return dict(
        func=lambda f: (lambda t: f(t)),
        array=lambda f: (lambda t: np.asarray(f(t))),
        other=lambda f: (lambda s, unused=1: f(s)),
        process=lambda f: process(tt, x=np.array([f(t) for t in tt])),
        short=lambda f: process(c=f(.5)),
    )


def u_timedep(rec, kind):
    names = NAMES[kind]
    fs = dict(norm=(lambda t: t - 1, lambda t: 1 + t),
              uniform=(lambda t: -t, lambda t: 1 + t),
              exp=(lambda t: -.5 - t,),
              dexp=(lambda t: .25 + t, lambda t: 1/(1 + t),
                    lambda t: t/4))[kind]
    base = dict(norm=(.5, 2.), uniform=(-.5, 3.), exp=(1.,),
                dexp=(.5, .75, .25))[kind]
    times = (0., .5, 1., 2.)
    for sub in itertools.product((0, 1), repeat=len(names)):
        if not any(sub):
            rec.case([kind, 'constant'], lambda: rec.check(
                not callable(make(kind, base)), 'constant parameters'))
            continue
        for forms in itertools.product(
                *[tuple(tforms()) if s else ('const',) for s in sub]):
            def run():
                p = [tforms()[fm](f) if s else b
                     for s, f, b, fm in zip(sub, fs, base, forms)]
                y = make(kind, p)
                rec.check(callable(y), 'time-dependent: not callable')
                rec.state(kind, forms)
                for t in times + times[::-1]:
                    rec.step()
                    q = [(x(t) if callable(x) else x) for x in p]
                    yt = y(t)
                    rec.check(not callable(yt), 'y(t) is callable')
                    what = '%s %s at t=%s' % (kind, forms, t)
                    check_moments(rec, yt, kind, q, what)
                    tail = np.broadcast_shapes(*[np.shape(x) for x in q])
                    want = make(kind, [np.asarray(x) for x in q])
                    G = np.random.default_rng
                    rec.same(np.asarray(yt.rvs(size=(4,) + tail,
                                               random_state=G(2))),
                             np.asarray(want.rvs(size=(4,) + tail,
                                                 random_state=G(2))),
                             what, tol=1e-12)
                # distributions at different times are distinct objects
                y0, y1 = y(times[0]), y(times[-1])
                check_moments(rec, y0, kind,
                              [x(times[0]) if callable(x) else x for x in p],
                              'y(t1) after y(t2)')
            rec.case([kind] + list(forms), run)
    # array-valued time-dependence
    for sub in itertools.product((0, 1), repeat=len(names)):
        if not any(sub):
            continue
        for shape in ((2,), (2, 1)):
            for aslist in (0, 1):
                def arrays():
                    k = np.arange(2).reshape(shape)*.125

                    def at(f):
                        return lambda t: (
                            (np.asarray(f(t)) - k*(1 if kind == 'exp'
                                                   else -1)).tolist()
                            if aslist else np.asarray(f(t)) -
                            k*(1 if kind == 'exp' else -1))
                    p = [at(f) if s else b
                         for s, f, b in zip(sub, fs, base)]
                    y = make(kind, p)
                    rec.check(callable(y), 'not callable')
                    for t in (0., .5, 1.):
                        q = [(x(t) if callable(x) else x) for x in p]
                        check_moments(rec, y(t), kind, q, '%s %s' %
                                      (kind, sub))
                        want = make(kind, q)
                        G = np.random.default_rng
                        rec.same(y(t).rvs(size=(5,) + shape,
                                          random_state=G(2)),
                                 want.rvs(size=(5,) + shape,
                                          random_state=G(2)), 'rvs', tol=0)
                rec.case([kind, 'array', list(sub), list(shape), aslist],
                         arrays)


# ---------------------------------------------------- errors

def u_invalid(rec):
    nan = float('nan')
    bad = [('exp', (0,)), ('exp', (0.,)), ('exp', ([1, 0],)),
           ('dexp', (0, 1, .5)), ('dexp', (1, 0, .5)), ('dexp', (-1, 1, .5)),
           ('dexp', (1, -1, .5)), ('dexp', (1, 1, -.1)),
           ('dexp', (1, 1, 1.1)), ('dexp', (1, 1, nan)),
           ('dexp', ([1, -1], 1, .5)), ('dexp', (1, [1, 0], .5)),
           ('dexp', (1, 1, [.5, 2])), ('norm', (0, -1)),
           ('norm', (0, [1, -1])), ('uniform', (1, 0)),
           ('uniform', ([0, 3], [1, 2])), ('exp', (nan,)), ('norm', (0, nan)),
           ('uniform', (0, nan)), ('dexp', (nan, 1, .5)),
           ('dexp', (1, nan, .5)), ('exp', ('a',)), ('exp', (None,)),
           ('norm', (None, 1)), ('dexp', (1, 1, None)),
           ('dexp', ([1, 2], [1, 2, 3], .5)), ('norm', ([1, 2], [1, 2, 3])),
           ('uniform', ([1, 2], [5, 6, 7]))]
    for kind, p in bad:
        def use(y):
            sh = np.broadcast_shapes(*[np.shape(x) for x in p])
            return y.rvs(size=(3,) + sh,
                         random_state=np.random.default_rng(1))
        rec.case(['invalid', kind, str(p)], lambda: rec.raises(
            lambda: use(make(kind, p)), 'invalid parameters of %s_rv: %s'
            % (kind, p)))
        rec.case(['invalid at t', kind, str(p)], lambda: rec.raises(
            lambda: use(make(kind, [lambda t, x=x: x for x in p])(1.)),
            'invalid parameters of %s_rv at t: %s' % (kind, p)))
    for k, f in enumerate((None, 1, 'f', [1])):
        rec.case(['rvmap', k], lambda: rec.raises(
            lambda: rvmap(f, norm_rv()).rvs(
                size=3, random_state=np.random.default_rng(1)),
            'rvmap of a %r' % (f,)))
    for k, y in enumerate((None, 1, 'f', [1])):
        rec.case(['rvmap y', k], lambda: rec.raises(
            lambda: rvmap(lambda x: x, y).rvs(
                size=3, random_state=np.random.default_rng(1)),
            'rvmap over %r' % (y,)))


# ---------------------------------------------------- rvmap

def ykinds():
    class User:
        def rvs(self, size, random_state=None):
            return random_state.random(size)
    return [
        ('norm', lambda: norm_rv(1, 2), 0, ()),
        ('arrays', lambda: exp_rv([1., -2.]), 0, (2,)),
        ('scipy', lambda: scipy.stats.gamma(2.), 0, ()),
        ('user', User, 0, ()),
        ('timedep', lambda: double_exp_rv(lambda t: 1 + t, 2, .25), 1, ()),
        ('process', lambda: uniform_rv(process((0., 4.), x=(-1., -9.)), 3),
         1, (1,)),
        ('user timedep', lambda: (lambda s: scipy.stats.norm(s, 1)), 1, ()),
        ('array timedep', lambda: norm_rv(lambda t: [t, 2*t], [1, 2]), 1,
         (2,)),
    ]


def fkinds():
    class Fun:
        def __call__(self, y):
            return y - 1

    class FunT:
        def __call__(self, t, y):
            return y - t

        def method(self, s, y):
            return y*(1 + s)

        def plain(self, y):
            return y*3
    return [
        ('square', lambda y: y*y, 0),
        ('other name', lambda value: value + 1, 0),
        ('two', lambda y, k=2: y*k, 0),
        ('t', lambda t, y: y + t, 1),
        ('s', lambda s, x: x*(s + 1), 1),
        ('t default', lambda t, y, k=3: y*k + t, 1),
        ('object', Fun(), 0),
        ('object t', FunT(), 1),
        ('method', FunT().method, 1),
        ('plain method', FunT().plain, 0),
        ('np.exp', np.exp, 0),
        ('np.abs', np.abs, 0),
        ('abs', abs, 0),
        ('np.floor', np.floor, 0),
        ('in place', inplace, 0),
    ]


def inplace(y):
    y += 1
    return y


def u_rvmap(rec, k):
    yname, mk, ytime, tail = ykinds()[k]
    G = np.random.default_rng

    def sample(y, t, size):
        yt = y(t) if callable(y) else y
        return np.asarray(yt.rvs(size=size, random_state=G(9)))

    for (fn, f, ft), (gn, g, gt) in itertools.product(
            fkinds(), [(None, None, 0)] + fkinds()):
        def run():
            y = mk()
            try:
                z = rvmap(f, y)
                if g is not None:
                    z = rvmap(g, z)
            except ValueError as e:
                if 'signature' in str(e):    # builtins without a signature
                    rec.count('no signature')
                    return
                raise
            timed = bool(ytime or ft or gt)
            rec.check(callable(z) == timed, 'rvmap(%s, %s): callable is %s'
                      % (fn, yname, callable(z)))
            rec.state(yname, fn, gn)
            for t in (0., 1.5, .5):
                for lead in ((4,), (2, 3)):
                    rec.step()
                    x = sample(y, t, lead + tail).copy()
                    w = f(t, x) if ft else f(x)
                    if g is not None:
                        w = g(t, w) if gt else g(w)
                    rec.same(sample(z, t, lead + tail), w,
                             'rvmap(%s, rvmap(%s, %s)) at t=%s' %
                             (gn, fn, yname, t), tol=1e-12)
                # the variate mapped is unaffected
            if timed:
                a, b = z(0.), z(1.5)
                x = sample(y, 0., (4,) + tail).copy()
                w = f(0., x) if ft else f(x)
                if g is not None:
                    w = g(0., w) if gt else g(w)
                rec.same(sample(a, 0., (4,) + tail), w,
                         'z(t1) used after z(t2) is made', tol=1e-12)
            # through a source: jumps are of the mapped law
            if g is None and tail in ((), (1,)):
                one = jumps(z)
                two = jumps((lambda t: rvmap((lambda v: f(t, v)) if ft else f,
                                             y(t) if callable(y) else y))
                            if timed else rvmap(f, y))
                rec.same(one, two, 'rvmap in cpoisson_source', tol=1e-12)
        rec.case([yname, fn, gn], run)


def jumps(y):
    dn = sdepy.cpoisson_source(paths=5, y=y, lam=3.,
                               rng=np.random.default_rng(4))
    return np.stack([dn(0., .5), dn(.5, .5), dn(1., 1.)])
