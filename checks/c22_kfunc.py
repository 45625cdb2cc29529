"""C22: objects with managed parameters (kfunc) and shortcuts."""
import inspect
import itertools
import subprocess
import sys
import textwrap
import warnings
import numpy as np
import sdepy
import sdepy.analytical
import sdepy.infrastructure
import sdepy.integration
from sdepy import kfunc, iskfunc

PROPERTY = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all sequences of creation, derivation and evaluation of '
             'kfunc objects (classes, subclasses, functions, all shortcuts), against a '
             'reference model made of a merged dictionary and a plain call')
LEVEL_NOTE = ('all sequences of up to 3 (thorough: 4) operations, each by any object so far, '
              'with all subsets of 2-3 parameters and two values each, variables passed by '
              'position or name; 14 classes and functions, 6 sources with and without memory, '
              'all processes and all analytical functions exported as shortcuts; 4 library '
              'configurations; 20 wrongly formed definitions and calls.'
              ' Any value of a parameter (None included) by identity.')
RULE = ('a state is (object kind, parameters of all live objects); a trace is one sequence of '
        'operations, with params and behaviour of all objects observed after each')


# ------------------------------------------------ sample classes

def samples():
    """name -> (kfunc, plain callable(params, var, kwvar), parameters,
    forms of variables)"""
    out = {}

    class Plain:
        def __init__(self, *, a=1, b=2, c=None):
            self.a, self.b, self.c = a, b, c

        def __call__(self, x=11, y=22):
            return (x, y, self.a, self.b, self.c)

    def plain_of(cls):
        def f(params, var, kw):
            return cls(**params)(*var, **kw)
        return f

    V = (((5,), {}), ((5, 6), {}), ((), dict(x=5)), ((), dict(y=7, x=5)),
         ((5,), dict(y=8)), ((), dict(y=9)))
    P = ('a', 'b', 'c')
    out['class'] = kfunc(Plain), plain_of(Plain), P, V
    out['twice'] = kfunc(kfunc(Plain)), plain_of(Plain), P, V

    class Required:
        def __init__(self, *, a, b=2, **more):
            self.a, self.b, self.more = a, b, more

        def __call__(self, x, *, y=0, z=1):
            return (x, y, z, self.a, self.b, tuple(sorted(
                self.more.items())))
    out['required'] = kfunc(Required), plain_of(Required), P, (
        ((5,), {}), ((), dict(x=5)), ((5,), dict(y=7)),
        ((5,), dict(z=7, y=1)))

    class Sub0(Plain):
        def __call__(self, x=11, y=22):
            return ('sub',) + super().__call__(x, y)
    out['subclass'] = kfunc(Sub0), plain_of(Sub0), P, V

    # a kfunc subclass of a kfunc
    Base = kfunc(Plain)

    @kfunc
    class Init(Base):
        def __init__(self, *, a=3, b=2, c='c', d=0):
            self.d = d
            super().__init__(a=a, b=b, c=c)

        def __call__(self, x=11, y=22):
            return ('init', self.d) + super().__call__(x, y=y)

    def init_plain(params, var, kw):
        p = {**dict(a=3, b=2, c='c', d=0), **params}
        d = p.pop('d')
        return ('init', d) + Plain(**p)(*var, **kw)
    out['kfunc subclass'] = Init, init_plain, ('a', 'c', 'd'), V

    @kfunc
    class Call(Base):
        def __call__(self, x=11, z=33):
            return ('call', z) + super().__call__(x)

    def call_plain(params, var, kw):
        v = dict(zip(('x', 'z'), var), **kw)
        z = v.get('z', 33)
        return ('call', z) + Plain(**params)(v.get('x', 11))
    out['other variables'] = Call, call_plain, P, (
        ((5,), {}), ((5, 6), {}), ((), dict(x=5)), ((), dict(z=7)))

    # a class that reads its own params while initializing
    class Reads:
        def __init__(self, *, a=1, b=2, c=3):
            self.abc = (a, b, c)
            if iskfunc(self):
                self.seen = dict(self.params)
            else:
                self.seen = dict(a=a, b=b, c=c)

        def __call__(self, x):
            return (x, self.abc, tuple(sorted(self.seen.items())))
    out['reads params'] = kfunc(Reads), plain_of(Reads), P, (
        ((5,), {}), ((), dict(x=5)))

    # a recursive class
    class Rec:
        def __init__(self, *, a=1, b=2, c=3):
            self.a, self.b, self.c = a, b, c

        def __call__(self, n):
            return () if n == 0 else self(n - 1) + ((n, self.a, self.b,
                                                     self.c),)
    out['recursive'] = kfunc(Rec), plain_of(Rec), P, (
        ((3,), {}), ((), dict(n=2)))

    # slots, properties and class attributes
    class Attr:
        k = 100

        def __init__(self, *, a=1, b=2, c=3):
            self._a, self.b, self.c = a, b, c

        @property
        def a(self):
            return self._a

        def __call__(self, x):
            return (x, self.k, self.a, self.b, self.c)
    out['properties'] = kfunc(Attr), plain_of(Attr), P, (
        ((3,), {}), ((), dict(x=2)))

    # functions
    def f1(x, *, a=1, b=2, c=None):
        return (x, a, b, c)

    def f2(x, y=0, *, a=1, b=2, c=None):
        return (x, y, a, b, c)

    def f3(x, *, a, b=2, **more):
        return (x, a, b, tuple(sorted(more.items())))

    def f4(*x, a=1, b=2, c=0):
        return (x, a, b, c)

    def f5(x, /, y=5, *, z=0, a=1, b=2, c=0):
        return (x, y, z, a, b, c)

    def plain_fun(f):
        return lambda params, var, kw: f(*var, **kw, **params)
    X = (((5,), {}), ((), dict(x=5)))
    out['function'] = kfunc(nvar=1)(f1), plain_fun(f1), P, X
    out['function 2'] = kfunc(nvar=2)(f2), plain_fun(f2), P, X + (
        ((5, 6), {}), ((), dict(y=7, x=5)), ((5,), dict(y=8)))
    out['function more'] = kfunc(nvar=1)(f3), plain_fun(f3), P, X
    out['function star'] = kfunc(nvar=1)(f4), plain_fun(f4), P, (
        ((5,), {}), ((5, 6, 7), {}))
    out['function kw'] = kfunc(nvar=3)(f5), plain_fun(f5), P, (
        ((5,), {}), ((5, 6), {}), ((5,), dict(z=2)), ((5,), dict(y=8, z=1)))
    return out


NAMES = ('class', 'twice', 'required', 'subclass', 'kfunc subclass',
         'other variables', 'reads params', 'recursive', 'properties',
         'function', 'function 2', 'function more', 'function star',
         'function kw')


def default_params(name):
    return dict(
        {'required': dict(a=inspect._empty, b=2),
         'kfunc subclass': dict(a=3, b=2, c='c', d=0),
         'reads params': dict(a=1, b=2, c=3),
         'recursive': dict(a=1, b=2, c=3),
         'properties': dict(a=1, b=2, c=3),
         'function more': dict(a=inspect._empty, b=2),
         'function star': dict(a=1, b=2, c=0),
         'function kw': dict(a=1, b=2, c=0),
         }.get(name, dict(a=1, b=2, c=None)))


def value(p, step, alt):
    return '%s%d%s' % (p, step, "'" if alt else '')


def unit_samples(rec, u):
    name = u['name']
    K, plain, pnames, forms = samples()[name]
    need = {'a'} if name in ('required', 'function more') else set()
    depth = 3 if rec.tier == 'quick' else 4
    subsets = [s for r in range(len(pnames) + 1)
               for s in itertools.combinations(pnames, r)]

    def grow(seq, nobj):
        if seq:
            yield seq
        if len(seq) == depth:
            return
        for src in range(-1, nobj):
            subs = subsets if len(seq) < 2 else subsets[:len(pnames) + 1]
            for s in subs:
                if src >= 0 and not s:
                    continue     # evaluates
                if src < 0 and not need <= set(s) and \
                        name == 'required':
                    continue
                if src < 0 and seq and len(s) > 1:
                    continue
                yield from grow(seq + ((src, s),), nobj + 1)
    for seq in grow((), 0):
        rec.case([name, seq], lambda: program(rec, name, K, plain, pnames,
                                              forms, need, seq))


def program(rec, name, K, plain, pnames, forms, need, seq):
    """the objects created by seq, all observed at the end of seq and (the
    sequences being prefix closed) after each step"""
    objs, params = [], []
    for j, (src, s) in enumerate(seq):
        new = {p: value(p, j, False) for p in s}
        rec.step()
        if src < 0:
            o, p = K(**new), new
        else:
            o, p = objs[src](**new), {**params[src], **new}
        rec.check(iskfunc(o) and isinstance(o, K) and
                  all(o is not x for x in objs),
                  '%s: not a new instance' % (seq,))
        objs.append(o)
        params.append(p)
    rec.state(name, [sorted(p.items()) for p in params])
    for k, (o, p) in enumerate(zip(objs, params)):
        msg = '%s, %s, object no. %d' % (name, seq, k)
        full = {**default_params(name), **p}
        got = o.params
        rec.check(got == full, '%s: params %r, expected %r' % (
            msg, got, full))
        got['a'] = 'changed'
        got['zzz'] = 0
        rec.check(o.params == full, msg + ': params is not a copy')
        ok = need <= set(p)
        for var, kw in forms:
            if ok:
                rec.check(o(*var, **kw) == plain(p, var, kw),
                          '%s: call by %s, %s' % (msg, var, kw))
            else:
                rec.raises(lambda: o(*var, **kw), msg + ': missing params')
            for s in [(q,) for q in pnames] + [pnames]:
                new = {q: value(q, 9, True) for q in s}
                merged = {**p, **new}
                rec.step()
                if need <= set(merged):
                    r = o(*var, **kw, **new)
                    w = plain(merged, var, kw)
                    rec.check(r == w, '%s: call by %s, %s, %s: %r, '
                              'expected %r' % (msg, var, kw, new, r, w))
            if k == len(objs) - 1 and ok:
                # all at once
                rec.check(K(*var, **kw, **p) == plain(p, var, kw),
                          '%s: creation and call by %s, %s' % (msg, var, kw))
        rec.check(o.params == full, msg + ': params altered by calls')
        if name not in ('required', 'recursive', 'properties', 'other',
                        'reads params') and not name.startswith('function') \
                and name != 'other variables':
            rec.check(o() == plain(p, (), {}), msg + ': call by no variables')
        for attr in ('a', 'b', 'c', 'd'):
            if not name.startswith('function') and attr in full \
                    and name != 'reads params' and \
                    full[attr] is not inspect._empty and \
                    hasattr(o, attr):
                rec.check(getattr(o, attr) == full[attr],
                          '%s: attribute %s' % (msg, attr))


# ------------------------------------------------ any parameter value

def special():
    """values that may be mistaken for a missing one, or be mishandled by
    comparisons, hashing and copying"""
    return [None, 0, 0., False, True, 1, '', (), [], {}, set(), np.nan,
            np.array(0), np.array([]), np.array([1., 2.]), np.array(None),
            [1, [2]], {'a': 1}, object(), Ellipsis, NotImplemented,
            lambda: 0, int, sdepy.process(c=1.), default_params]


def unit_values(rec, u):
    """sequences of settings of one parameter (with another one set before
    or after), the very objects passed being received"""
    V = special()
    forms = {'class': kfunc(type('Cls', (), dict(
        __init__=values_init, __call__=values_call)))}

    @kfunc(nvar=1)
    def fun(x, *, a=1, b=2):
        return [x, a, b]
    forms['function'] = fun
    for name, K in forms.items():
        for i, j in itertools.product(range(len(V)), repeat=2):
            for form in range(4):
                rec.case([name, i, j, form], lambda: values(
                    rec, name, K, V[i], V[j], form, i, j))


def values_init(self, *, a=1, b=2):
    self.ab = a, b


def values_call(self, x):
    return [x, *self.ab]


def values(rec, name, K, v, w, form, i, j):
    rec.state(name, i, j, form)
    msg = '%s, values no. %d and %d, %s' % (name, i, j, form)

    def check(o, a, b):
        rec.step()
        for x in (w, v, 'x'):
            got = o(x)
            rec.check(got[0] is x and got[1] is a and got[2] is b,
                      lambda: '%s: %r, expected %r' % (msg, got, [x, a, b]))
            got = o(x, a=w)
            rec.check(got[0] is x and got[1] is w and got[2] is b,
                      lambda: '%s: %r, expected %r' % (msg, got, [x, w, b]))
        q = o.params
        rec.check(set(q) == {'a', 'b'} and q['a'] is a and q['b'] is b,
                  lambda: '%s: params %r' % (msg, q))
    o = K(a=v)
    check(o, v, 2)
    if form == 0:
        o1 = o(a=w)
        check(o1, w, 2)
        o2 = o1(a=v)
    elif form == 1:
        o1 = o(b=w)
        check(o1, v, w)
        o2 = o1(b=2)
    elif form == 2:
        o1 = o(a=1)
        check(o1, 1, 2)
        o2 = o1(b=w)(a=v)(b=2)
    else:
        o1 = o(a=w, b=v)
        check(o1, w, v)
        o2 = o1(b=w)
        check(o2, w, w)
        o2 = o2(a=v)(b=2)
    check(o2, v, 2)
    check(o, v, 2)
    rec.check(all(x is not y for x, y in itertools.combinations(
        (o, o1, o2), 2)), msg + ': same instance')


# ------------------------------------------------ errors

def unit_errors(rec, u):
    def case(name, thunk, exc=Exception):
        def run():
            rec.state(name)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                rec.raises(thunk, name, exc)
        rec.case([name], run)

    class I:
        def __init__(self):
            pass

    class C:
        def __call__(self):
            pass

    class N:
        def __new__(cls):
            return object.__new__(cls)

        def __init__(self, *, a=1):
            pass

        def __call__(self, x):
            pass

    class NewSub(N):
        pass

    class Pos:
        def __init__(self, a=1):
            pass

        def __call__(self, x):
            pass

    class PosMix:
        def __init__(self, a, *, b=1):
            pass

        def __call__(self, x):
            pass

    class Star:
        def __init__(self, *a, b=1):
            pass

        def __call__(self, x):
            pass

    class Overlap:
        def __init__(self, *, a=1, x=0):
            pass

        def __call__(self, x):
            pass

    class OverlapKw:
        def __init__(self, *, a=1):
            pass

        def __call__(self, x, *, a=2):
            pass

    class OverlapSub(kfunc(type('B', (), dict(
            __init__=lambda self, *, a=1: None,
            __call__=lambda self, x: None)))):
        def __call__(self, a):
            pass
    for cls in (I, C, N, NewSub, Pos, PosMix, Star, Overlap, OverlapKw,
                OverlapSub):
        case('class %s' % cls.__name__, lambda: kfunc(cls), TypeError)
        case('class %s with nvar' % cls.__name__,
             lambda: kfunc(nvar=1)(cls), SyntaxError)

    def f(x, y=0, *, a=1):
        return x, y, a

    def g(x, a=1, *, b=2):
        return x, a, b

    def h(x, *y, a=2):
        return x, y, a

    def m(**kw):
        return kw
    case('kfunc(f)', lambda: kfunc(f), SyntaxError)
    case('kfunc()', lambda: kfunc(), SyntaxError)
    case('kfunc(f, nvar)', lambda: kfunc(f, nvar=1), SyntaxError)
    case('kfunc(cls, nvar)', lambda: kfunc(I, nvar=1), SyntaxError)
    case('kfunc(instance)', lambda: kfunc(1), SyntaxError)
    for n in (0, -1, 4, 10):
        case('nvar=%d' % n, lambda: kfunc(nvar=n)(f), ValueError)
    case('nvar=1 f', lambda: kfunc(nvar=1)(f), TypeError)
    case('nvar=1 g', lambda: kfunc(nvar=1)(g), TypeError)
    case('nvar=1 h', lambda: kfunc(nvar=1)(h), TypeError)
    case('nvar=1 m', lambda: kfunc(nvar=1)(m), ValueError)
    case('nvar=spam', lambda: kfunc(nvar='spam')(f))

    def calls():
        S = samples()
        for name, (K, plain, pnames, forms) in S.items():
            if name in ('required', 'function more'):
                rec.raises(lambda: K(b=1)(5), name + ' missing', TypeError)
                continue
            rec.state('wrong calls', name)
            o = K(a=5)
            if not name.startswith('function'):
                rec.raises(lambda: K(zzz=1), name + ' creation', TypeError)
                rec.raises(lambda: o(zzz=1), name + ' derivation', TypeError)
            rec.raises(lambda: o(zzz=1)(5), name + ' derivation', TypeError)
            rec.raises(lambda: K(5, zzz=1), name + ' evaluation', TypeError)
            rec.raises(lambda: o(5, zzz=1), name + ' evaluation', TypeError)
            if name != 'function star':
                rec.raises(lambda: o(1, 2, 3, 4), name + ' too many',
                           TypeError)
                rec.raises(lambda: K(1, 2, 3, 4), name + ' too many',
                           TypeError)
            var, kw = forms[0]
            rec.check(o(*var, **kw) == plain(dict(a=5), var, kw) and
                      o.params == {**default_params(name), 'a': 5},
                      name + ': altered by failed calls')
    rec.case(['wrong calls'], calls)

    def misc():
        S = samples()
        for name, (K, plain, pnames, forms) in S.items():
            rec.check(iskfunc(K), name + ' is a kfunc')
        rec.check(not iskfunc(f) and not iskfunc(I) and not iskfunc(I()),
                  'iskfunc')
        F = kfunc(nvar=2)(f)
        rec.check(F.__name__ == 'f' and F.__module__ == f.__module__,
                  'attributes of the function')

        class D:
            """doc of D"""
            def __init__(self, *, a=1):
                """doc of init"""
            def __call__(self, x):
                """doc of call"""
        KD = kfunc(D)
        rec.check(issubclass(KD, D) and KD.__name__ == 'D' and
                  KD.__doc__ == 'doc of D' and
                  KD.__call__.__doc__ == 'doc of call', 'attributes')
        rec.check(not iskfunc(D), 'the class wrapped was altered')
        rec.check(type(D()) is D, 'the class wrapped was altered')
    rec.case(['misc'], misc)

    def undecorated():
        # a subclass left undecorated behaves as a plain class, and warns
        for name, (K, plain, pnames, forms) in samples().items():
            if name.startswith('function') or not isinstance(K, type):
                continue
            if '__call__' not in vars(K.__mro__[1]) or \
                    'read' in name or 'unction' in name:
                continue
            rec.state('undecorated', name)
            U = type('U', (K,), {})
            for params in ({'a': 5}, {'a': 7, 'b': 8}):
                with warnings.catch_warnings(record=True) as ww:
                    warnings.simplefilter('always')
                    o = U(**params)
                rec.check(any(issubclass(w.category, RuntimeWarning)
                              for w in ww), name + ': no warning')
                rec.check(type(o) is U, name + ': class of the instance')
            rec.check(K(a=5)(*forms[0][0], **forms[0][1]) ==
                      plain(dict(a=5), *forms[0]), name + ': altered')
    rec.case(['undecorated'], undecorated)


# ------------------------------------------------ shortcuts

SHORT = dict(
    dw='wiener_source', dn='poisson_source', dj='cpoisson_source',
    odd_dw='odd_wiener_source', even_dn='even_poisson_source',
    even_dj='even_cpoisson_source', true_dw='true_wiener_source',
    true_dn='true_poisson_source', true_dj='true_cpoisson_source',
    wiener='wiener_process', lognorm='lognorm_process',
    oruh='ornstein_uhlenbeck_process', hwff='hull_white_process',
    hw1f='hull_white_1factor_process', cir='cox_ingersoll_ross_process',
    heston='heston_process', heston_xy='full_heston_process',
    jumpdiff='jumpdiff_process', mjd='merton_jumpdiff_process',
    kou='kou_jumpdiff_process')

COMMON = dict(paths=(2, 4), vshape=((), (2,)))
PARAMS = dict(
    dw=dict(paths=(2, 4), vshape=((2,), (3, 2)), rho=(.5, None),
            dtype=(np.float32, None)),
    dn=dict(COMMON, lam=(3., 40.)), dj=dict(COMMON, lam=(3., 9.)),
    odd_dw=COMMON, even_dn=dict(COMMON, lam=(3., 40.)),
    even_dj=dict(COMMON, lam=(3., 9.)),
    true_dw=dict(COMMON, t0=(0., 1.), z0=(0., 5.)),
    true_dn=dict(COMMON, lam=(3., 40.)),
    true_dj=dict(COMMON, lam=(3., 9.)),
    wiener=dict(COMMON, x0=(1., 3.), mu=(.5, -2.), sigma=(2., .1)),
    lognorm=dict(COMMON, x0=(1., 3.), mu=(.5, -2.), sigma=(.2, .1)),
    oruh=dict(COMMON, x0=(1., 3.), k=(.5, 2.), theta=(2., .1)),
    hwff=dict(paths=(2, 4), x0=(1., 3.), factors=(2, 3), sigma=(.2, .1)),
    hw1f=dict(COMMON, x0=(1., 3.), k=(.5, 2.), sigma=(2., .1)),
    cir=dict(COMMON, x0=(1., 3.), k=(.5, 2.), xi=(2., .1)),
    heston=dict(paths=(2, 4), x0=(1., 3.), y0=(.5, 2.), xi=(2., .1)),
    heston_xy=dict(paths=(2, 4), x0=(1., 3.), y0=(.5, 2.), xi=(2., .1)),
    jumpdiff=dict(COMMON, x0=(1., 3.), lam=(5., 2.), sigma=(2., .1)),
    mjd=dict(paths=(2, 4), x0=(1., 3.), lam=(5., 2.), a=(.2, .1),
             b=(.5, .7)),
    kou=dict(paths=(2, 4), x0=(1., 3.), lam=(5., 2.), a=(.2, .1),
             pa=(.3, .9)))
GENERAL = dict(
    steps=(None, 5), i0=(0, 1), getinfo=(False, True), dtype=(np.float32,))


def fresh(seed=7):
    return np.random.default_rng(seed)


def evaluate(o, form, source, **kw):
    """evaluation of a source or process, in some form of its variables"""
    if source:
        if form == 0:
            r = o(0., .5, **kw)
        elif form == 1:
            r = o(t=0., dt=.5, **kw)
        else:
            r = o(0., dt=.5, **kw)
    else:
        tt = np.array([0., .25, 1.])
        r = o(tt, **kw) if form == 0 else o(timeline=tt, **kw)
    if isinstance(r, (tuple, list)):
        return [np.array(x) for x in r]
    return [np.array(r)]


def same_values(x, y):
    return len(x) == len(y) and all(
        p.shape == q.shape and p.dtype == q.dtype and
        np.array_equal(p, q, equal_nan=True) for p, q in zip(x, y))


def unit_shortcuts(rec, u):
    short = u['name']
    K = getattr(sdepy, short)
    cls = getattr(sdepy.integration if hasattr(
        sdepy.integration, SHORT[short]) and short not in (
        'dw', 'dn', 'dj') else sdepy.infrastructure, SHORT[short])
    source = short[-2:] in ('dw', 'dn', 'dj')
    rec.check(iskfunc(K) and not iskfunc(cls) and issubclass(K, cls),
              '%s is not a kfunc of %s' % (short, SHORT[short]))
    P = dict(PARAMS[short])
    if not source and rec.tier != 'quick':
        P.update(GENERAL)
    depth = 2 if rec.tier == 'quick' else 3
    items = [(k, v) for k, vs in P.items() for v in range(len(vs))]
    steps = [()] + [(i,) for i in items] + [
        (i, j) for i, j in itertools.combinations(items, 2) if i[0] != j[0]]
    one = [s for s in steps if len(s) <= 1]
    for s0 in steps:
        for s1 in (one if rec.tier == 'quick' else steps):
            deep = depth == 3 and len(s0) < 2 and len(s1) < 2
            for s2 in one if deep else [()]:
                rec.case([short, s0, s1, s2],
                         lambda: derive(rec, short, K, cls, source, P,
                                        (s0, s1, s2)))

    def general():
        # parameters of all integrators, one at a time
        if source:
            return
        for k, vs in GENERAL.items():
            for v in vs:
                a = K(**{k: v})
                rec.state(short, k, str(v))
                rec.check(a.params[k] == v, '%s: params' % k)
                base = evaluate(cls(rng=fresh(), **{k: v}), 0, source)
                rec.check(same_values(evaluate(a, 0, source, rng=fresh()),
                                      base) and
                          same_values(evaluate(K(rng=fresh()), 0, source,
                                               **{k: v}), base),
                          '%s=%r: result' % (k, v))
                rec.step(3)
    rec.case([short, 'general'], general)

    def errors():
        rec.raises(lambda: K(zzz=1), short + ' creation', TypeError)
        o = K()
        before = repr(sorted(o.params))
        rec.raises(lambda: o(zzz=1), short + ' derivation', TypeError)
        rec.raises(lambda: evaluate(o, 0, source, zzz=1),
                   short + ' evaluation', TypeError)
        rec.check(repr(sorted(o.params)) == before, 'params altered')
    rec.case([short, 'errors'], errors)


def derive(rec, short, K, cls, source, P, steps):
    objs, merged = [], {}
    all_params = []
    for j, s in enumerate(steps):
        new = {k: P[k][v] for k, v in s}
        if j and not new:
            continue
        merged = {**merged, **new}
        try:
            cls(**merged)
        except Exception as e:
            rec.raises(lambda: K(**new) if j == 0 else objs[-1](**new),
                       '%s, %s' % (short, steps), type(e))
            break
        o = K(**new) if j == 0 else objs[-1](**new)
        objs.append(o)
        all_params.append(dict(merged))
        rec.step()
    rec.state(short, sorted(map(repr, merged.items())))
    if 'rho' in merged and merged.get('vshape') == (2,):
        pass
    for k, (o, p) in enumerate(zip(objs, all_params)):
        msg = '%s, %s, object no. %d' % (short, steps, k)
        try:
            want = evaluate(cls(rng=fresh(), **p), 0, source)
        except Exception as e:
            rec.raises(lambda: evaluate(o, 0, source, rng=fresh()), msg)
            continue
        for form in (0, 1):
            rec.step()
            got = evaluate(o, form, source, rng=fresh())
            if not rec.check(same_values(got, want),
                             '%s: differs from plain call' % msg):
                return
        # stored generator, creation and evaluation at once
        rec.check(same_values(evaluate(o(rng=fresh()), 1, source), want),
                  msg + ' (stored generator): differs from plain call')
        rec.check(same_values(evaluate(K, 0, source, rng=fresh(), **p),
                              want), msg + ': all at once')
        got = o.params
        for name, v in p.items():
            rec.check(same_param(got.get(name), v),
                      '%s: params[%r] is %r, expected %r' % (
                          msg, name, got.get(name), v))
        ref = K(**p).params
        rec.check(set(ref) == set(got) and all(
            same_param(got[n], ref[n]) for n in ref if not callable(ref[n])
            and n not in ('dw', 'dj', 'dn')),
            '%s: params %r, expected %r' % (msg, got, ref))


def same_param(x, y):
    try:
        return bool(x is y or np.array_equal(x, y)) or type(x) is type(y) \
            and hasattr(x, '__dict__')
    except Exception:
        return x == y


# ------------------------------------------------ analytical functions

A1 = ('wiener_mean wiener_var wiener_std lognorm_mean lognorm_var '
      'lognorm_std oruh_mean oruh_var oruh_std hw1f_mean hw1f_var hw1f_std '
      'hw2f_mean hw2f_var hw2f_std cir_mean cir_var cir_std heston_log_mean '
      'heston_log_var heston_log_std mjd_mean kou_mean').split()
A2 = ('wiener_pdf wiener_cdf wiener_chf lognorm_pdf lognorm_cdf '
      'lognorm_log_chf oruh_pdf oruh_cdf hw1f_pdf hw1f_cdf hw2f_pdf hw2f_cdf '
      'cir_pdf heston_log_chf heston_log_pdf mjd_log_chf mjd_log_pdf '
      'kou_log_chf kou_log_pdf bsd1d2 bscall bscall_delta bsput '
      'bsput_delta').split()
SLOW = ('heston_log_pdf', 'mjd_log_pdf', 'kou_log_pdf', 'cir_pdf')
AVALS = dict(x0=(1.2, 2.), mu=(.1, -.2), sigma=(.4, .3), k=(2., .7),
             theta=(.5, 1.1), xi=(.3, .5), rho=(-.5, .2), y0=(.8, .5),
             lam=(1.5, .6), a=(.2, .4), b=(.3, .15), pa=(.4, .7),
             r=(.03, .1), q=(.02, .06))
A2FACT = dict(sigma=((.4, .3), (.2, .5)), k=((2., .5), (1., .7)),
              x0=((1.2, .5), (2., .7)), theta=((.5, .1), (1.1, .7)))


def unit_analytical(rec, u):
    for name in u['names']:
        K = getattr(sdepy, name)
        f = getattr(sdepy.analytical, name)
        if iskfunc(f):
            f = f.__wrapped__
        sig = inspect.signature(f).parameters
        var = [k for k, p in sig.items() if p.kind != p.KEYWORD_ONLY]
        par = [k for k, p in sig.items() if p.kind == p.KEYWORD_ONLY]
        rec.check(iskfunc(K) and len(var) == (1 if name in A1 else 2),
                  '%s: variables %s' % (name, var))
        par = [k for k in par if k in AVALS]
        rec.count('parameters of analytical functions', len(par))
        sub = [()] + [(k,) for k in par] + list(
            itertools.combinations(par, 2))
        for s0 in sub:
            for s1 in [()] + [(k,) for k in par]:
                for last in [()] + [(k,) for k in par]:
                    n = len(s0) + len(s1) + len(last)
                    if rec.tier == 'quick' and n > 3:
                        continue
                    if name in SLOW and n > 1 + (rec.tier != 'quick'):
                        continue
                    rec.case([name, s0, s1, last],
                             lambda: analytical(rec, name, K, f, var, sig,
                                                s0, s1, last))


def analytical(rec, name, K, f, var, sig, s0, s1, last):
    rec.state(name, s0, s1, last)
    vals = A2FACT if name.startswith('hw2f') else {}

    def pick(s, v):
        d = {k: vals.get(k, AVALS[k])[v] for k in s}
        return {k: np.array(x) if isinstance(x, tuple) else x
                for k, x in d.items()}
    o = K(**pick(s0, 0))
    p0 = o.params
    merged = pick(s0, 0)
    if s1:
        o1 = o(**pick(s1, 1))
        merged.update(pick(s1, 1))
    else:
        o1 = o
    final = {**merged, **pick(last, 0)}
    t = np.array([.5, 2.])
    args = (t,) if len(var) == 1 else (
        (1.3, t) if not name.endswith(('chf',)) and not name.startswith('bs')
        else (t, .7))
    # (t, x), (t, u), (K, T): scalars or arrays as the formula takes them
    if len(var) == 2:
        args = (.7, np.array([.5, 1.3]))
    try:
        want = f(*args, **final)
    except Exception as e:
        rec.raises(lambda: o1(*args, **pick(last, 0)), name, type(e))
        return
    msg = '%s, %s, %s, %s' % (name, s0, s1, last)
    rec.step(3)
    for got in (o1(*args, **pick(last, 0)),
                o1(**dict(zip(var, args)), **pick(last, 0)),
                o1(args[0], **dict(zip(var[1:], args[1:])),
                   **pick(last, 0)),
                K(*args, **final)) + (
                    (o1(*args),) if not last else
                    (o1(**pick(last, 0))(*args),)):
        rec.same(np.array(got), np.array(want), msg, 0)
    rec.check(repr(o.params) == repr(p0), msg + ': params altered')
    d = {k: p.default for k, p in sig.items() if p.kind == p.KEYWORD_ONLY}
    rec.check(repr(sorted(o1.params.items(), key=str)) == repr(sorted(
        {**d, **merged}.items(), key=str)), msg + ': params')


# ------------------------------------------------ library configuration

def unit_config(rec, u):
    code = '''
        import sys, types, os
        sys.path.insert(0, %r)
        path = os.path.join(%r, 'sdepy', '_config.py')
        m = types.ModuleType('sdepy._config')
        exec(open(path).read(), vars(m))
        m.KFUNC = %r
        sys.modules['sdepy._config'] = m
        try:
            import sdepy
        except ValueError:
            print('ValueError')
            sys.exit()
        short, full, ana = %r
        print(''.join('01'[sdepy.iskfunc(getattr(sdepy, k))]
              for k in short),
              ''.join('01'[sdepy.iskfunc(getattr(sdepy, k))]
              for k in full),
              ''.join('01'[sdepy.iskfunc(getattr(sdepy, k))]
              for k in ana),
              all(issubclass(getattr(sdepy, s), getattr(sdepy, f)) or
                  s in ('heston',) and False for s, f in zip(short, full)))
        import numpy as np
        r = np.random.default_rng
        a = sdepy.wiener(rng=r(1), paths=3)([0., 1., 2.])
        b = sdepy.wiener_process(rng=r(1), paths=3)([0., 1., 2.])
        c = sdepy.lognorm_mean(2., mu=.1), sdepy.bscall(100, 1.)
        print(np.array_equal(a, b), c)
    '''
    short, full = list(SHORT), list(SHORT.values())
    import os
    root = os.path.dirname(os.path.dirname(sdepy.__file__))
    ref = repr((sdepy.lognorm_mean(2., mu=.1), sdepy.bscall(100, 1.)))
    for cfg in ('all', 'shortcuts', None, 'spam'):
        def run():
            rec.state(str(cfg))
            rec.step()
            r = subprocess.run(
                [sys.executable, '-c', textwrap.dedent(
                    code % (root, root, cfg, (short, full, A1 + A2)))],
                capture_output=True, text=True, timeout=120)
            out = r.stdout.strip().split('\n')
            if cfg == 'spam':
                want = ['ValueError']
            else:
                s, f, a = dict(all=(1, 1, 1), shortcuts=(1, 0, 1)).get(
                    cfg, (0, 0, 0))
                want = ['%s %s %s True' % (
                    str(s)*len(short), str(f)*len(full),
                    str(a)*len(A1 + A2)), 'True ' + ref]
            rec.check(out == want, 'KFUNC=%r: %r, expected %r %s' % (
                cfg, out, want, r.stderr[-500:]))
        rec.case(['config', str(cfg)], run)


KINDS = dict(values=unit_values, samples=unit_samples, errors=unit_errors,
             shortcuts=unit_shortcuts, analytical=unit_analytical,
             config=unit_config)


def units(tier, seed):
    out = [dict(kind='samples', name=n) for n in NAMES]
    out += [dict(kind='errors'), dict(kind='config'), dict(kind='values')]
    out += [dict(kind='shortcuts', name=n) for n in SHORT]
    out += [dict(kind='analytical', names=[n]) for n in SLOW]
    names = [n for n in A1 + A2 if n not in SLOW]
    out += [dict(kind='analytical', names=names[k::12]) for k in range(12)]
    return out


def run_unit(rec, u):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        KINDS[u['kind']](rec, u)
