"""C28: parameters and hooks of user-defined equations, as documented."""
import functools
import itertools
import numpy as np
import sdepy
from mc.core import thin, pick

PROPERTY = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of equation classes (which hook declares which parameter, and '
             'how; which hooks are overridden at each level of inheritance, extending or '
             'replacing the inherited ones) on the real code, with the trace of all hook calls compared with '
             'a model of the documented protocol')
LEVEL_NOTE = ('All declarations of a parameter (absent, required, with either of two defaults) by 5 hooks, '
              'with a second one varied along, in 4 definition styles, as one equation or a system; 6 forms '
              'of the values given; all sets of up to 7 overridden hooks, each extending or replacing '
              'the inherited one, on 6 bases; all presets with 3 user integrators; all timelines of 5 points '
              'subsets in both directions for the traces of calls.')
RULE = ('a state is a class definition with the parameters given; a trace is the life of an '
        'instance (instantiation and integration); transitions are hook calls')

HOOKS = ('sde', 'init', 'more', 'source_dw', 'source_dx')
MODES = (None, 'req', 1., 2.)
PATHS = 2


class Src:
    """A stateless scripted source."""

    def __init__(self, vshape, paths, k=0., log=None):
        self.vshape, self.paths, self.k, self.log = vshape, paths, k, log

    def __call__(self, t, dt):
        if self.log is not None:
            self.log.append((float(t), float(dt)))
        n = int(np.prod(tuple(self.vshape) + (self.paths,), dtype=int))
        z = np.cos(self.k + np.arange(n)*1. + t)*dt
        return z.reshape(tuple(self.vshape) + (self.paths,))


def units(tier, seed):
    out = []
    for q in (0, 1, 2):
        for part in range(4):
            out.append(dict(u='declare', q=q, part=part))
    if tier == 'thorough':
        for q, part in itertools.product((0, 2), range(64)):
            out.append(dict(u='pairs', q=q, part=part))
    out.append(dict(u='values'))
    out.append(dict(u='shared'))
    out.append(dict(u='history'))
    for base in BASES:
        out.append(dict(u='inherit', base=base))
    out.append(dict(u='integrators'))
    out.append(dict(u='events'))
    out.append(dict(u='shapes'))
    out.append(dict(u='args'))
    out.append(dict(u='attributes'))
    out.append(dict(u='sources'))
    out.append(dict(u='decorator'))
    return out


def run_unit(rec, u):
    globals()['u_' + u['u']](rec, u)


# ------------------------------------------------- declarations of parameters

def params(decl):
    """signature of {name: mode}, required ones first"""
    req = [k for k, m in decl.items() if m == 'req']
    opt = ['%s=D[%r]' % (k, m) for k, m in decl.items()
           if m not in (None, 'req')]
    return req + opt


STYLES = ('plain', 'kwonly', 'static', 'renamed')


def build(decls, q, style, log, D):
    """A class with the given declarations: {hook: {name: mode}}; each call
    of a hook is recorded as (hook, t, {name: value})"""
    xs = ['x%d' % k for k in range(max(q, 1))]
    lines = []
    for hook in HOOKS:
        p = params(decls[hook])
        names = [k for k, m in decls[hook].items() if m is not None]
        got = 'dict(%s)' % ', '.join('%s=%s' % (k, k) for k in names)
        star = ['*'] if style == 'kwonly' and p else []
        if hook == 'sde':
            first = ['t'] + xs
            if style == 'renamed':
                first = ['s'] + ['y_' + x for x in xs]
            head = ([] if style == 'static' else ['self']) + first
            if style == 'static':
                lines.append('    @staticmethod')
            eq = "{'dt': 1., 'dw': .5, 'dx': .25}"
            body = ['log.append((%r, float(%s), %s))' % (hook, first[0], got),
                    'return ' + (eq if q == 0 else '[%s]' % ', '.join(
                        [eq]*q))]
        elif hook == 'init':
            head = ['self', 't', 'out_x']
            if style == 'renamed':
                head = ['self', 'T', 'z']
            body = ['log.append((%r, float(%s), %s))' % (hook, head[1], got),
                    '%s[...] = 0.' % head[2]]
        elif hook == 'more':
            head = ['self']
            body = ['log.append((%r, None, %s))' % (hook, got)]
        else:
            head = ['self']
            body = ['log.append((%r, None, %s))' % (hook, got),
                    'return Src(self.wshape, self.paths)']
        lines.append('    def %s(%s):' % (hook, ', '.join(head + star + p)))
        lines += ['        ' + b for b in body]
    src = 'class P(%s, integrator):\n%s    sources = {"dt", "dw", "dx"}\n%s' \
        % ('SDEs' if q else 'SDE', '    q = %d\n' % q if q else '',
           '\n'.join(lines))
    ns = dict(SDE=sdepy.SDE, SDEs=sdepy.SDEs, integrator=sdepy.integrator,
              log=log, Src=Src, D=D)
    exec(src, ns)
    return ns['P']


def status(decls, name, given):
    """'error', 'skip', 'absent' or 'ok', as documented"""
    modes = {decls[h].get(name) for h in HOOKS} - {None}
    if not modes:
        return 'error' if given else 'absent'
    if len(modes) > 1:
        # (whether a keyword with and without default is consistent
        # is not stated)
        return 'skip' if 'req' in modes else 'error'
    if modes == {'req'} and not given:
        return 'error'
    return 'ok'


TT = (0., .5, 2.)


def u_declare(rec, u):
    q = u['q']
    D = {1.: 1., 2.: 2.}
    n = 0
    for k, modes in enumerate(itertools.product(MODES, repeat=5)):
        if k % 4 != u['part']:
            continue
        for given in (False, True):
            n += 1
            other = [MODES[pick(7*n + 3*j + q, 4)] for j in range(5)]
            if pick(n, 3):
                # most often without conflicts
                m = MODES[1 + pick(n + 1, 3)]
                other = [m if x else None for x in other]
            given_b = bool(pick(n + 2, 2))
            decls = {h: dict(a=modes[j], b=other[j])
                     for j, h in enumerate(HOOKS)}
            style = STYLES[pick(n + 5, 4)]
            one(rec, ['declare', list(modes), other, given, given_b, style],
                decls, q, style, D,
                {**({'a': 2.5} if given else {}),
                 **({'b': 3} if given_b else {})})


def u_pairs(rec, u):
    """all declarations of both parameters (no conflicts)"""
    q = u['q']
    n = 0
    menu = [m for m in itertools.product(MODES, repeat=5)
            if len(set(m) - {None}) <= 1]
    for k, ma in enumerate(menu):
        if k % 64 != u['part']:
            continue
        for mb in menu:
            n += 1
            decls = {h: dict(a=ma[j], b=mb[j]) for j, h in enumerate(HOOKS)}
            style = STYLES[pick(n, 4)]
            for given in ({}, {'a': 2.5}, {'a': 2.5, 'b': 3}):
                one(rec, ['pairs', list(ma), list(mb), len(given), style],
                    decls, q, style, {1.: 1., 2.: 2.}, given)


def one(rec, key, decls, q, style, D, given):
    rec.state(q, *key)

    def thunk():
        log = []
        P = build(decls, q, style, log, D)
        st = {k: status(decls, k, k in given) for k in ('a', 'b')}
        if 'skip' in st.values():
            return
        if 'error' in st.values():
            rec.raises(lambda: P(paths=PATHS, **given),
                       'a missing, unknown or inconsistent parameter')
            return
        p = P(paths=PATHS, **given)
        x = p(TT)
        rec.step(len(log))
        value = {}
        for k in ('a', 'b'):
            if st[k] == 'ok':
                m = ({decls[h].get(k) for h in HOOKS} - {None}).pop()
                value[k] = given[k] if k in given else D[m]
        rec.check(set(p.args) == set(value), lambda: 'args %r instead of %r'
                  % (sorted(p.args), sorted(value)))
        for h in HOOKS:
            calls = [c for c in log if c[0] == h]
            want = {'sde': list(TT[:-1]), 'init': [TT[0]]}.get(h)
            if want:
                rec.check([c[1] for c in calls] == want,
                          lambda: '%s called at %r' % (
                              h, [c[1] for c in calls]))
            else:
                rec.check(calls, '%s not called' % h)
            names = {k for k, m in decls[h].items() if m is not None}
            for c in calls:
                rec.check(set(c[2]) == names, '%s: parameters' % h)
                for k in names:
                    v = c[2][k]
                    rec.same(v, value[k], '%s: value of %s' % (h, k))
                    if h in ('sde', 'init'):
                        rec.check(isinstance(v, np.ndarray),
                                  '%s: %s is not an array' % (h, k))
        dx = 1. + 0*x[0] if not q else None
        if dx is not None:
            z = Src((), PATHS)
            w = sum(dt + .75*z(t, dt) for t, dt in ((0., .5), (.5, 1.5)))
            rec.same(x[-1], w, 'result')
    rec.case(key, thunk)


def u_shared(rec, u):
    """the same default, whatever it is, of a parameter of several hooks"""
    objs = {'nan': float('nan'), 'numpy nan': np.float64('nan'),
            'array with nan': np.array([1., np.nan]), 'none': None,
            'ragged': [[1.], [2., 3.]], 'object': Thing(), 'dict': {'a': 1},
            'array': np.array([1., 2.]), 'list': [1., 2.], 'text': 'abc',
            'callable': lambda t: 2*t, 'class': Thing, 'bool': True}
    numeric = ('nan', 'numpy nan', 'array with nan', 'array', 'list', 'bool')
    for n in (2, 3):
        for hooks in itertools.combinations(HOOKS, n):
            for f, v in objs.items():
                if set(hooks) & {'sde', 'init'} and f not in numeric:
                    continue
                key = ['shared', list(hooks), f]
                rec.state(*key)

                def thunk():
                    log = []
                    decls = {h: ({'a': 1.} if h in hooks else {})
                             for h in HOOKS}
                    P = build(decls, 0, 'plain', log, {1.: v})
                    P(paths=PATHS)(TT)
                    rec.step(len(log))
                    seen = {h for h, t, got in log if 'a' in got}
                    rec.check(seen == set(hooks), 'hooks')
                    for h, t, got in log:
                        if h in hooks and f not in numeric:
                            rec.check(got['a'] is v, h)
                        elif h in hooks:
                            rec.same(np.asarray(got['a'], float),
                                     np.asarray(v, float), h)
                rec.case(key, thunk)


def u_history(rec, u):
    """classes of one hierarchy, instantiated in every order: none changes
    the parameters of another"""
    def classes():
        class A(sdepy.SDE, sdepy.integrator):
            sources = {'dt'}

            def sde(self, t, x, a=1.):
                return {'dt': a + 0*x}

        class B(A):
            def sde(self, t, x, a=2., b=3.):
                return {'dt': a*b + 0*x}

        class C(B):
            def sde(self, t, x, c=5.):
                return {'dt': c + 0*x}

            def init(self, t, out_x, z0=7.):
                out_x[...] = z0

        class D(A):
            sources = {'dt', 'dw'}

            def source_dw(self, k=.5):
                return Src(self.wshape, self.paths, k)

            def more(self, m=None):
                self.m = m
        return dict(A=A, B=B, C=C, D=D)
    names = dict(A={'a', 'x0'}, B={'a', 'b', 'x0'}, C={'c', 'z0'},
                 D={'a', 'k', 'm', 'x0'})
    final = dict(A=1. + 2*1., B=1. + 2*6., C=7. + 2*5., D=1. + 2*1.)
    changed = dict(A=dict(a=-1.), B=dict(b=.5), C=dict(c=0.), D=dict(a=4.))
    then = dict(A=1. - 2., B=1. + 2*1., C=7., D=1. + 2*4.)
    for n in (1, 2, 3, 4):
        for order in itertools.product('ABCD', repeat=n):
            def thunk():
                K = classes()
                for j, c in enumerate(order):
                    for given, w in (({}, final[c]), (changed[c], then[c])):
                        p = K[c](paths=PATHS, **given)
                        rec.check(set(p.args) == names[c], lambda: '%s: %r' % (
                            c, sorted(p.args)))
                        x = p(TT)
                        rec.step(1)
                        rec.same(np.asarray(x[-1]), np.full(PATHS, w), c)
                    for bad in set().union(*names.values()) - names[c]:
                        rec.raises(lambda: K[c](paths=PATHS, **{bad: 1.}),
                                   '%s: unknown parameter' % c)
            rec.state('history', order)
            rec.case(['history', ''.join(order)], thunk)


class Thing:
    """an opaque value"""


def u_values(rec, u):
    """forms of the values given, by the hooks declaring the parameter"""
    arr = np.array([1., -2.])
    forms = {'scalar': 2.5, 'int': 3, 'list': [1., 2.], 'nested': [[1.], [2.]],
             'array': arr, 'zero': 0, 'negative': -1., 'bool': True,
             'complex': 1j, 'none': None, 'object': Thing(), 'text': 'abc',
             'callable': lambda t: 3*t + 1, 'callable list':
             lambda t: [t, 2*t], 'process': sdepy.process(
                 t=(0., .5, 2.), x=[[1., 2.], [3., 4.], [5., 7.]]),
             'const process': sdepy.process(c=4.), 'class': Thing,
             'empty dict': {}, 'tuple': (1., 2.)}
    opaque = ('none', 'object', 'text', 'class', 'empty dict')
    timed = ('callable', 'callable list', 'process', 'const process')
    for hooks in itertools.chain.from_iterable(
            itertools.combinations(HOOKS, n) for n in (1, 2, 3)):
        for f, v in forms.items():
            for how in ('given', 'default'):
                if f in opaque and ('sde' in hooks or 'init' in hooks):
                    continue
                if f in timed and 'init' in hooks:
                    continue
                if f in opaque + timed and len(hooks) > 1 and \
                        set(hooks) - {'sde', 'source_dw', 'source_dx'}:
                    continue
                key = ['values', list(hooks), f, how]
                rec.state(*key)

                def thunk():
                    log = []
                    decls = {h: ({'a': 'req' if how == 'given' else 1.}
                                 if h in hooks else {}) for h in HOOKS}
                    P = build(decls, 0, 'plain', log, {1.: v})
                    p = P(paths=PATHS, vshape=2 if f == 'nested' else (),
                          **({'a': v} if how == 'given' else {}))
                    p(TT)
                    rec.step(len(log))
                    for h, t, got in log:
                        if h not in hooks:
                            rec.check(not got, h)
                            continue
                        g = got['a']
                        if len(hooks) == 1 and h not in ('sde', 'init'):
                            rec.check(g is v, '%s: another object' % h)
                        elif h == 'sde':
                            rec.check(isinstance(g, np.ndarray), 'not array')
                            w = v(t) if callable(v) else v
                            rec.same(np.asarray(g), np.asarray(w), h)
                        elif h == 'init':
                            rec.check(isinstance(g, np.ndarray), 'not array')
                            rec.same(g, np.asarray(v), h)
                        elif callable(v) and f not in opaque:
                            rec.same(np.asarray(g(.25)), np.asarray(v(.25)),
                                     h)
                        elif f not in opaque:
                            rec.same(g, np.asarray(v), h)
                        else:
                            rec.check(g is v, '%s: another object' % h)
                rec.case(key, thunk)


# ------------------------------------------------------------ inheritance

class Base(sdepy.SDE):
    sources = {'dt', 'dw'}

    def sde(self, t, x, a=2.):
        return {'dt': a, 'dw': .5*x}

    def init(self, t, out_x, x0=1.):
        out_x[...] = x0

    def source_dw(self, dw=None, k=.5):
        return Src(self.wshape, self.paths, k)


class Bases(sdepy.SDEs):
    q = 2
    sources = {'dt', 'dw'}

    def sde(self, t, x, y, a=2.):
        return [{'dt': a, 'dw': .5*y}, {'dt': x, 'dw': .5}]

    def source_dw(self, dw=None, k=.5):
        return Src(self.wshape, self.paths, k)


def _f(t, x, a=2.):
    return {'dt': a, 'dw': .5*x}


class Ito(Base, sdepy.integrator):
    pass


class Level2(Base):
    def let(self, t, out_x, x):
        super().let(t, out_x, x)
        out_x[...] -= 3

    def sde(self, t, x, a=1.5, c=.25):
        A = super().sde(t, x, a=a)
        return {**A, 'dt': A['dt'] + c}


BASES = ('base', 'integrated', 'decorated', 'system', 'level2', 'mixin')
LAYERS = ('sde', 'init', 'let', 'result', 'more', 'source_dw', 'shapes')


def parent(base, log):
    if base == 'base':
        return (Base, sdepy.integrator)
    if base == 'integrated':
        return (Ito,)
    if base == 'decorated':
        return (sdepy.integrate(_f, q=0, sources={'dt', 'dw'}),)
    if base == 'system':
        return (Bases, sdepy.integrator)
    if base == 'level2':
        return (Level2, sdepy.integrator)
    # a mixin precedes

    class Mixin:
        def begin(self):
            log.append('begin')
            super().begin()

        def end(self):
            log.append('end')
            super().end()
    return (Mixin, Base, sdepy.integrator)


def derive_class(base, layers, log):
    """A subclass overriding some methods: layers[name] is None, 'super'
    (extends) or 'replace'"""
    ps = parent(base, log)
    system = base == 'system'
    ns = {}
    kind = layers.get
    C = []             # the class, for super()
    if kind('sde') == 'super':
        if system:
            def sde(self, t, x, y, a=2., extra=.75):
                A = super(C[0], self).sde(t, x, y, a=a)
                return [{**A[0], 'dt': A[0]['dt'] + extra}, A[1]]
        else:
            a0 = 1.5 if base == 'level2' else 2.

            def sde(self, t, x, a=a0, extra=.75):
                sup = super(C[0], self).sde
                A = _f(t, x, a=a) if base == 'decorated' else sup(t, x, a=a)
                return {**A, 'dt': A['dt'] + extra}
        ns['sde'] = sde
    elif kind('sde') == 'replace':
        if system:
            def sde(self, t, x, y, *, m=3.):
                return ({'dt': m}, {'dw': x})
        else:
            def sde(self, t, x, *, m=3.):
                return {'dt': m*x}
        ns['sde'] = sde
    if kind('init') == 'super':
        def init(self, t, out_x, x0=1., bias=.125):
            super(C[0], self).init(t, out_x, x0=x0)
            out_x[...] += bias
        ns['init'] = init
    elif kind('init') == 'replace':
        def init(self, t, out_x, z0=5.):
            out_x[...] = z0 + t
        ns['init'] = init
    if kind('let') == 'super':
        def let(self, t, out_x, x):
            super(C[0], self).let(t, out_x, x)
            out_x[...] *= 2
        ns['let'] = let
    elif kind('let') == 'replace':
        def let(self, t, out_x, x):
            out_x[...] = -x
        ns['let'] = let
    if kind('result') == 'super':
        def result(self, tt, xx):
            r = super(C[0], self).result(tt, xx)
            return tuple(x + 1 for x in r) if system else r + 1
        ns['result'] = result
    elif kind('result') == 'replace':
        def result(self, tt, xx):
            return 'replaced', tt, xx
        ns['result'] = result
    if kind('more') == 'super':
        def more(self, tag='t'):
            super(C[0], self).more()
            log.append(('more', tag))
        ns['more'] = more
    elif kind('more') == 'replace':
        def more(self, tag='u'):
            log.append(('more', tag))
        ns['more'] = more
    if kind('source_dw') == 'super':
        def source_dw(self, dw=None, k=1.25):
            if base == 'decorated':
                return Src(self.wshape, self.paths, k)
            return super(C[0], self).source_dw(dw=dw, k=k)
        ns['source_dw'] = source_dw
    elif kind('source_dw') == 'replace':
        def source_dw(self, j=2.):
            return Src(self.wshape, self.paths, j)
        ns['source_dw'] = source_dw
    elif base == 'decorated':
        def source_dw(self, dw=None, k=.5):
            return Src(self.wshape, self.paths, k)
        ns['source_dw'] = source_dw
    if kind('shapes') == 'super':
        def shapes(self, vshape):
            log.append(('shapes', vshape))
            return super(C[0], self).shapes(vshape)
        ns['shapes'] = shapes
    elif kind('shapes') == 'replace':
        def shapes(self, vshape):
            log.append(('shapes', vshape))
            return ((), (2,), (2,)) if system else ((), (), ())
        ns['shapes'] = shapes
    C.append(type('Sub', ps, ns))
    return C[0]


def model(base, layers, tt, given):
    """the documented outcome, for one component and PATHS paths"""
    system = base == 'system'
    kind = layers.get
    g = given.get
    level2 = base == 'level2'
    # parameters
    k = {None: g('k', .5), 'super': g('k', 1.25), 'replace': g('j', 2.)}[
        kind('source_dw')]
    a = g('a', 1.5 if level2 else 2.)
    c = (g('c', .25) if kind('sde') is None else .25) if level2 else 0.
    t = tt[0]
    if kind('init') == 'replace':
        x = g('z0', 5.) + t
    else:
        x = g('x0', 1.) + (g('bias', .125) if kind('init') == 'super' else 0)
    shape = ((2,) if system else ()) + (PATHS,)
    X = np.zeros(shape) + x
    src = Src(shape[:-1], PATHS, k)
    out = []

    def store(X):
        if kind('let') == 'replace':
            y = -X
        else:
            y = X - 3 if level2 else X
            if kind('let') == 'super':
                y = 2*y
        out.append(y)
    store(X)
    for t, s in zip(tt[:-1], tt[1:]):
        dt, dw = s - t, src(t, s - t)
        extra = g('extra', .75) if kind('sde') == 'super' else 0.
        if system:
            x, y = X
            if kind('sde') == 'replace':
                X = np.stack((x + g('m', 3.)*dt, y + x*dw[1]))
            else:
                X = np.stack((x + (a + extra)*dt + .5*y*dw[0],
                              y + x*dt + .5*dw[1]))
        elif kind('sde') == 'replace':
            X = X + g('m', 3.)*X*dt
        else:
            X = X + (a + c + extra)*dt + .5*X*dw
        store(X)
    return np.array(out)


def u_inherit(rec, u):
    base = u['base']
    n = 0
    for combo in itertools.product((None, 'super', 'replace'),
                                   repeat=len(LAYERS)):
        n += 1
        layers = {k: v for k, v in zip(LAYERS, combo) if v}
        legit = {'k': 1.1} if layers.get('source_dw') != 'replace' else \
            {'j': -.5}
        if layers.get('sde') == 'replace':
            legit['m'] = .75
        else:
            legit['a'] = -1.
            if layers.get('sde') == 'super':
                legit['extra'] = 3.
            elif base == 'level2':
                legit['c'] = 2.
        if layers.get('init') == 'replace':
            legit['z0'] = -2.
        else:
            legit['x0'] = 4.
            if layers.get('init') == 'super':
                legit['bias'] = 7.
        keys = sorted(legit)
        for m in range(3):
            given = {} if m == 0 else legit if m == 1 else \
                {k: legit[k] for j, k in enumerate(keys) if pick(n + 3*j, 2)}
            tt = ((0., .5, 2.), (1., 0.), (3.,))[pick(n + m, 3)]
            key = ['inherit', list(combo), m, list(tt)]
            rec.state(base, *key)
            rec.case(key, lambda: inherit(rec, base, layers, given, tt))


def inherit(rec, base, layers, given, tt):
    log = []
    P = derive_class(base, layers, log)
    reverse = tt[0] > tt[-1]
    # (the timeline should be ascending)
    r = P(paths=PATHS, i0=-1 if reverse else 0, **given)(tuple(sorted(tt)))
    rec.step(len(tt))
    want = model(base, layers, tt, given)
    if reverse:
        want = want[::-1]
    system = base == 'system'
    if layers.get('result') == 'replace':
        rec.check(r[0] == 'replaced', 'result')
        rec.same(r[1], np.sort(tt), 'timeline')
        got = np.asarray(r[2])
        if system:
            got = got.reshape(want.shape)
    else:
        if system:
            rec.check(isinstance(r, (tuple, list)) and len(r) == 2, 'result')
            got = np.stack([np.asarray(x) for x in r], axis=1)
        else:
            rec.check(isinstance(r, sdepy.process), 'result')
            rec.same(r.t, np.sort(tt), 'timeline')
            got = np.asarray(r)
        if layers.get('result') == 'super':
            want = want + 1
    rec.same(got, want, 'values')
    if 'more' in layers:
        tag = 't' if layers['more'] == 'super' else 'u'
        rec.check(('more', tag) in log, 'more was not called')
    if 'shapes' in layers:
        rec.check(('shapes', ()) in log, 'shapes was not called')
    if base == 'mixin':
        n = log.count('begin')
        rec.check(n == log.count('end') == 1, 'begin and end called %d, %d '
                  'times' % (n, log.count('end')))


# ------------------------------------------------------------- integrators

class Half(sdepy.integrator):
    """half of the increment, as the default method"""

    def euler_next(self):
        super().euler_next()
        sw, xw = self.itervars['sw'], self.itervars['xw']
        xw[1][...] = (xw[0] + xw[1])/2


class Named(sdepy.integrator):
    """a new method along with the original one"""

    def direct_next(self):
        iv = self.itervars
        s, x = iv['sw'], iv['xw']
        A, dZ = self.A(s[0], x[0]), self.dZ(s[0], s[1] - s[0])
        x[1][...] = x[0] - sum(A[k]*dZ[k] for k in A)


class Sub(sdepy.integrator):
    """two steps in place of each one"""

    def next(self):
        sw = self.itervars['sw']
        if sw[1] == self.itervars.get('middle_of'):
            self.itervars['middle_of'] = None
        else:
            self.itervars['middle_of'] = sw[1]
            sw[1] = (sw[0] + sw[1])/2
        super().next()


def all_sdes():
    return {k: getattr(sdepy, k) for k in sorted(dir(sdepy))
            if isinstance(getattr(sdepy, k), type) and
            issubclass(getattr(sdepy, k), sdepy.SDE) and
            not issubclass(getattr(sdepy, k), sdepy.integrator) and
            k not in ('SDE', 'SDEs')}


def u_integrators(rec, u):
    sdes = dict(all_sdes(), user=Base, users=Bases)
    rec.check(len(sdes) > 10, 'preset SDE classes not found')
    for (name, S), (iname, I, method), vs, steps in itertools.product(
            sdes.items(), (('half', Half, 'euler'), ('named', Named, 'direct'),
                           ('named0', Named, 'euler'), ('sub', Sub, 'euler')),
            ((), (2,)), (None, 3)):
        key = ['integrators', name, iname, list(vs), steps]
        rec.state(*key)
        rec.case(key, lambda: integ(rec, name, S, iname, I, method, vs, steps))
    for name, S in sdes.items():
        def thunk():
            rec.raises(lambda: S(), 'no integrator')
            rec.raises(lambda: type('P', (sdepy.integrator, S), {})(),
                       'integrator first')
            rec.raises(lambda: type('P', (S, sdepy.integrator), {})(
                method='unknown'), 'unknown method')
        rec.case(['integrators', 'order', name], thunk)


def scripted(p):
    """replace the sources with scripted ones"""
    for id, z in list(p.sources.items()):
        if id != 'dt':
            s = Src(tuple(np.atleast_1d(z.vshape)) if z.vshape != () else (),
                    p.paths, len(id) + ord(id[-1]))
            if hasattr(z, 'dn') or hasattr(z, 'y'):
                s.dn_value, s.y_value = np.zeros(1, int), None
            p.sources[id] = s


def integ(rec, name, S, iname, I, method, vs, steps):
    P = type('P', (S, I), {})
    p = P(paths=2, vshape=vs, method=method, steps=steps, getinfo=False)
    scripted(p)
    tt = np.array((0., .5, 2.))
    r = p(tt)
    # the same through the standardized interface
    q = type('Q', (S, sdepy.integrator), {})(
        paths=2, vshape=vs, steps=steps, getinfo=False)
    scripted(q)
    grid = set(tt)
    if steps:
        grid |= set(np.linspace(0., 2., steps))
    grid = np.array(sorted(grid))
    if iname == 'sub':
        grid = np.sort(np.concatenate((grid, (grid[1:] + grid[:-1])/2)))
    f = {'half': .5, 'named': -1., 'named0': 1., 'sub': 1.}[iname]
    x = np.empty(tuple(np.atleast_1d(q.wshape).astype(int)) + (2,))
    xx = np.empty((3,) + tuple(np.atleast_1d(q.xshape).astype(int)) + (2,))
    q.itervars = {'sw': np.array([0., 0.]), 'xw': [x, x], 'steps_tt': [0.],
                  'tt': tt, 'xx': xx}
    q.begin()
    i = 0
    for n, s in enumerate(grid):
        if n:
            t = grid[n - 1]
            A, dZ = q.A(t, x), q.dZ(t, s - t)
            x = x + f*sum(A[k]*dZ[k] for k in A)
        if s in tt:
            q.let(s, xx[i], x)
            i += 1
        rec.step()
    if q.log:
        xx = np.exp(xx)
    w = q.result(tt, xx)
    if not isinstance(w, (tuple, list)):
        w, r = (w,), (r,)
    rec.check(len(r) == len(w), 'number of results')
    for a, b in zip(r, w):
        rec.same(np.asarray(a), np.asarray(b), 'values', 1e-8)
        rec.same(a.t, tt, 'timeline')


# ------------------------------------------------------------ hook calls

GRID = (-1., 0., .25, 1., 2.5)


def u_events(rec, u):
    n = 0
    for size in range(1, 6):
        for tt in itertools.combinations(GRID, size):
            for i0 in sorted({0, -1, size//2}):
                for log, steps, getinfo in itertools.product(
                        (False, True), (None, 3, (.5, .25, 9.)),
                        (True, False)):
                    n += 1
                    q = pick(n, 3)
                    key = ['events', list(tt), i0, log, str(steps), getinfo,
                           q]
                    rec.state(*key)
                    rec.case(key, lambda: events(
                        rec, np.array(tt), i0, log, steps, getinfo, q))


def events(rec, tt, i0, log, steps, getinfo, q):
    ev = []


    class Steps(sdepy.integrator):
        def store(self, i, k):
            iv = self.itervars
            steps_of.append((float(iv['tt'][i]), float(iv['sw'][k])))
            super().store(i, k)

    def make(S):
        class P(S, Steps):
            sources = {'dt', 'dw', 'dx'}

            def source_dw(self):
                return Src(self.wshape, self.paths, .5, log=dw)

            def source_dx(self):
                return Src(self.wshape, self.paths, .75, log=dx)

            def init(self, t, out_x, x0=2.):
                ev.append(('init', float(t), out_x.shape))
                out_x[...] = x0 + np.arange(self.paths)

            def let(self, t, out_x, x):
                ev.append(('let', float(t), np.copy(x), out_x.shape))
                out_x[...] = x

            def result(self, tt, xx):
                ev.append(('result', np.copy(tt), np.copy(xx)))
                return ('the result', tt, xx)

            def info_begin(self):
                ev.append(('info_begin',))

            def info_next(self):
                ev.append(('info_next', float(self.itervars['last_t']),
                           float(self.itervars['last_dt'])))

            def info_store(self):
                ev.append(('info_store',))

            def info_end(self):
                ev.append(('info_end',))
        P.log = log
        if q:
            P.q = q
            if q == 1:
                def sde(self, t, x, a=.5):      # noqa: F811
                    ev.append(('sde', float(t), np.copy(x[..., None, :])))
                    return [{'dt': a, 'dw': .25}]
            else:
                def sde(self, t, x, y, a=.5):   # noqa: F811
                    ev.append(('sde', float(t), np.stack((x, y), -2)))
                    return [{'dt': a, 'dw': .25}, {'dt': 1.}]
        else:
            def sde(self, t, x, a=.5):
                ev.append(('sde', float(t), np.copy(x)))
                return {'dt': a, 'dw': .25}
        P.sde = sde
        return P
    dw, dx, steps_of = [], [], []
    p = make(sdepy.SDEs if q else sdepy.SDE)(
        paths=2, i0=i0, steps=steps, getinfo=getinfo)
    r = p(tt)
    rec.step(len(ev))
    # ---- the model: legs, each one from the starting point
    k0 = range(len(tt))[i0]
    points = set(tt.tolist())
    if steps is not None:
        extra = np.linspace(tt[0], tt[-1], steps) if isinstance(steps, int) \
            else [s for s in steps if tt[0] < s < tt[-1]]
        points |= {float(s) for s in extra}
    t0 = float(tt[k0])
    legs = []
    if k0 > 0:
        legs.append(sorted((s for s in points if s <= t0), reverse=True))
    if k0 < len(tt) - 1 or not legs:
        legs.append(sorted(s for s in points if s >= t0))
    shape = ((q,) if q else ()) + (2,)
    x0 = np.zeros(shape) + 2. + np.arange(2)
    if log:
        x0 = np.log(x0)
    src = Src(shape[:-1], 2, .5)
    a = np.array([[.5], [1.]])[:q] if q else .5
    b = np.array([[.25], [0.]])[:q] if q else .25
    want_sde, want_let, want_dz, out = [], [], [], {}
    for leg in legs:
        x = x0
        for n, t in enumerate(leg):
            if t in tt:
                want_let.append((t, x))
                out[t] = x
            if n < len(leg) - 1:
                dt = leg[n + 1] - t
                want_sde.append((t, x))
                want_dz.append((t, dt))
                x = x + a*dt + b*src(t, dt)
    # ---- hook by hook
    sel = {}
    for e in ev:
        sel.setdefault(e[0], []).append(e[1:])
    rec.check([e[0] for e in sel['init']] == [t0]*len(legs),
              lambda: 'init called at %r' % [e[0] for e in sel['init']])
    for e in sel['init']:
        rec.check(e[1] == shape, 'shape in init')
    rec.check([e[0] for e in sel.get('sde', [])] == [e[0] for e in want_sde],
              lambda: 'sde at %r' % [e[0] for e in sel.get('sde', [])])
    for e, w in zip(sel.get('sde', []), want_sde):
        rec.same(e[1], w[1], 'x in sde')
    for z in (dw, dx):
        rec.check(len(z) == len(want_dz), 'number of source evaluations')
        rec.same(np.array(z), np.array(want_dz), 'source arguments', 1e-12)
    rec.check([e[0] for e in sel['let']] == [e[0] for e in want_let],
              lambda: 'let at %r' % [e[0] for e in sel['let']])
    rec.check(steps_of == [(e[0], e[0]) for e in want_let],
              'store called with wrong indexes')
    for e, w in zip(sel['let'], want_let):
        rec.same(e[1], w[1], 'x in let')
        rec.check(e[2] == shape, 'shape in let')
    rec.check(len(sel['result']) == 1, 'result called more than once')
    xx = np.array([out[t] for t in tt.tolist()])
    if log:
        xx = np.exp(xx)
    rec.same(sel['result'][0][0], tt, 'timeline in result')
    rec.same(sel['result'][0][1], xx, 'values in result')
    rec.check(r[0] == 'the result', 'result')
    rec.same(np.asarray(r[2]), xx, 'values')
    # ---- information hooks
    if not getinfo:
        rec.check(not [e for e in ev if e[0].startswith('info')],
                  'information hooks called')
    else:
        rec.check(len(sel['info_begin']) == len(sel['info_end']) == len(legs),
                  'info_begin and info_end')
        rec.same(np.array(sel.get('info_next', [])), np.array(want_dz),
                 'info_next', 1e-12)
        names = [e[0] for e in ev]
        rec.check(names.count('info_store') == names.count('let'),
                  'info_store')
        for k, e in enumerate(names):
            if e == 'let':
                rec.check(names[k + 1] == 'info_store',
                          'info_store does not follow let')
            if e == 'info_begin':
                rec.check('init' in names[:k], 'info_begin before init')
    rec.check(ev[-1][0] == 'result', 'result is not last')


# ----------------------------------------------------------------- shapes

def u_shapes(rec, u):
    """values, stored and working shapes set by the shapes method"""
    S = ((), (1,), (2,), (3,), (2, 2), 1, 2, 3)
    for v, xs, ws in itertools.product(S, repeat=3):
        for vin in ((), (2,), 3):
            key = ['shapes', str(v), str(xs), str(ws), str(vin)]
            rec.state(*key)
            rec.case(key, lambda: shapes(rec, v, xs, ws, vin))


def tup(s):
    return (s,) if isinstance(s, int) else tuple(s)


def shapes(rec, v, xs, ws, vin):
    seen = []

    class P(sdepy.SDE, sdepy.integrator):
        def shapes(self, vshape):
            seen.append(vshape)
            return v, xs, ws

        def source_dw(self):
            seen.append(self.wshape)
            return Src(tup(self.wshape), self.paths)

        def init(self, t, out_x):
            rec.check(out_x.shape == tup(ws) + (3,), 'init')
            out_x[...] = np.arange(out_x.size).reshape(out_x.shape)

        def sde(self, t, x):
            rec.check(x.shape == tup(ws) + (3,), 'sde')
            return {'dt': 1., 'dw': 1.}

        def let(self, t, out_x, x):
            rec.check(x.shape == tup(ws) + (3,), 'let')
            rec.check(out_x.shape == tup(xs) + (3,), 'let (out)')
            out_x[...] = x.sum() + np.arange(out_x.size).reshape(out_x.shape)

        def result(self, tt, xx):
            rec.check(xx.shape == (2,) + tup(xs) + (3,), 'result')
            return sdepy.process(tt, x=xx)
    p = P(paths=3, vshape=vin)
    rec.check(tup(seen[0]) == tup(vin), 'vshape given to shapes')
    rec.check(tup(seen[1]) == tup(ws), 'wshape in source_dw')
    rec.check(tup(p.vshape) == tup(v) and tup(p.xshape) == tup(xs) and
              tup(p.wshape) == tup(ws), 'attributes')
    r = p((0., .5))
    rec.step(2)
    x0 = np.arange(int(np.prod(tup(ws) + (3,))), dtype=float).reshape(
        tup(ws) + (3,))
    x1 = x0 + .5 + Src(tup(ws), 3)(0., .5)
    off = np.arange(int(np.prod(tup(xs) + (3,))), dtype=float).reshape(
        tup(xs) + (3,))
    rec.same(np.asarray(r), np.stack((x0.sum() + off, x1.sum() + off)),
             'values')


# ------------------------------------------------------- access to parameters

def u_args(rec, u):
    """parameters read and modified through the args attribute"""
    for where, names in itertools.product(
            ('more', 'init', 'after'),
            [c for n in range(4) for c in itertools.combinations(
                ('a', 'x0', 'b'), n)]):
        for given in ({}, {'a': 4.}, {'a': 4., 'x0': 3., 'b': 2.},
                      {'b': -1.}):
            key = ['args', where, list(names), sorted(given)]
            rec.state(*key)

            def thunk():
                seen = {}

                def change(self):
                    seen.update(self.args)
                    for k in names:
                        self.args[k] = {'a': 10., 'x0': 20., 'b': 30.}[k]

                class P(sdepy.SDE, sdepy.integrator):
                    sources = {'dt'}

                    def sde(self, t, x, a=1., b=0.):
                        return {'dt': a + b}

                    def more(self):
                        if where == 'more':
                            change(self)

                    def init(self, t, out_x, x0=.5):
                        out_x[...] = x0
                        if where == 'init':
                            change(self)
                p = P(**given)
                if where == 'after':
                    change(p)
                r = p((0., 1.))
                rec.step()
                v = {'a': 1., 'b': 0., 'x0': .5, **given}
                rec.check(set(seen) == set(v), 'args')
                for k in v:
                    rec.same(seen[k], v[k], 'args')
                w = {**v, **{k: {'a': 10., 'x0': 20., 'b': 30.}[k]
                             for k in names}}
                x0 = v['x0'] if where == 'init' else w['x0']
                rec.same(np.asarray(r)[:, 0],
                         np.array((x0, x0 + w['a'] + w['b'])), 'result')
            rec.case(key, thunk)


def u_attributes(rec, u):
    """parameters of instantiation are stored as attributes"""
    rng = np.random.default_rng(1)
    info = {}
    menu = dict(paths=(1, 5), vshape=((), 2, (2, 3)), dtype=(None, 'f4', float),
                rng=(None, rng), steps=(None, 7, (.5,)), i0=(0, -1, 1),
                info=(None, info), getinfo=(True, False),
                method=('euler', 'own'))
    keys = sorted(menu)
    for name, S in dict(all_sdes(), user=Base, users=Bases).items():
        class I(sdepy.integrator):
            def own_next(self):
                self.euler_next()
        G = list(itertools.product(*(menu[k] for k in keys)))
        for c in thin(G, len(G)//(300 if rec.tier == 'thorough' else 60)):
            kw = dict(zip(keys, c))
            key = ['attributes', name, repr({k: v for k, v in kw.items()
                                             if k != 'rng'}),
                   kw['rng'] is None]
            rec.state(*key)

            def thunk():
                p = type('P', (S, I), {})(**kw)
                for k in ('paths', 'dtype', 'steps', 'i0', 'getinfo',
                          'method'):
                    v = getattr(p, k)
                    rec.check(v is kw[k] or v == kw[k], lambda: '%s: %r, '
                              'not %r' % (k, v, kw[k]))
                if kw['info'] is not None:
                    rec.check(p.info is info, 'info')
                else:
                    rec.check(p.info == {} and p.info is not info, 'info')
                if kw['rng'] is not None:
                    rec.check(p.rng is rng, 'rng')
                rec.check(set(p.sources) == set(S.sources), 'sources')
                for z in p.sources.values():
                    rec.check(z.paths == kw['paths'], 'paths of sources')
            rec.case(key, thunk)


def u_sources(rec, u):
    """sources declared as set or dict; evaluated whether used or not"""
    ids = ('dt', 'dw', 'dn', 'dj', 'dx', 'dy')
    for n in range(1, 5):
        for decl in itertools.combinations(ids, n):
            for used in ('none', 'all', 'first', 'last', 'foreign'):
                for form in (set, lambda s: dict.fromkeys(s, 0)):
                    key = ['sources', list(decl), used, form(()).__class__.
                           __name__]
                    rec.state(*key)
                    rec.case(key, lambda: sources(rec, decl, used, form))


def sources(rec, decl, used, form):
    calls = {k: [] for k in decl}
    keys = {'none': (), 'all': decl, 'first': decl[:1], 'last': decl[-1:],
            'foreign': decl + ('dz',)}[used]

    def setup(k):
        return lambda self: Src(self.wshape, self.paths, ord(k[1]),
                                log=calls[k])
    ns = {'source_' + k: setup(k) for k in decl if k != 'dt'}

    def sde(self, t, x):
        return {k: 1. + j for j, k in enumerate(keys)}
    ns.update(sde=sde, sources=form(decl))
    P = type('P', (sdepy.SDE, sdepy.integrator), ns)
    p = P(paths=2)
    rec.check(set(p.sources) == set(decl), 'sources')
    tt = (0., .5, 2.)
    if used == 'foreign':
        rec.raises(lambda: p(tt), 'undeclared differential')
        return
    r = p(tt)
    rec.step(2)
    x = np.zeros(2) + np.asarray(r)[0]
    for k, (t, s) in enumerate(zip(tt[:-1], tt[1:])):
        for j, d in enumerate(keys):
            x = x + (1. + j)*(s - t if d == 'dt' else
                              Src((), 2, ord(d[1]))(t, s - t))
        rec.same(np.asarray(r)[k + 1], x, 'values')
    for d in decl:
        if d != 'dt':
            rec.check(calls[d] == [(0., .5), (.5, 1.5)],
                      lambda: '%s evaluated at %r' % (d, calls[d]))
    rec.raises(lambda: type('P', (sdepy.SDE, sdepy.integrator), dict(
        ns, sources=form(decl + ('dq',))))(), 'unknown differential')


# -------------------------------------------------------------- decorator

def u_decorator(rec, u):
    n = 0
    for q in range(4):
        for ids in itertools.chain.from_iterable(
                itertools.combinations(('dt', 'dw', 'dn'), k)
                for k in range(1, 4)):
            for style in ('defaults', 'params', 'kwonly', 'object',
                          'partial', 'required'):
                for gq in (None, 'right', 'wrong'):
                    for gs in (None, 'set', 'tuple', 'wrong'):
                        n += 1
                        log, ax = bool(pick(n, 2)), bool(pick(n + 7, 2))
                        how = ('call', 'decorator')[pick(n + 3, 2)]
                        key = ['decorator', q, list(ids), style, gq, gs,
                               log, ax, how]
                        rec.state(*key)
                        rec.case(key, lambda: decorator(
                            rec, q, ids, style, gq, gs, log, ax, how))


def decorator(rec, q, ids, style, gq, gs, log, ax, how):
    calls = []
    n = max(q, 1)
    xs = ['x%d' % k for k in range(n)]

    def values(t, xs, a):
        calls.append(t)
        # equations use the differentials in turn
        if not q:
            return {d: a*(1. + j) for j, d in enumerate(ids)}
        return [{d: a*(1. + j + k) for j, d in enumerate(ids)
                 if (j + k) % q == 0 or q == 1 or k == j % q}
                for k in range(q)]
    used = set(ids) if not q else set().union(*values(0., None, 1.))
    if used != set(ids):
        ids = tuple(d for d in ids if d in used)
    del calls[:]
    sig = {'defaults': ', '.join('%s=1.' % v for v in ['t'] + xs + ['a']),
           'params': ', '.join(['t'] + xs + ['a=1.']),
           'kwonly': ', '.join(['t'] + xs + ['*', 'a=1.']),
           'object': ', '.join(['t'] + xs + ['a=1.']),
           'partial': ', '.join(['b', 't'] + xs + ['a=1.']),
           'required': ', '.join(['t'] + xs + ['a'])}[style]
    ns = dict(values=values)
    if style == 'object':
        exec('class F:\n    def __call__(self, %s):\n        '
             'return values(t, [%s], a)\nf = F()' % (sig, ', '.join(xs)), ns)
    else:
        exec('def f(%s):\n    return values(t, [%s], a)' % (
            sig, ', '.join(xs)), ns)
    f = ns['f']
    if style == 'partial':
        f = functools.partial(f, None)
    kw = dict(log=log, addaxis=ax)
    if gq:
        kw['q'] = q if gq == 'right' else q + 1
    if gs:
        kw['sources'] = {'set': set(ids), 'tuple': tuple(ids),
                         'wrong': {'dx'} | set(ids)}[gs]

    def make():
        return sdepy.integrate(f, **kw) if how == 'call' else \
            sdepy.integrate(**kw)(f)
    tested = not (gq and gs)
    if tested:
        fails = style == 'required' or n > 1 and style != 'defaults'
        if fails or 'wrong' in (gq, gs):
            rec.raises(make, 'a failing or inconsistent test evaluation')
            return
    P = make()
    if not tested:
        rec.check(not calls, 'test evaluation not due')
        if 'wrong' in (gq, gs):
            # taken at face value
            rec.check(P.q == kw['q'] and set(P.sources) == set(kw['sources']),
                      'given q and sources')
            return
    rec.check(issubclass(P, sdepy.integrator) and issubclass(P, sdepy.SDE),
              'class')
    rec.check(issubclass(P, sdepy.SDEs) == (q > 0), 'class: one or more '
              'equations')
    rec.check(set(P.sources) == set(ids), 'sources')
    rec.check(P.q == q and bool(P.log) == log and bool(P.addaxis) == ax,
              'attributes')
    del calls[:]
    vs = (2,)
    p = P(paths=PATHS, vshape=vs, a=.5, x0=3.)
    rec.check(not calls, 'evaluated upon instantiation')
    scripted(p)
    tt = (0., .5, 2.)
    r = p(tt)
    rec.step(len(calls))
    rec.check(calls == [0., .5], lambda: 'evaluated at %r' % calls)
    # reference
    x = np.full((n, 2, PATHS), np.log(3.) if log else 3.)
    out = [x]
    for t, s in zip(tt[:-1], tt[1:]):
        A = values(t, None, .5)
        A = A if q else [A]
        dx = np.zeros(x.shape)
        for d in ids:
            if d == 'dt':
                z = np.full(x.shape, s - t)
            elif not q:
                z = p.sources[d](t, s - t)[None]
            elif ax:
                z = np.moveaxis(p.sources[d](t, s - t), -2, 0)
            else:
                z = p.sources[d](t, s - t).reshape((q, 2, PATHS))
            for k in range(n):
                dx[k] += A[k].get(d, 0)*z[k]
        x = x + dx
        out.append(x)
    out = np.array(out)
    if log:
        out = np.exp(out)
    if q:
        rec.check(len(r) == q, 'number of results')
        r = np.stack([np.asarray(y) for y in r], axis=1)
    else:
        r = np.asarray(r)[:, None]
    rec.same(r, out, 'values')
