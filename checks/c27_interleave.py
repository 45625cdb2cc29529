"""C27: instances do not interfere, however their executions interleave."""
import os
import pickle
import sys
import threading
import warnings
import numpy as np
import sdepy
from sdepy import kfunc
from mc.core import explore

PROPERTY = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = ('stateless model checking of the real code under a controlled scheduler: all interleavings '
             'of two programs up to a preemption bound, with switch points at every user callback '
             '(real threads, one running at a time) and at every executed line of the library (trace '
             'hook); all nestings; a fault at every callback and every line; each result compared '
             'with the one the program gives alone in a fresh interpreter state')
LEVEL_NOTE = ('25 programs (integrations of all kinds, sources, simulations, kfuncs, processes) in two '
              'parameterizations each; callback-level preemption bound 2 (thorough: 3, or unbounded '
              'for the shorter programs), line-level preemption bound 1 (thorough: 2 for the '
              'shorter programs); 2 threads (thorough: 3 at bound 2).')
RULE = ('a trace is one complete schedule (or fault run) of a set of programs; a state is a '
        '(programs, switch points) configuration; transitions are the scheduling points passed')

LIB = os.path.dirname(os.path.abspath(sdepy.__file__)) + os.sep


# ------------------------------------------------------------ switch points

class Hook:
    fn = None


def point():
    f = Hook.fn
    if f is not None:
        f()


class PRng(np.random.Generator):
    """A generator whose draws are switch points."""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.start = self.bit_generator.state

    def restart(self):
        self.bit_generator.state = self.start


def _pointed(name):
    base = getattr(np.random.Generator, name)

    def f(self, *args, **kw):
        point()
        return base(self, *args, **kw)
    return f


for _m in ('normal', 'poisson', 'multivariate_normal', 'uniform', 'random',
           'standard_normal', 'standard_exponential', 'exponential',
           'binomial'):
    setattr(PRng, _m, _pointed(_m))


class Src:
    """A stateless scripted source."""

    def __init__(self, vshape, paths, k, integer=False):
        self.vshape, self.paths, self.integer = vshape, paths, integer
        self.dtype = int if integer else float
        z = np.cos(k + np.arange(int(np.prod(vshape + (paths,)))))
        self.z = z.reshape(vshape + (paths,))

    def __call__(self, s, ds):
        point()
        s, ds = np.broadcast_arrays(s, ds)
        s, ds = (a.reshape(a.shape + (1,)*self.z.ndim) for a in (s, ds))
        if self.integer:
            self.dn_value = np.sign(ds).astype(int)*(self.z > 0)
            return self.dn_value
        return self.z*(1 + s)*ds

    def __getattr__(self, name):
        raise AttributeError(name)


class JSrc(Src):
    def __call__(self, s, ds):
        out = super().__call__(s, ds)
        self.dn_value = (self.z > 0).astype(int)
        return out


class RV:
    def __init__(self, k):
        self.k = k

    def rvs(self, size, random_state=None):
        point()
        return self.k*random_state.normal(size=size)


def cb(value):
    """A parameter as a function of time."""
    value = np.asarray(value)

    def f(t):
        point()
        return value*(1 + t/4)
    return f


TT = np.array([0., .5, 1.25])


# ------------------------------------------------------------ programs
# name -> function of the parameterization i, returning (make, run):
# make() creates the instances used, run(instances) uses them; repeatable

PROGS = {}
TINY = ('wiener', 'user', 'dw', 'kfunc f')


def prog(f):
    PROGS[f.__name__.replace('_', ' ')] = f
    return f


def V(i):
    return 1. + .5*i


def simple(make, tt=TT):
    def run(z):
        return z(tt), dict(z.info)
    return make, run


@prog
def wiener(i):
    return simple(lambda: sdepy.wiener_process(
        paths=2, x0=V(i), mu=cb(V(i)), dw=Src((), 2, i)))


@prog
def wiener_i0(i):
    return simple(lambda: sdepy.wiener_process(
        paths=2, vshape=(2,), x0=[[V(i)], [2.]], sigma=cb([[V(i)], [.5]]),
        i0=1, steps=3 + i, dw=Src((2,), 2, i)))


@prog
def lognorm(i):
    rng = PRng(3 + i)

    def run(z):
        rng.restart()
        return z(TT), dict(z.info)
    return lambda: sdepy.lognorm_process(
        paths=2, vshape=2, x0=V(i), sigma=cb(V(i)), rng=rng,
        corr=[[1., .5*i], [.5*i, 1.]]), run


@prog
def oruh(i):
    return simple(lambda: sdepy.ornstein_uhlenbeck_process(
        paths=2, theta=cb(V(i)), k=V(i),
        sigma=sdepy.process([0., 2.], v=[V(i), 1.]), dw=Src((), 2, i)))


@prog
def hull_white(i):
    return simple(lambda: sdepy.hull_white_process(
        paths=2, factors=2 + i, vshape=(1,), theta=cb(V(i)),
        dw=Src((1, 2 + i), 2, i)))


@prog
def cir(i):
    return simple(lambda: sdepy.cox_ingersoll_ross_process(
        paths=2, x0=V(i), xi=cb(.2*V(i)), dw=Src((), 2, i)))


@prog
def heston_xy(i):
    return simple(lambda: sdepy.full_heston_process(
        paths=2, x0=V(i), y0=.1*V(i), xi=cb(V(i)),
        vshape=() if i else (2,), dw=Src((2,) if i else (4,), 2, i)))


@prog
def heston(i):
    return simple(lambda: sdepy.heston_process(
        paths=2, x0=V(i), sigma=cb(V(i)),
        vshape=(2,) if i else (), dw=Src((4,) if i else (2,), 2, i)))


@prog
def jumpdiff(i):
    return simple(lambda: sdepy.jumpdiff_process(
        paths=2, x0=V(i), mu=cb(V(i)), dw=Src((), 2, i), dj=JSrc((), 2, i)))


@prog
def jumps(i):
    rng = PRng(5 + i)

    def run(z):
        rng.restart()
        return z(TT[:2]), dict(z.info)

    def make():
        cls = sdepy.merton_jumpdiff_process if i else \
            sdepy.kou_jumpdiff_process
        return cls(paths=2, x0=V(i), lam=cb(3*V(i)), rng=rng)
    return make, run


@prog
def user(i):
    class P(sdepy.SDE, sdepy.integrator):
        def init(self, t, out_x, x0=1., y=V(i)):
            point()
            out_x[...] = x0 + y

        def sde(self, t, x, a=V(i)):
            point()
            return {'dt': -a*x, 'dw': x}

        def let(self, t, out_x, x):
            point()
            out_x[...] = 2*x
    return simple(lambda: P(paths=2, dw=Src((), 2, i)))


@prog
def user_sources(i):
    class P(sdepy.SDE, sdepy.integrator):
        sources = {'dt', 'dn'} if i else {'dt', 'dx'}

        def source_dx(self, k=1.):
            point()
            return Src(self.wshape, self.paths, k)

        def more(self, bonus=V(i)):
            self.bonus = bonus

        def shapes(self, vshape):
            point()
            return vshape, vshape, vshape

        def sde(self, t, x):
            point()
            return {'dt': self.bonus, ('dn' if i else 'dx'): 1}

        def info_next(self):
            point()
            self.info['last'] = float(self.itervars['last_t'])

        def result(self, tt, xx):
            point()
            return sdepy.process(tt, x=self.bonus*xx)
    if i:
        return simple(lambda: P(paths=2, dn=Src((), 2, i, integer=True)))
    return simple(lambda: P(paths=2, k=.5))


@sdepy.integrate
def _shared_class(t=0., x=1., a=1.):
    point()
    return {'dt': a*x, 'dw': 1.}


@prog
def shared_class(i):
    return simple(lambda: _shared_class(paths=2, x0=V(i), a=cb(V(i)),
                                        dw=Src((), 2, i)))


@prog
def decorated(i):
    def make():
        @sdepy.integrate(log=bool(i), q=0, sources={'dt', 'dw'})
        def f(t, x, a=V(i)):
            point()
            return {'dt': a, 'dw': .5}
        return f(paths=2, x0=V(i), dw=Src((), 2, i))
    return simple(make)


@prog
def system(i):
    def make():
        @sdepy.integrate(q=2 + i, sources={'dt', 'dw'})
        def f(t, *xs, a=V(i)):
            point()
            return [{'dt': -a*x, 'dw': .1*k} for k, x in enumerate(xs)]

        class F(sdepy.SDEs, sdepy.integrator):
            q = 2 + i

            def sde(self, t, x, y, a=V(i), z=None):
                point()
                return [{'dt': -a*y, 'dw': x}, {'dt': x}]
        if i:
            class F(sdepy.SDEs, sdepy.integrator):     # noqa: F811
                q = 1

                def sde(self, t, x, a=V(i)):
                    point()
                    return [{'dt': -a*x, 'dw': 1}]
        return F(paths=2, vshape=() if i else (2,),
                 dw=Src((1,) if i else (4,), 2, i))
    return simple(make)


@prog
def generator(i):
    class G(sdepy.paths_generator):
        depth = 2 + i

        def begin(self):
            point()
            for k in range(self.depth - 1):
                self.itervars['xw'][k][...] = V(i) + k

        def next(self):
            point()
            sw, xw = self.itervars['sw'], self.itervars['xw']
            xw[-1][...] = xw[-2] + xw[0]*(sw[-1] - sw[-2])

        def store(self, i, k):
            point()
            self.itervars['xx'][i] = self.itervars['xw'][k]

        def exit(self, tt, xx):
            point()
            return sdepy.process(tt, x=xx)
    return simple(lambda: G(paths=2, steps=4 + i))


class _Method(sdepy.SDE, sdepy.integrator):
    def half_next(self):
        point()
        self.euler_next()
        self.itervars['xw'][1][...] *= .5

    def sde(self, t, x):
        return {'dt': x}


@prog
def method(i):
    return simple(lambda: _Method(paths=2, method='half' if i else 'euler'))


class _Options(sdepy.SDEs, sdepy.integrator):
    q = 2

    def sde(self, t, x, y, a=1., b=0.):
        point()
        return [{'dt': -a*y, 'dw': x}, {'dt': x + b, 'dw': 1.}]


@prog
def options(i):
    """one class, with all options different"""
    def make():
        kw = dict(paths=3, vshape=2, i0=-1, steps=5, getinfo=False,
                  dtype='f4', x0=[2., 3.], a=cb(.5),
                  dw=Src((4,), 3, 1)) if i else \
            dict(paths=2, i0=0, b=cb(2.), dw=Src((2,), 2, 0))
        return _Options(**kw)
    return simple(make)


@prog
def dw(i):
    rng = PRng(1 + i)

    def make():
        return (sdepy.wiener_source(paths=2, vshape=2, rng=rng,
                                    rho=None if i else .5),
                sdepy.odd_wiener_source(paths=2, rng=rng))

    def run(z):
        rng.restart()
        return z[0]([0., 1.], .5), z[1](0., V(i))
    return make, run


@prog
def dj(i):
    rng = PRng(1 + i)

    def make():
        return (sdepy.cpoisson_source(paths=3, rng=rng, lam=cb(2*V(i)),
                                      y=RV(V(i))),
                sdepy.even_cpoisson_source(paths=2, vshape=2, rng=rng,
                                           lam=V(i), y=sdepy.exp_rv(V(i))),
                sdepy.even_poisson_source(paths=2, rng=rng, lam=3*V(i)))

    def run(z):
        rng.restart()
        out = z[0]([0., 1.], .5), z[1](0., V(i)), z[2](0., -1.)
        return out + (z[0].dn_value, [y.copy() for y in z[0].y_value])
    return make, run


@prog
def true(i):
    def make():
        return None

    def run(z):
        rng = PRng(7 + i)
        z = (sdepy.true_wiener_source(paths=2, rng=rng, z0=V(i)),
             sdepy.true_wiener_source(paths=2, vshape=2, rng=rng,
                                      corr=cb([[1., .3], [.3, 1.]])),
             sdepy.true_poisson_source(paths=2, rng=rng, lam=3*V(i)),
             sdepy.true_cpoisson_source(paths=2, rng=rng, lam=2*V(i),
                                        y=RV(V(i))))
        out = []
        for t in (1., -.5, .25):
            out += [y(t) for y in z]
        return out + [y.t for y in z]
    return make, run


@prog
def simulation(i):
    def make():
        return None

    def run(z):
        a = sdepy.montecarlo(bins=4 + i)
        for k in range(2):
            point()
            a.update(V(i)*np.sin(np.arange(12.) + k).reshape(2, 6))
            point()
        b = a[i]
        return (a.mean(), a.std(), a.skew(), a.kurtosis(), a.paths,
                b.histogram()[0], b.histogram()[1], b.pdf([.1, .2]),
                b.cdf([.1, .2], method='interp'))
    return make, run


@prog
def kfunc_f(i):
    def make():
        @kfunc(nvar=1)
        def f(t, *, a=1., b=2.):
            point()
            return a*t + b

        return f(a=V(i)), sdepy.wiener_mean, sdepy.lognorm_std

    def run(z):
        f = z[0]
        g = f(b=V(i) + 1)
        return (f(1.), g(2.), g(1., a=3.), f(2.), list(f.params.values()),
                list(g.params.values()), z[1]([1., 2.], mu=V(i)),
                z[2](1., sigma=V(i)))
    return make, run


@kfunc
class _Shared:
    def __init__(self, *, a=1., b=2.):
        point()
        self.a, self.b = a, b

    def __call__(self, t, u=0.):
        point()
        return self.a*t + self.b + u


_parent = _Shared(a=5.)


@prog
def kfunc_class(i):
    """variations of one shared object, and kfunc processes"""
    K = []

    def make():
        if not K:
            K.append(kfunc(sdepy.wiener_process))
        return K[0](paths=2, x0=V(i), dw=Src((), 2, i)), _parent

    def run(z):
        w, p = z
        q = p(b=V(i))
        return (w(TT), w(TT, mu=cb(V(i))), w(x0=3.)(TT), q(1.),
                p(2., b=3*V(i), u=V(i)), q(1., a=V(i)), p(1.),
                _Shared(2., b=V(i)), w.params['x0'],
                p.params['a'], p.params['b'], q.params['b'])
    return make, run


@prog
def process_ops(i):
    def make():
        return sdepy.process([0., 1., 3.], x=V(i)*np.arange(6.).reshape(
            3, 1, 2)), sdepy.piecewise([0., 1., 3.], v=[V(i), 2., 3.],
                                       mode='forward' if i else 'backward')

    def run(z):
        p, q = z
        return (p([.5, 2.]), q([.5, .6, 2.]), p + q(p.t)[:, np.newaxis]*0
                if False else p + 1., p.pmean(), p.tint(), p.tder(),
                p['v', 0], p.chf(V(i)), p.cdf([1., 2.]), np.exp(p),
                p.rebase([0., V(i)]), q.interp_kind, p.interp_kind)
    return make, run


@prog
def analytical(i):
    def make():
        return None

    def run(z):
        s = sdepy
        return (s.heston_log_mean(V(i)), s.heston_log_chf(V(i), [.5, 1.]),
                s.hw2f_std(V(i), sigma=(V(i), 1.)),
                s.mjd_log_chf(1., V(i)), s.kou_mean(1., a=.5/V(i)),
                s.bscall(V(i), 1.), s.bsput_delta(1., V(i)),
                s.cir_pdf(1., V(i)))
    return make, run


NAMES = list(PROGS)


class Program:
    def __init__(self, name, i):
        self.name, self.i = name, i
        self.make, self.run = PROGS[name](i)

    def __call__(self):
        return freeze(self.run(self.make()))


def freeze(r):
    if isinstance(r, (tuple, list)):
        return tuple(freeze(z) for z in r)
    if isinstance(r, sdepy.process):
        return (np.array(r.x), np.array(r.t))
    if isinstance(r, dict):
        return tuple((str(k), freeze(z)) for k, z in sorted(r.items()))
    if isinstance(r, np.ndarray):
        return np.array(r)
    return r


def diff(got, want):
    """'' if equal"""
    if isinstance(want, tuple):
        if not isinstance(got, tuple) or len(got) != len(want):
            return 'got %r, expected %r' % (got, want)
        for g, w in zip(got, want):
            d = diff(g, w)
            if d:
                return d
        return ''
    if isinstance(want, np.ndarray):
        if got.shape == want.shape and np.allclose(
                got, want, rtol=1e-9, atol=1e-9, equal_nan=True):
            return ''
        return 'got %r, expected %r' % (got, want)
    if isinstance(want, float) and isinstance(got, (float, np.floating)):
        if got == want or abs(got - want) < 1e-9*(1 + abs(want)) or \
                (np.isnan(got) and np.isnan(want)):
            return ''
    elif got == want:
        return ''
    return 'got %r, expected %r' % (got, want)


def alone(name, i):
    """the result of a program alone, in a separate process; the number of
    callback points and of library lines it goes through"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ['ok', Program(name, i)()]
                n = [0]

                def hook():
                    n[0] += 1
                Hook.fn = hook
                Program(name, i)()
                Hook.fn = None
                out.append(n[0])
                m = Lines(lambda k: None)
                m(Program(name, i))
                out.append(m.n)
            except Exception as e:
                out = ('error', repr(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data)
    if out[0] != 'ok':
        raise RuntimeError('program %s alone: %s' % (name, out[1]))
    return out[1:]


class Lines:
    """Runs a function calling fn(k) before the k-th line of the library."""

    def __init__(self, fn):
        self.fn, self.n, self.busy = fn, 0, False

    def local(self, frame, event, arg):
        if event == 'line' and not self.busy:
            k = self.n
            self.n += 1
            self.busy = True
            try:
                self.fn(k)
            finally:
                self.busy = False
        return self.local

    def glob(self, frame, event, arg):
        if not self.busy and frame.f_code.co_filename.startswith(LIB):
            return self.local
        return None

    def __call__(self, thunk):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return thunk()
        finally:
            sys.settrace(old)


_base = {}


def base(name, i):
    if (name, i) not in _base:
        _base[name, i] = alone(name, i)
    return _base[name, i]


def verdict(rec, got, name, i, msg):
    rec.evaluations += 1
    d = diff(got, base(name, i)[0])
    if d:
        rec.fail('%s: program %s(%d) differs from its result alone: %s' % (
            msg, name, i, d))


# ------------------------------------------------------------ nesting

def nest(a, k, b):
    """a, with b running inside its k-th callback"""
    n, out = [0], []

    def hook():
        n[0] += 1
        if n[0] - 1 == k:
            Hook.fn = None
            try:
                out.append(b())
            finally:
                Hook.fn = hook
    Hook.fn = hook
    try:
        ra = a()
    finally:
        Hook.fn = None
    return ra, out[0] if out else None


def u_nested(rec, a, bs):
    def go(b, i):
        for k in range(base(a, i)[1]):
            ra, rb = nest(Program(a, i), k, Program(b, 1 - i))
            rec.step()
            rec.state(a, i, k, b)
            msg = '%s inside callback %d of %s' % (b, k, a)
            verdict(rec, ra, a, i, msg)
            if rb is not None:
                verdict(rec, rb, b, 1 - i, msg)
    for b in bs:
        for i in (0, 1):
            rec.case([a, b, i], lambda: go(b, i))


def u_nested2(rec, a, bs, cs):
    """c inside b inside a"""
    def go(b, c):
        for k in range(base(a, 0)[1]):
            for m in range(base(b, 1)[1]):
                got = []

                def inner():
                    r = nest(Program(b, 1), m, Program(c, 0))
                    got.append(r[1])
                    return r[0]
                ra, rb = nest(Program(a, 0), k, inner)
                rec.step()
                rec.state(a, k, b, m, c)
                msg = '%s inside callback %d of %s inside %d of %s' % (
                    c, m, b, k, a)
                verdict(rec, ra, a, 0, msg)
                if rb is not None:
                    verdict(rec, rb, b, 1, msg)
                if got and got[0] is not None:
                    verdict(rec, got[0], c, 0, msg)
    for b in bs:
        for c in cs:
            rec.case([a, b, c], lambda: go(b, c))


# ------------------------------------------------------------ threads

class Scheduler:
    """Runs thunks in threads, one at a time; at each point the chooser may
    switch to another thread."""

    def __init__(self, thunks, ch, lines=False):
        self.thunks, self.ch, self.lines = thunks, ch, lines
        n = len(thunks)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.result, self.error = [None]*n, [None]*n
        self.done = threading.Event()
        self.current = None
        self.points = 0

    def point(self, *_):
        me = self.current
        if threading.get_ident() != self.ident[me]:
            raise RuntimeError('a thread runs out of turn')
        self.points += 1
        others = [t for t in self.alive if t != me]
        if not others:
            return
        c = self.ch.choose(1 + len(others))
        if c:
            self.switch(others[c - 1])
            self.sem[me].acquire()

    def switch(self, t):
        self.current = t
        self.sem[t].release()

    def body(self, t):
        self.ident[t] = threading.get_ident()
        self.ready[t].release()
        self.sem[t].acquire()
        try:
            if self.lines:
                self.result[t] = Lines(self.point)(self.thunks[t])
            else:
                self.result[t] = self.thunks[t]()
        except BaseException as e:
            self.error[t] = e
        self.alive.remove(t)
        if self.alive:
            self.switch(self.alive[0])
        else:
            self.done.set()

    def run(self):
        n = len(self.thunks)
        self.ident = [None]*n
        self.ready = [threading.Semaphore(0) for _ in range(n)]
        th = [threading.Thread(target=self.body, args=(t,), daemon=True)
              for t in range(n)]
        for t in th:
            t.start()
        for r in self.ready:
            r.acquire()
        Hook.fn = None if self.lines else self.point
        try:
            self.switch(0)
            if not self.done.wait(60):
                raise RuntimeError('deadlock: the threads do not terminate')
        finally:
            Hook.fn = None
        for t in th:
            t.join()
        for e in self.error:
            if e is not None:
                raise e
        return self.result


def u_threads(rec, progs, bound, lines=False, limit=None):
    """all schedules with up to `bound` preemptions (None: all)"""
    want = list(zip(progs, [k % 2 for k in range(len(progs))]))

    def go():
        for name, i in want:
            base(name, i)

        def one(ch):
            s = Scheduler([Program(*w) for w in want], ch, lines)
            res = s.run()
            return res, s.points
        for (res, points), ch in explore(one, max_deviations=bound):
            rec.step(points)
            rec.state(progs, tuple(ch.trace))
            rec.count('schedules')
            for (name, i), r in zip(want, res):
                verdict(rec, r, name, i,
                        'schedule %s of %s' % (_brief(ch.trace), progs))
    rec.case([progs, bound, lines], go)


def _brief(trace):
    return [(k, c) for k, c in enumerate(trace) if c]


# ------------------------------------------------------------ lines

def u_lines(rec, a, i, bs, part=0, parts=1):
    """one preemption of a, before each line it executes, b running whole"""
    def go(b):
        pb = Program(b, 1 - i)
        n = base(a, i)[2]
        for k in range(part, n, parts):
            out = []

            def fn(j):
                if j == k:
                    out.append(pb())
            ra = Lines(fn)(Program(a, i))
            rec.step()
            rec.state(a, i, k, b)
            msg = '%s at line event %d of %s' % (b, k, a)
            verdict(rec, ra, a, i, msg)
            for r in out:
                verdict(rec, r, b, 1 - i, msg)
    for b in bs:
        rec.case([a, i, b, part], lambda: go(b))


# ------------------------------------------------------------ faults

class Boom(Exception):
    pass


class Stop(BaseException):
    pass


# these use instances holding a state that an interruption at an arbitrary
# line may leave half updated: only new instances are expected to be right
STATEFUL = ('true', 'simulation')


def u_faults(rec, name, lines, part=0, parts=1, others=()):
    """the program fails at each point: it works the next times, with the
    same instances or with new ones, and so do the others"""
    def go(i, exc):
        n = base(name, i)[2 if lines else 1]
        for k in range(part, n, parts):
            p = Program(name, i)
            inst, made = None, False
            m = [0]

            def hook(j=None):
                m[0] += 1
                if m[0] - 1 == k:
                    raise exc()
            try:
                if lines:
                    def whole():
                        nonlocal inst, made
                        inst = p.make()
                        made = True
                        return p.run(inst)
                    Lines(hook)(whole)
                else:
                    Hook.fn = hook
                    inst = p.make()
                    made = True
                    p.run(inst)
            except exc:
                pass
            finally:
                Hook.fn = None
            rec.step()
            rec.state(name, i, k, exc.__name__, lines)
            msg = 'after a failure at %s %d of %s' % (
                'line event' if lines else 'callback', k, name)
            if made:
                verdict(rec, freeze(p.run(inst)), name, i,
                        msg + ', same instance')
                verdict(rec, freeze(p.run(inst)), name, i,
                        msg + ', same instance, twice')
            verdict(rec, Program(name, i)(), name, i, msg + ', new instance')
            verdict(rec, Program(name, 1 - i)(), name, 1 - i, msg)
            for b in others:
                verdict(rec, Program(b, 1 - i)(), b, 1 - i, msg)
    for i in (0, 1):
        for exc in ((Boom, Stop) if not lines else (Stop,)):
            rec.case([name, i, exc.__name__, lines, part],
                     lambda: go(i, exc))


def u_swallowed(rec, name):
    """a failing integration whose error is caught inside a callback of
    another, which goes on"""
    def go(i):
        for b in NAMES:
            for k in range(base(name, i)[1]):
                for m in range(0, base(b, 1 - i)[1]):
                    def inner():
                        def boom():
                            raise Boom()
                        try:
                            nest(Program(b, 1 - i), m, boom)
                        except Boom:
                            pass
                    ra, _ = nest(Program(name, i), k, inner)
                    rec.step()
                    verdict(rec, ra, name, i,
                            '%s failing in callback %d of it' % (b, k))
    for i in (0, 1):
        rec.case([name, i], lambda: go(i))


def u_repeat(rec, name):
    """sequences of runs of instances of both parameterizations"""
    def go(depth):
        import itertools
        for seq in itertools.product((0, 1, 2, 3), repeat=depth):
            # instances 0, 1: parameterizations 0, 1; 2, 3: again
            ps = [Program(name, k % 2) for k in range(4)]
            inst = [p.make() for p in ps]
            for k in seq:
                verdict(rec, freeze(ps[k].run(inst[k])), name, k % 2,
                        'runs %s of instances' % (seq,))
                rec.step()
            rec.state(name, seq)
    rec.case([name], lambda: go(3 if rec.tier == 'quick' else 5))


# ------------------------------------------------------------ units

POLLUTERS = ('user sources', 'system', 'kfunc class', 'jumps')
SHORT = ('wiener', 'cir', 'oruh', 'user', 'shared class', 'decorated',
         'method', 'dw', 'kfunc f', 'simulation', 'generator')


def units(tier, seed):
    out = []
    q = tier == 'quick'
    for a in NAMES:
        out.append(dict(u='nested', a=a, bs=NAMES))
        out.append(dict(u='repeat', name=a))
        out.append(dict(u='faults', name=a, lines=False))
        parts = 2 if q else 4
        for k in range(parts):
            out.append(dict(u='faults', name=a, lines=True, part=k,
                            parts=parts,
                            others=[] if q else list(POLLUTERS)))
        for i in (0, 1):
            if q:
                out.append(dict(u='lines', a=a, i=i, bs=[a]))
            else:
                for k in range(0, len(NAMES), 4):
                    out.append(dict(u='lines', a=a, i=i, bs=NAMES[k:k + 4]))
        if q:
            out.append(dict(u='lines', a=a, i=0,
                            bs=[b for b in POLLUTERS if b != a][:2]))
    for a in NAMES:
        bs = [a] + [b for b in (POLLUTERS if q else NAMES) if b != a]
        for b in bs:
            out.append(dict(u='threads', progs=[a, b],
                            bound=2 if q and a != b else
                            2 if q else 3))
    if not q:
        for a in SHORT:
            out.append(dict(u='swallowed', name=a))
            out.append(dict(u='nested2', a=a, bs=SHORT, cs=SHORT))
            out.append(dict(u='threads', progs=[a, a, a], bound=2))
            if a in TINY:
                out.append(dict(u='threads', progs=[a, a], bound=None))
        for a in TINY:
            for b in TINY:
                out.append(dict(u='threads', progs=[a, b], bound=2,
                                lines=True))
    return out


def run_unit(rec, u):
    u = dict(u)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['u_' + u.pop('u')](rec, **u)
