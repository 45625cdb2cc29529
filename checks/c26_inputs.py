"""C26: no call modifies what is passed to it, or interferes with later ones."""
import os
import pickle
import warnings
import numpy as np
import sdepy
import sdepy.analytical as an
from sdepy import kfunc

PROPERTY = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of call histories on shared argument objects: all operations '
             'alone in every argument form, and all ordered pairs (a, b, a) - thorough: all triples '
             'over an operation basis - each state snapshotted bytewise and each result compared '
             'with the result in a fresh world computed in a separate process')
LEVEL_NOTE = ('about 190 operations covering all public entry points by 4 argument forms (arrays, '
              'read-only arrays, strided views, lists); all ordered pairs; results of sources and '
              'integrations overwritten after each call.')
RULE = ('a state is a history of operations on a shared world; a transition is one call followed by '
        'a bytewise comparison of all objects passed; traces count histories')


# ------------------------------------------------------------ the world

class Src:
    """A stateless source returning always the same arrays."""

    def __init__(self, vshape, paths, integer=False):
        self.vshape, self.paths = vshape, paths
        z = np.linspace(-1.1, 1.3, int(np.prod(vshape + (paths,))))
        z = z.reshape(vshape + (paths,))
        self.vals = np.round(2*z).astype(int) if integer else z
        self.dtype = self.vals.dtype

    def __call__(self, s, ds):
        return self.vals


class ASrc(Src):
    """As Src, for source calls on arrays of times."""

    def __call__(self, s, ds):
        s, ds = np.broadcast_arrays(s, ds)
        return np.sign(ds).astype(int).reshape(
            s.shape + (1,)*self.vals.ndim)*np.abs(self.vals)


FORMS = ('plain', 'readonly', 'strided', 'lists')


class World:
    """All objects passed by a user to the operations."""

    def __init__(self, form):
        self.form = form
        self.keep = {}
        self.inst = {}
        A = self.arr
        self.tl = A([0., .5, 1., 2.])
        self.tli = A([0, 1, 3])
        self.tneg = A([-1., -.25, 0., 1.5])
        self.steps = A([.25, .5, .8, 1.6, 7.])
        self.s = A([-.5, .2, .5, 1.7, 2.5])
        self.ds = A([.5, -.2, .1, .3, -.7])
        self.s2 = A([[.3, .6], [.9, 1.2]])
        self.u = A([.5, -1., 2.])
        self.v2 = A([.4, 1.2])
        self.w2 = A([1.5, .7])
        self.m21 = A([[.3], [.5]])
        self.m24 = A(np.linspace(.2, 1.1, 8).reshape(2, 4))
        self.n24 = A(np.linspace(.5, 1.6, 8).reshape(2, 4))
        self.x4 = A([.5, .9, 1.1, 1.6])
        self.lam = A([[2.], [.5]])
        self.lami = A([[2], [1]])
        self.corr = A([[1., .4], [.4, 1.]])
        self.corr3 = A([[[1.], [.4]], [[.4], [1.]]])
        self.rho = A(.4) if form != 'lists' else .4
        self.rho2 = A([.4, -.3])
        self.rho21 = A([[.4], [-.3]])
        self.sample = A(np.sin(np.arange(24.)).reshape(2, 12))
        self.samplei = A(np.arange(12) % 5)
        self.bins = A([np.linspace(-1.5, 1.5, 7)]*2)
        self.bins1 = A(np.linspace(-1.5, 5.5, 7))
        self.t3 = A([.5, 1., 2.])
        self.k3 = A([.8, 1., 1.3])
        self.pair = A([.1, .2])
        self.body = A(np.linspace(-1., 2., 24).reshape(4, 2, 3))
        # processes as arguments
        P = sdepy.process
        t = np.array([0., .5, 1., 2.])
        self.p = P(t, x=np.cos(np.arange(24.)).reshape(4, 2, 3))
        self.q = P(t, x=np.arange(4.).reshape(4, 1, 1) + np.ones((4, 2, 1)))
        self.pint = P(np.array([0, 1, 2, 4]), x=np.arange(8).reshape(4, 2, 1))
        self.pc = P(c=np.array([.5, 1.]))
        self.psig = P(t, x=.3 + np.arange(8.).reshape(4, 2, 1)/10)
        self.pcor = P(t, x=np.stack([
            [[1., r], [r, 1.]] for r in (.1, .2, .3, .4)])[..., np.newaxis])
        if form == 'readonly':
            for z in (self.p, self.q, self.pint, self.pc, self.psig,
                      self.pcor):
                z.x.setflags(write=False)
                np.ndarray.setflags(z, write=False)
                z.t.setflags(write=False)
        # callables returning always the same array
        c21, c24 = np.array(self.m21), np.array(self.m24)
        ccor, clam = np.array(self.corr), np.array(self.lam)
        self.cached = [c21, c24, ccor, clam]
        self.f21 = lambda t: c21
        self.f24 = lambda t: c24
        self.fcor = lambda t: ccor
        self.flam = lambda t: clam
        self.frho = lambda t: self.cached[4]
        self.cached.append(np.array([.4, -.3]))
        # coefficients returned by a user sde
        self.coef = {'dt': np.array([[.1], [.2]]),
                     'dw': np.array([[.3, .4, .5, .6], [.7, .8, .9, 1.]])}
        self.coef2 = ({'dt': np.array([[.1], [.2]]), 'dw': c21},
                      {'dw': c24, 'dt': 0.})
        self.listing = [{'dt': 1., 'dw': c21}]
        # noise sources
        self.dz = Src((2,), 4)
        self.dz4 = Src((4,), 4)
        self.dz22 = Src((2, 2), 4)
        self.dzs = Src((), 4)
        self.dj = Src((2,), 4)
        self.dn = ASrc((2,), 4, integer=True)
        self.rvn = sdepy.norm_rv(np.array([.1, .2]).reshape(2, 1)[0], .3)
        self.rv0 = sdepy.norm_rv(.1, .3)
        self.rve = sdepy.double_exp_rv(a=.4, b=.3, pa=.6)
        self.params = {'x0': 1.2, 'mu': self.m21, 'sigma': self.f21}
        self.obj = {'a': [1., 2.], 'b': {'c': np.array([3., 4.])}}
        self.klist = [.5, 1.5]
        self.z0 = np.array([[.5], [1.]])

    def arr(self, x):
        a = np.array(x)
        if self.form == 'lists':
            return a.tolist()
        if self.form == 'strided':
            b = np.full(tuple(2*k for k in a.shape), -9, dtype=a.dtype)
            v = b[(Ellipsis,) + tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            self.keep[len(self.keep)] = b
            return v
        if self.form == 'readonly':
            a.setflags(write=False)
        return a

    def get(self, name, make):
        if name not in self.inst:
            self.inst[name] = make()
        return self.inst[name]

    def __getattr__(self, name):
        """true sources, stateful: known at the times used later"""
        kw = dict(paths=3, vshape=(2,), rng=rng())
        if name == 'tw':
            z = sdepy.true_wiener_source(z0=self.z0, **kw)
        elif name == 'twc':
            z = sdepy.true_wiener_source(corr=self.corr, **kw)
        elif name == 'tn':
            z = sdepy.true_poisson_source(lam=self.lam, **kw)
        elif name == 'tj':
            z = sdepy.true_cpoisson_source(lam=self.lam, y=self.rv0, **kw)
        else:
            raise AttributeError(name)
        for t in TRUE_T:
            z(t)
        setattr(self, name, z)
        return z

    def snapshot(self):
        skip = {'inst', 'tw', 'twc', 'tn', 'tj', 'form'}
        return {k: snap(z) for k, z in vars(self).items() if k not in skip}


TRUE_T = (0., .5, 1., 2., -1., -.5, .25, .75, 1.5)


def rng(k=5):
    return np.random.default_rng(k)


def snap(z, depth=0):
    """A value describing an object completely, as far as a user sees it."""
    if isinstance(z, sdepy.process):
        return ('process', snap(np.asarray(z.x)), snap(z.t))
    if isinstance(z, np.ndarray):
        if z.dtype == object:
            return ('array', z.shape, [snap(i) for i in z.flat])
        return (type(z).__name__, z.dtype.str, z.shape, z.tobytes(),
                z.flags.writeable)
    if isinstance(z, dict):
        return ('dict', [(k, snap(y, depth)) for k, y in z.items()])
    if isinstance(z, (list, tuple)):
        return (type(z).__name__, [snap(y, depth) for y in z])
    if isinstance(z, Src):
        return ('src', snap(vars(z)))
    if isinstance(z, sdepy.source):
        return ('source', z.paths, z.vshape, repr(z.dtype))
    if hasattr(z, 'rvs') and hasattr(z, 'args') and hasattr(z, 'kwds'):
        return ('rv', snap(z.args), snap(z.kwds))
    if hasattr(z, 'rvs') and depth < 2:
        return ('rv', [(k, snap(y, depth + 1)) for k, y in
                       sorted(vars(z).items())])
    if callable(z):
        return 'callable'
    return repr(z)


# ------------------------------------------------------------ operations

_FT = type(lambda: 0)
OPS = {}          # name -> (function, values of a source or integration?)


def op(name, f, out=False):
    assert name not in OPS
    OPS[name] = (f, out)


def ops_process():
    P = sdepy.process
    op('process(t, x)', lambda W: P(W.tl, x=W.body) + 0)
    op('process(t, v)', lambda W: P(W.tl, v=W.x4) + 0)
    op('process(t, c)', lambda W: P(W.tl, c=W.v2) + 0)
    op('process(c) dtype', lambda W: P(c=W.v2, dtype=np.float32) + 0)
    op('process(x) dtype', lambda W: P(W.tl, x=W.body, dtype=np.float32) + 0)
    for kind in ('linear', 'nearest', 'zero', 'cubic', 'previous'):
        op('p(s) %s' % kind, lambda W, kind=kind: W.p(W.s, kind=kind))
    op('p(s, ds)', lambda W: W.p(W.s, W.ds))
    op('p(s2)', lambda W: W.p(W.s2))
    op('pint(s)', lambda W: W.pint(W.s))
    op('pc(s)', lambda W: W.pc(W.s))
    op('pc(s, ds)', lambda W: W.pc(W.s, W.ds))
    op('p.interp()', lambda W: W.p.interp()(W.s2))
    op('p.rebase', lambda W: W.p.rebase(W.s))
    op('pc.rebase', lambda W: W.pc.rebase(W.tl))
    for m in ('pmin pmax psum pmean pvar pstd vmin vmax vsum vmean vvar vstd '
              'tmin tmax tsum tcumsum tmean tvar tstd tder tint').split():
        op('p.' + m, lambda W, m=m: getattr(W.p, m)())
    op('pint.tint', lambda W: W.pint.tint())
    op('pint.tder', lambda W: W.pint.tder())
    op('p.tdiff 2', lambda W: W.p.tdiff(dt_exp=2, fwd=False))
    op('p.tdiff .5', lambda W: W.p.tdiff(dt_exp=.5))
    op('p.pvar ddof', lambda W: W.p.pvar(ddof=1, dtype=np.float32))
    op('p.chf', lambda W: W.p.chf(W.u))
    op('p.chf(s, u)', lambda W: W.p.chf(W.s, W.u))
    op('p.cdf', lambda W: W.p.cdf(W.u))
    op('p.cdf(s, x)', lambda W: W.p.cdf(W.s2, W.u))
    op('pint.cdf', lambda W: W.pint.cdf(W.tli, W.tli))
    for mode in ('mid', 'forward', 'backward'):
        op('piecewise ' + mode, lambda W, mode=mode: sdepy.piecewise(
            W.tl, x=W.body, mode=mode)(W.s))
        op('piecewise v ' + mode, lambda W, mode=mode: sdepy.piecewise(
            W.tli, v=W.k3, mode=mode)(W.s2))
    op('p indexing', lambda W: (
        W.p['v', 0], W.p['t', 1:3], W.p['p', :2], W.p[0], W.p[1, 0],
        W.p['v', np.newaxis], W.p['t', -1], W.p['p', [0, 2]]))
    op('p attributes', lambda W: (W.p.tx, W.p.dt, W.p.dtx, W.p.t, W.p.x,
                                  W.p.paths, W.p.vshape))
    op('p shapeas', lambda W: (W.p.shapeas((1, 2)), W.q.shapeas(W.p)))
    op('p copies', lambda W: (W.p.pcopy(), W.p.xcopy(), W.p.tcopy()))
    op('p + q', lambda W: W.p + W.q)
    op('p*pc - 1', lambda W: W.p*W.pc - 1)
    op('p + array', lambda W: W.p + np.asarray(W.m21))
    op('exp(p)', lambda W: np.exp(W.p))
    op('maximum(p, q)', lambda W: np.maximum(W.p, W.q))
    op('p <= q', lambda W: W.p <= W.q)
    op('augmented copy', _augmented)
    op('p.mean', lambda W: np.asarray(W.p.x.mean(axis=0)))


def _augmented(W):
    z = W.p.pcopy()
    z += W.q
    z *= 2
    np.exp(z, out=z)
    return z


def ops_sources():
    K = dict(paths=4, vshape=(2,))

    def src(name, cls, call=None, **kw):
        def f(W):
            args = {k: z(W) if type(z) is _FT else z for k, z in kw.items()}
            z = cls(rng=rng(), **{**K, **args})
            a = z(W.s, W.ds)
            b = z(.5, .25)
            c = z(W.s2, -.5)
            return a, b, c
        op('source ' + name, f, True)
    W_ = lambda name: (lambda W: getattr(W, name))     # noqa: E731
    w, n, j = (sdepy.wiener_source, sdepy.poisson_source,
               sdepy.cpoisson_source)
    src('dw', w)
    src('dw f32', w, dtype=np.float32)
    src('dw corr', w, corr=W_('corr'))
    src('dw corr3', w, corr=W_('corr3'))
    src('dw corr f', w, corr=W_('fcor'))
    src('dw corr process', w, corr=W_('pcor'))
    src('dw rho', w, rho=W_('rho'))
    src('dw rho2', w, rho=W_('rho2'), vshape=(4,))
    src('dw rho21', w, rho=W_('rho21'), vshape=(3, 4))
    src('dw rho f', w, rho=W_('frho'), vshape=(4,))
    src('dw odd', sdepy.odd_wiener_source, corr=W_('corr'))
    src('dn', n, lam=W_('lam'))
    src('dn i', n, lam=W_('lami'))
    src('dn f', n, lam=W_('flam'))
    src('dn process', n, lam=W_('psig'))
    src('dn float', n, lam=3, dtype=float)
    src('dn even', sdepy.even_poisson_source, lam=W_('lam'))
    src('dj', j, lam=W_('lam'))
    src('dj y', j, lam=W_('lami'), y=W_('rv0'))
    src('dj y f', j, lam=W_('flam'), y=lambda W: lambda t: W.rve)
    src('dj dn', j, dn=W_('dn'), y=W_('rv0'))
    src('dj even', sdepy.even_cpoisson_source, lam=W_('lam'), y=W_('rve'))
    src('dj norm_rv(f)', j, lam=2., y=lambda W: sdepy.norm_rv(
        a=lambda t: W.cached[4][0], b=.5))
    src('dj rvmap', j, lam=2., y=lambda W: sdepy.rvmap(np.exp, W.rv0))

    def true(name, cls, **kw):
        def f(W):
            args = {k: z(W) if type(z) is _FT else z for k, z in kw.items()}
            z = cls(rng=rng(), **{**K, **args})
            return (z(W.s), z(W.s), z(W.s2), z(W.s, W.ds), z(.3), z.t,
                    z[0](W.s))
        op('true ' + name, f, True)
    tw, tn, tj = (sdepy.true_wiener_source, sdepy.true_poisson_source,
                  sdepy.true_cpoisson_source)
    true('dw', tw)
    true('dw z0', tw, z0=W_('m21'), t0=1.)
    true('dw corr', tw, corr=W_('corr'))
    true('dw corr f', tw, corr=W_('fcor'))
    true('dw rho', tw, rho=W_('rho2'), vshape=(4,), z0=.5)
    true('dn', tn, lam=W_('lam'))
    true('dn z0', tn, lam=W_('flam'), z0=W_('lami'))
    true('dj', tj, lam=W_('lam'), y=W_('rv0'))
    true('dj dn', tj, dn=lambda W: tn(lam=W.lam, rng=rng(8), **K),
         y=W_('rve'))
    for name in ('tw', 'twc', 'tn', 'tj'):
        op('shared %s(t)' % name, lambda W, name=name: tuple(
            getattr(W, name)(t) for t in TRUE_T), True)
        op('shared %s[t]' % name, lambda W, name=name: getattr(W, name)(
            np.array(TRUE_T)), True)
        op('shared %s(t, dt)' % name, lambda W, name=name: getattr(W, name)(
            np.array([0., .5, 1.]), np.array([.5, .5, -1.])), True)
        op('shared %s[0]' % name, lambda W, name=name: getattr(W, name)[0](
            np.array(TRUE_T)), True)
    op('shared dz', lambda W: W.dn(W.s, W.ds) + 0)

    def shared(name, make):
        """one instance, its generator restarted by the same state"""
        def f(W):
            def ctor():
                g = rng()
                return make(W, g), g, g.bit_generator.state
            z, g, st = W.get(name, ctor)
            g.bit_generator.state = st
            return z(W.s, W.ds), z(.5, .25)
        op('instance ' + name, f, True)
    shared('dw', lambda W, g: w(rng=g, corr=W.corr, **K))
    shared('dn', lambda W, g: n(rng=g, lam=W.flam, **K))
    shared('dj', lambda W, g: j(rng=g, lam=W.lam, y=W.rve, **K))
    shared('odd dw', lambda W, g: sdepy.odd_wiener_source(rng=g, **K))
    shared('even dj', lambda W, g: sdepy.even_cpoisson_source(
        rng=g, lam=W.lam, **K))
    shared('dj dn', lambda W, g: j(rng=g, dn=W.dn, y=W.rv0, **K))


def ops_rv():
    def rv(name, f):
        def g(W):
            y = f(W)
            y = y(.5) if callable(y) else y
            out = [y.rvs((3, 2), random_state=rng())]
            for m in ('mean', 'var', 'std', 'exp_mean'):
                if hasattr(y, m):
                    out.append(getattr(y, m)())
            return tuple(out)
        op('rv ' + name, g)
    rv('norm', lambda W: sdepy.norm_rv(W.v2, W.w2))
    rv('uniform', lambda W: sdepy.uniform_rv(W.v2, np.asarray(W.v2) + 1))
    rv('exp', lambda W: sdepy.exp_rv(W.v2))
    rv('double_exp', lambda W: sdepy.double_exp_rv(W.v2, .5, pa=W.v2)
       if False else sdepy.double_exp_rv(.4, .5, .3))
    rv('norm f', lambda W: sdepy.norm_rv(lambda t: W.cached[4], .4))
    rv('exp f', lambda W: sdepy.exp_rv(lambda t: W.cached[4]))
    rv('shared', lambda W: W.rv0)
    rv('shared e', lambda W: W.rve)
    rv('rvmap', lambda W: sdepy.rvmap(lambda y: 2*y, W.rv0))
    rv('rvmap t', lambda W: sdepy.rvmap(lambda t, y: t*y, W.rve))


class _UserSDE(sdepy.SDE, sdepy.integrator):
    sources = {'dt', 'dw', 'dj'}

    def init(self, t, out_x, x0=1.):
        out_x[...] = x0

    def more(self, box=None):
        self.box = box

    def sde(self, t, x, mu=0., sigma=1.):
        return {'dt': mu, 'dw': sigma, 'dj': self.box.coef['dt']}

    def let(self, t, out_x, x):
        out_x[...] = x


def ops_integrations():
    I = sdepy                                           # noqa: E741
    K = dict(paths=4, vshape=(2,), steps=None)

    def integ(name, make, tls=('tl', 'tli')):
        """fresh and reused instances, with repeatable noise"""
        def fresh(W):
            return tuple(make(W)(getattr(W, t)) for t in tls)

        def reused(W):
            z = W.get(name, lambda: make(W))
            return tuple(z(getattr(W, t)) for t in tls)
        op('fresh ' + name, fresh, True)
        op('reuse ' + name, reused, True)

    def seeded(name, make):
        op('seeded ' + name, lambda W: make(W)(W.tl), True)
    integ('wiener', lambda W: I.wiener_process(
        dw=W.dz, x0=W.m21, mu=W.m24, sigma=W.f24, **K))
    integ('wiener steps', lambda W: I.wiener_process(
        dw=W.dz, x0=W.m24, mu=W.psig, sigma=W.m21, i0=1,
        **{**K, 'steps': W.steps}), ('tl', 'tneg'))
    integ('lognorm', lambda W: I.lognorm_process(
        dw=W.dz, x0=W.m24, mu=W.f21, sigma=W.psig, **K))
    integ('lognorm i0', lambda W: I.lognorm_process(
        dw=W.dz, x0=W.m21, sigma=W.m21, i0=-1, **K))
    integ('oruh', lambda W: I.ornstein_uhlenbeck_process(
        dw=W.dz, x0=W.m21, theta=W.m24, k=W.f21, sigma=W.m21, **K))
    integ('hw', lambda W: I.hull_white_process(
        dw=W.dz22, factors=2, x0=W.m24, theta=W.m21, k=W.m21,
        sigma=W.m24, **K))
    integ('hw1f', lambda W: I.hull_white_1factor_process(
        dw=W.dz, theta=W.psig, k=W.m21, **K))
    integ('cir', lambda W: I.cox_ingersoll_ross_process(
        dw=W.dz, x0=W.m24, theta=W.m21, k=W.f21, xi=W.m21, **K))
    integ('heston_xy', lambda W: I.full_heston_process(
        dw=W.dz4, x0=W.m21, y0=W.m24, mu=W.m21, sigma=W.m24, theta=W.f21,
        **K))
    integ('heston', lambda W: I.heston_process(
        dw=W.dz4, x0=W.m24, y0=W.m21, sigma=W.psig, xi=W.m21, **K))
    integ('jumpdiff', lambda W: I.jumpdiff_process(
        dw=W.dz, dj=W.dj, x0=W.m24, mu=W.m21, sigma=W.f21, **K))
    integ('user', lambda W: _UserSDE(
        dw=W.dz, dj=W.dj, box=W, x0=W.m21, mu=W.f21, sigma=W.m24, **K))
    integ('user f32', lambda W: _UserSDE(
        dw=W.dz, dj=W.dj, box=W, x0=W.m21, mu=W.f21, sigma=W.m24,
        dtype=np.float32, **K))

    def cached(W):
        @sdepy.integrate(q=0, sources={'dt', 'dw'})
        def f(t, x, mu=0.):
            return W.coef
        return f(dw=W.dz, x0=W.m24, mu=W.m21, **K)
    integ('cached dict', cached)

    def logged(W):
        @sdepy.integrate(q=0, sources={'dt', 'dw'}, log=True)
        def f(t, x, mu=0.):
            return W.coef
        return f(dw=W.dz, x0=W.n24, **K)
    integ('cached dict log', logged)

    def system(W):
        @sdepy.integrate(q=2, sources={'dt', 'dw'})
        def f(t, x, y, mu=0.):
            return W.coef2
        return f(dw=W.dz4, x0=W.m21 if False else np.array(1.),
                 mu=W.m21, **K)
    integ('cached system', system)

    def system1(W):
        @sdepy.integrate(q=1, sources={'dt', 'dw'})
        def f(t, x):
            return W.listing
        return f(dw=W.dz, **K)
    integ('cached list', system1)

    def aliased(W):
        @sdepy.integrate(q=0, sources={'dt', 'dw'})
        def f(t, x):
            return {'dt': x, 'dw': x}
        return f(dw=W.dz, x0=W.m24, **K)
    integ('returns x', aliased)

    def scalar(W):
        @sdepy.integrate
        def f(t, x, k=1.):
            return {'dt': -k*x, 'dw': 1}
        return f(dw=W.dzs, paths=4, x0=W.x4, k=W.x4)
    integ('integrate scalar', scalar)

    def kf(W):
        k = W.get('kf class', lambda: kfunc(I.lognorm_process))
        return k(dw=W.dz, x0=W.m24, sigma=W.m21, **K)
    integ('kfunc lognorm', kf)
    op('kfunc variation', lambda W: W.get('kf inst', lambda: kf(W))(
        W.tl, mu=W.m21), True)
    op('kfunc variation 2', lambda W: W.get('kf inst', lambda: kf(W))(
        sigma=W.f21)(W.tl), True)
    op('kfunc base', lambda W: W.get('kf inst', lambda: kf(W))(W.tl), True)

    K2 = dict(paths=4, vshape=(2,))
    seeded('wiener corr', lambda W: I.wiener_process(
        rng=rng(), corr=W.corr, sigma=W.m21, **K2))
    seeded('wiener rho', lambda W: I.wiener_process(
        rng=rng(), rho=W.rho, **K2))
    seeded('heston rho', lambda W: I.heston_process(
        rng=rng(), rho=W.rho2, x0=W.m21, **K2))
    seeded('heston rho f', lambda W: I.full_heston_process(
        rng=rng(), rho=W.frho, **K2))
    seeded('hw rho', lambda W: I.hull_white_process(
        rng=rng(), rho=W.rho, factors=2, theta=W.m21, **K2))
    seeded('jumpdiff', lambda W: I.jumpdiff_process(
        rng=rng(), lam=W.lam, y=W.rv0, mu=W.m24, **K2))
    seeded('mjd', lambda W: I.merton_jumpdiff_process(
        rng=rng(), lam=W.flam, a=.1, b=.2, **K2))
    seeded('kou', lambda W: I.kou_jumpdiff_process(
        rng=rng(), lam=W.lam, a=.2, b=.3, pa=.4, **K2))
    seeded('jumpdiff dn', lambda W: I.jumpdiff_process(
        rng=rng(), dn=W.dn, y=W.rve, **K2))
    seeded('wiener antithetic', lambda W: I.wiener_process(
        rng=rng(), dw=sdepy.odd_wiener_source, corr=W.corr, **K2))
    op('wiener true', lambda W: I.wiener_process(
        dw=W.tw, paths=3, vshape=(2,), x0=W.m21, sigma=W.m21)(
            np.array([-1., 0., .5, 1., 2.])), True)
    op('lognorm true', lambda W: I.lognorm_process(
        dw=W.twc, paths=3, vshape=(2,), x0=W.m21, sigma=W.f21)(
            np.array([0., .5, 1., 1.5])), True)
    op('jumpdiff true', lambda W: I.jumpdiff_process(
        dw=W.tw, dj=W.tj, paths=3, vshape=(2,), x0=W.m21)(
            np.array([0., .5, 1., 2.])), True)
    op('params dict', lambda W: I.lognorm_process(
        dw=W.dz, **W.params, **K)(W.tl), True)


def ops_montecarlo():
    M = sdepy.montecarlo

    def stats(a):
        return (a.mean(), a.var(), a.std(), a.skew(), a.kurtosis(),
                a.stderr(), a.paths, a.vshape)
    for use in ('all', 'even', 'odd'):
        op('mc ' + use, lambda W, use=use: stats(M(W.sample, use=use)))
    op('mc axis', lambda W: stats(M(W.sample, axis=0, bins=3)))
    op('mc int', lambda W: stats(M(W.samplei)))
    op('mc f32', lambda W: stats(M(W.samplei, dtype=np.float32, ctype=float)))
    op('mc process', lambda W: stats(M(W.p)))
    op('mc bins', lambda W: tuple(
        (h.copy(), b.copy()) for h, b in
        (M(W.sample, bins=W.bins)[i].histogram() for i in (0, 1))))
    op('mc bins int', lambda W: tuple(
        z.copy() for z in M(W.samplei, bins=[np.asarray(W.bins1)][0])
        .histogram()))
    op('mc range', lambda W: M(W.samplei, bins=4, range=W.pair)
       .density_histogram())

    def updates(W):
        a = M(bins=W.bins)
        a.update(W.sample)
        a.update(W.sample, axis=-1)
        b = a[0]
        return stats(a) + stats(b) + (
            b.pdf(W.u), b.cdf(W.u), b.pdf(W.u, method='interp'),
            b.cdf(W.s2, method='interp'), b.outerr(), b.outpaths,
            b.dh[0])
    op('mc updates', updates)

    def shared(W):
        def make():
            return M(W.sample, bins=W.bins)
        a = W.get('mc', make)
        b = a[1]
        return stats(a) + (b.pdf(W.s2), b.cdf(W.u, bandwidth=.5),
                           b.pdf(W.u, method='interp', kind='nearest'),
                           b.density_histogram()[0], repr(a))
    op('mc shared', shared)


def ops_kfunc():
    def f(t, x, *, a=[1., 2.], b={'k': [3.]}, c=None):
        return np.asarray(t)*x + sum(a) + b['k'][0] + np.sum(c or 0.)
    K = kfunc(nvar=2)(f)

    @kfunc
    class G:
        def __init__(self, *, a=[1.], b=2.):
            self.a, self.b = a, b

        def __call__(self, t, y=0.):
            return np.asarray(t) + sum(self.a)*self.b + y
    op('kfunc f', lambda W: K(W.s, 2.))
    op('kfunc f a', lambda W: K(W.s, 2., a=W.klist))
    op('kfunc f b', lambda W: K(b={'k': W.klist})(W.s, 1.))
    op('kfunc f shared', lambda W: W.get('kf f', lambda: K(a=W.klist))(
        W.s, 1.))
    op('kfunc f variation', lambda W: W.get('kf f', lambda: K(a=W.klist))(
        W.s, 1., c=W.klist))
    op('kfunc f params', lambda W: tuple(
        W.get('kf f', lambda: K(a=W.klist)).params['a']))
    op('kfunc g', lambda W: G(a=W.klist)(W.s))
    op('kfunc g shared', lambda W: W.get('kf g', lambda: G(a=W.klist))(W.s))
    op('kfunc g variation', lambda W: W.get('kf g', lambda: G(a=W.klist))(
        W.s, b=3., y=1.))
    op('kfunc g variation 2', lambda W: W.get(
        'kf g', lambda: G(a=W.klist))(b=3.)(a=[7.])(W.s))
    op('kfunc g params', lambda W: tuple(
        W.get('kf g', lambda: G(a=W.klist)).params['a']))


def ops_analytical():
    two = ('x0', 'theta', 'k', 'sigma')

    def add(name, args, kw, tag=''):
        f = getattr(sdepy, name)
        op(name + tag, lambda W: f(*[getattr(W, a) for a in args],
                                   **{k: getattr(W, z) if isinstance(z, str)
                                      else z for k, z in kw.items()}))
    A = dict(x0='k3', mu='t3', sigma='k3')
    for p, d in (('wiener', ('pdf', 'cdf', 'chf')),
                 ('lognorm', ('pdf', 'cdf', 'log_chf'))):
        for m in ('mean', 'var', 'std'):
            add('%s_%s' % (p, m), ['t3'], A)
        for m in d:
            add('%s_%s' % (p, m), ['t3', 'k3'], A)
    O = dict(x0='k3', theta='t3', k='k3', sigma='k3')   # noqa: E741
    for p in ('oruh', 'hw1f'):
        for m in ('mean', 'var', 'std'):
            add('%s_%s' % (p, m), ['t3'], O)
        for m in ('pdf', 'cdf'):
            add('%s_%s' % (p, m), ['t3', 'k3'], O)
    H = dict(x0='v2', theta='pair', k='w2', sigma='v2', rho=.3)
    for m in ('mean', 'var', 'std'):
        add('hw2f_' + m, ['t3'], H)
    for m in ('pdf', 'cdf'):
        add('hw2f_' + m, ['t3', 'k3'], H)
    C = dict(x0='k3', theta='t3', k='k3', xi='k3')
    for m in ('mean', 'var', 'std'):
        add('cir_' + m, ['t3'], C)
    add('cir_pdf', ['t3', 'k3'], C)
    E = dict(x0='k3', mu='k3', sigma='k3', y0='k3', theta='k3', k='k3',
             xi='k3', rho=.2)
    for m in ('mean', 'var', 'std'):
        add('heston_log_' + m, ['t3'], E)
    add('heston_log_chf', ['t3', 'u'], E)
    add('heston_log_pdf', ['t3', 'k3'], dict(x0=1., rho=.2))
    J = dict(x0='k3', mu='k3', sigma='k3', lam='t3', a='t3', b='k3')
    add('mjd_mean', ['t3'], J)
    add('mjd_log_chf', ['t3', 'u'], J)
    add('mjd_log_pdf', ['t3', 'k3'], dict(lam=2.))
    Q = dict(x0='k3', mu='k3', sigma='k3', lam='t3', a=.2, b='k3', pa=.3)
    add('kou_mean', ['t3'], Q)
    add('kou_log_chf', ['t3', 'u'], Q)
    add('kou_log_pdf', ['t3', 'k3'], dict(lam=2.))
    B = dict(x0='k3', r=.1, q=.05, sigma='k3')
    for m in ('bsd1d2', 'bscall', 'bscall_delta', 'bsput', 'bsput_delta'):
        add(m, ['k3', 't3'], B)


ops_process()
ops_sources()
ops_rv()
ops_integrations()
ops_montecarlo()
ops_kfunc()
ops_analytical()
NAMES = list(OPS)


# not meaningful with lists in place of arrays
NOLISTS = {'source dj y f'}


def freeze(r):
    """A copy of a result."""
    if isinstance(r, (tuple, list)):
        return tuple(freeze(z) for z in r)
    if isinstance(r, sdepy.process):
        return (np.array(r.x), None if r.t is None else np.array(r.t))
    if isinstance(r, np.ndarray):
        return np.array(r)
    return r


def scramble(r):
    """Overwrite the values of a result."""
    if isinstance(r, (tuple, list)):
        for z in r:
            scramble(z)
    elif isinstance(r, np.ndarray) and r.dtype != object:
        x = r.view(np.ndarray)
        if x.flags.writeable:
            x[...] = 77


def compare(rec, got, want, msg):
    if isinstance(want, tuple):
        rec.check(isinstance(got, tuple) and len(got) == len(want),
                  msg + ': different results')
        for k, (g, w) in enumerate(zip(got, want)):
            compare(rec, g, w, '%s [%d]' % (msg, k))
    elif isinstance(want, str) or want is None:
        rec.check(got == want, lambda: '%s: got %r, expected %r' % (
            msg, got, want))
    else:
        rec.same(got, want, msg)


def baseline(name, form):
    """result in a fresh world, in a separate process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', freeze(OPS[name][0](World(form))))
            except Exception as e:
                out = ('error', repr(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def unchanged(rec, W, before, msg):
    after = W.snapshot()
    rec.evaluations += 1
    if after == before:
        return True
    bad = [k for k in before if after.get(k) != before[k]]
    rec.fail('%s modified %s' % (msg, bad))
    return False


def call(rec, W, name, before, want, msg, keep):
    f, out = OPS[name]
    r = f(W)
    rec.step()
    unchanged(rec, W, before, msg)
    compare(rec, freeze(r), want, msg)
    if keep is not None:
        keep.append((r, freeze(r), name))
    elif out:
        scramble(r)
        unchanged(rec, W, before, msg + ' (overwriting its result)')
    return r


def history(rec, form, names, base):
    """a sequence of calls, results of sources and integrations overwritten;
    then again keeping the results, which later calls should not alter"""
    for mode in (0, 1):
        W = World(form)
        before = W.snapshot()
        keep = [] if mode else None
        for k, name in enumerate(names):
            call(rec, W, name, before, base[name],
                 'history %s, call %d' % (list(names), k), keep)
        for r, copy, name in keep or ():
            compare(rec, freeze(r), copy,
                    'history %s: result of %r altered by a later call' % (
                        list(names), name))
    rec.state(form, names)


# ------------------------------------------------------------ units

def u_single(rec, form, names):
    for name in names:
        def go():
            st, want = baseline(name, form)
            if st == 'error':
                raise RuntimeError(want)
            history(rec, form, (name, name, name), {name: want})
        rec.case([form, name], go)


def u_pairs(rec, form, firsts, seconds):
    base = {}
    for name in set(firsts) | set(seconds):
        st, base[name] = baseline(name, form)
        if st == 'error':
            rec.fail('%s: %s' % (name, base[name]))
            return
    for a in firsts:
        for b in seconds:
            rec.case([form, a, b], lambda: history(rec, form, (a, b, a),
                                                   base))


def u_triples(rec, form, firsts, others):
    base = {}
    for name in set(firsts) | set(others):
        st, base[name] = baseline(name, form)
        if st == 'error':
            rec.fail('%s: %s' % (name, base[name]))
            return
    for a in firsts:
        for b in others:
            for c in others:
                rec.case([form, a, b, c], lambda: history(
                    rec, form, (a, b, c, a), base))


BASIS = [n for n in NAMES if n.startswith(('reuse', 'instance', 'kfunc',
                                           'shared', 'mc shared'))]


def chunk(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def units(tier, seed):
    out = []
    for form in FORMS:
        for c in chunk(NAMES, 16):
            out.append(dict(u='single', form=form, names=c))
    stateful = [n for n in NAMES if OPS[n][1] or n.startswith(
        ('kfunc', 'mc shared', 'rv'))]
    if tier == 'quick':
        for c in chunk(stateful, 8):
            out.append(dict(u='pairs', form='plain', firsts=c,
                            seconds=stateful))
    else:
        for form in FORMS:
            for c in chunk(NAMES, 8):
                out.append(dict(u='pairs', form=form, firsts=c,
                                seconds=NAMES))
        for c in chunk(BASIS, 2):
            out.append(dict(u='triples', form='plain', firsts=c,
                            others=BASIS))
    return out


def run_unit(rec, u):
    u = dict(u)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['u_' + u.pop('u')](rec, **u)
