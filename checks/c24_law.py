"""C24: analytical formulas and generated processes describe the same law."""
import itertools
import warnings
import numpy as np
import sdepy
import sdepy.analytical as an
from mc.core import thin
from mc.tape import TapeRNG, Unscripted

PROPERTY = 'C24'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all histories of a discretized driving noise (binary tree, one '
             'path per history) on the real generators, exact moments over all histories at '
             'several refinements, extrapolated to null step and compared with the analytical '
             'formulas; jump processes by all one-step outcomes on quadrature nodes')
LEVEL_NOTE = ('all 2^D noise histories (D up to 16 elementary draws per path) at 3-4 refinements, '
              'Richardson extrapolation in the step; 10-32 parameter sets by 2 horizons per process; '
              'agreement decided within 1e-3 (typically 1e-5) of the scale, and errors required to '
              'shrink upon refinement.')
RULE = ('a state is (process, parameters, horizon, refinement); a trace is one comparison of a '
        'moment; transitions count noise histories times steps')


# ------------------------------------------------------ all histories

class Tree:
    """normals answered with +-1, one independent binary letter for each
    elementary draw of a path; path p takes letter d = bit d of p."""

    def __init__(self, paths):
        self.paths, self.d = paths, 0

    def normal(self, shape):
        shape = tuple(shape)
        axes = [k for k, n in enumerate(shape) if n == self.paths]
        if len(axes) != 1:
            raise Unscripted('normals of shape %s' % (shape,))
        ax = axes[0]
        rest = shape[:ax] + shape[ax + 1:]
        m = int(np.prod(rest))
        p = np.arange(self.paths)
        z = np.stack([1. - 2*((p >> (self.d + k)) & 1) for k in range(m)]) \
            if m else np.zeros((0, self.paths))
        self.d += m
        return np.moveaxis(z.reshape(rest + (self.paths,)), -1, ax)


def all_histories(build, tt):
    """values of a process over all histories: build(paths, rng) -> process
    generator.  Returns its results, and the number of letters."""
    first = Tree(1 << 5)
    try:
        build(first.paths, TapeRNG(normal=first.normal))(tt)
    except Unscripted:
        return None, 0
    D = first.d
    if D > 17:
        raise RuntimeError('too many draws: %d' % D)
    tree = Tree(1 << max(D, 5))
    out = build(tree.paths, TapeRNG(normal=tree.normal))(tt)
    assert tree.d == D
    return out, D


def extrapolate(hs, vals):
    """value at h=0 of the polynomial in h through the given values"""
    A = np.vander(np.asarray(hs), len(hs), increasing=True)
    v = np.asarray(vals)
    c = np.linalg.solve(A.astype(v.dtype), v.reshape(len(hs), -1))
    return c[0].reshape(v.shape[1:])


# ------------------------------------------------------ processes

def grid(**axes):
    names = list(axes)
    return [dict(zip(names, v)) for v in itertools.product(*axes.values())]


U = (.5, -1., 2.)


def kinds():
    """name -> process class, draws per step, parameter sets, and list of
    (label, observable of the result (x at the horizon) -> per path values,
    analytical value, 'mean', 'var' or 'std')"""
    K = {}

    def chf(name):
        f = getattr(an, name)
        return lambda t, u, p: f(t, u, **p)
    K['wiener'] = (
        sdepy.wiener_process, 1,
        grid(x0=(0., 1.5), mu=(0., .5, -.7), sigma=(1., .4)) + [{}],
        lambda x, p: x, 'wiener', 'wiener_chf', False)
    K['lognorm'] = (
        sdepy.lognorm_process, 1,
        grid(x0=(1., 2.5), mu=(0., .4, -.3), sigma=(.5, .2)) + [{}],
        lambda x, p: x, 'lognorm', 'lognorm_log_chf', True)
    oruh = grid(x0=(0., 1.5), theta=(0., -.5), k=(1., .4, -.6),
                sigma=(1., .3))
    K['oruh'] = (sdepy.ornstein_uhlenbeck_process, 1, oruh + [{}],
                 lambda x, p: x, 'oruh', None, False)
    K['hw1f'] = (sdepy.hull_white_1factor_process, 1, thin(oruh, 4) + [{}],
                 lambda x, p: x, 'hw1f', None, False)
    K['hw'] = (sdepy.hull_white_process, 1, thin(oruh, 4) + [{}],
               lambda x, p: x, 'hw1f', None, False)
    K['cir'] = (sdepy.cox_ingersoll_ross_process, 1,
                grid(x0=(1., 2.), theta=(1., .8), k=(1., .5), xi=(.2, .4)),
                lambda x, p: x, 'cir', None, False)
    return K


def horizon(T, shift):
    return (shift, shift + T)


def compare(rec, label, hs, vals, want, scale, tol=1e-3, order=True):
    """vals: moments at steps hs; want: their limit"""
    ex = extrapolate(hs, vals)
    want = np.asarray(want)
    rec.check(ex.shape == want.shape, lambda: '%s: shape %s, expected %s'
              % (label, ex.shape, want.shape))
    err = np.max(np.abs(ex - want))
    rec.check(err <= tol*scale, lambda: '%s: converges to %s, expected %s '
              '(values %s at steps %s)' % (label, ex, want, vals, hs))
    rec.count('comparisons')
    e = [np.max(np.abs(v - want)) for v in vals]
    # errors shrink upon refinement
    rec.check(e[-1] <= max(e[0]*.9, 1e-9*scale + 2*tol*scale*.1),
              lambda: '%s: errors %s at steps %s' % (label, e, hs))


def moments(x):
    """exact mean and variance over equally likely histories"""
    m = x.mean(axis=-1)
    return m, (np.abs(x - m[..., None])**2).mean(axis=-1)


REFINE = (2, 4, 8, 12)
REFINE2 = (2, 3, 5, 8)


def units(tier, seed):
    for name in kinds():
        for j in range(2):
            yield dict(u='one', name=name, j=j, n=2)
    for j in range(4):
        yield dict(u='hw2f', j=j, n=4)
    for j in range(8):
        yield dict(u='heston', j=j, n=8)
    yield dict(u='components')
    for name in ('merton', 'kou', 'jumpdiff'):
        for j in range(3):
            yield dict(u='jumps', name=name, j=j, n=3)


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['u_' + u.pop('u')](rec, **u)


def steps_of(T, shift, N):
    return np.linspace(shift, shift + T, N + 1)


def gather(rec, name, cls, kw, T, shift, refine, pick=lambda r: r):
    """values at the horizon, per refinement"""
    hs, out = [], []
    for N in refine:
        res, D = all_histories(
            lambda paths, rng: cls(paths=paths, rng=rng,
                                   steps=steps_of(T, shift, N), **kw),
            horizon(T, shift))
        if res is None:
            rec.count('unscripted')
            return None, None
        x = np.asarray(pick(res))[-1]
        hs.append(T/N)
        out.append(x)
        rec.state(name, sorted((k, str(v)) for k, v in kw.items()), T, N)
        rec.step(N << D)
    return hs, out


def u_one(rec, name, j, n):
    cls, _, G, _, fam, chf, log = kinds()[name]
    for p in G[j::n]:
        for T, shift in ((.5, 0.), (1., 2.)) + (
                ((.25, -1.), (1.25, 0.)) if rec.tier == 'thorough' else ()):
            def run():
                hs, xs = gather(rec, name, cls, p, T, shift, REFINE)
                if hs is None:
                    return
                what = '%s %s T=%s' % (name, p, T)
                tol = 1e-3 if T <= 1 else 1e-2
                mv = [moments(x) for x in xs]
                mean, var, std = (getattr(an, '%s_%s' % (fam, q))(T, **p)
                                  for q in ('mean', 'var', 'std'))
                s = abs(mean) + std
                compare(rec, what + ' mean', hs, [m for m, v in mv], mean, s,
                        tol)
                compare(rec, what + ' var', hs, [v for m, v in mv], var,
                        var, 5*tol)
                compare(rec, what + ' std', hs, [np.sqrt(v) for m, v in mv],
                        std, std, 5*tol)
                if chf is not None:
                    for u in U:
                        compare(rec, '%s chf at %s' % (what, u), hs,
                                [np.exp(1j*u*(np.log(x) if log else x)
                                        ).mean(axis=-1) for x in xs],
                                getattr(an, chf)(T, u, **p), 1., 2*tol)
                if p.get('k', 1.) > 0:
                    smooth(rec, what, fam, T, p, hs, xs)
            rec.case([name, T, shift, p], run)


def smooth(rec, what, fam, T, p, hs, xs):
    """expectation of a function by the analytical density"""
    f = getattr(an, fam + '_pdf')
    m, s = getattr(an, fam + '_mean')(T, **p), getattr(an, fam + '_std')(
        T, **p)
    pos = fam in ('lognorm', 'cir')
    if pos:
        w = np.sqrt(np.log(1 + (s/m)**2))
        z = np.linspace(np.log(m) - 14*w, np.log(m) + 14*w, 8001)
        y = np.exp(z)
        dens = f(T, y, **p)*y*(z[1] - z[0])
    else:
        y = np.linspace(m - 13*s, m + 13*s, 4001)
        dens = f(T, y, **p)*(y[1] - y[0])
    for label, g in (('tanh', lambda x: np.tanh((x - m)/(2*s))),
                     ('bell', lambda x: np.exp(-((x - m)/(2*s))**2/2))):
        want = np.sum(g(y)*dens)
        compare(rec, '%s expected %s' % (what, label), hs,
                [g(x).mean(axis=-1) for x in xs], want, 1., 5e-3)


def u_hw2f(rec, j, n):
    G = grid(x0=((0., 1.),), theta=((.5, -.2), (0., 0.)),
             k=((1., .5), (.3, 1.5), (-.4, .7)), sigma=((1., .4), (.2, .7)),
             rho=(0., .6, -.5))
    how = ('rho', 'corr')
    todo = list(itertools.product(range(len(G)), how))
    for i, h in todo[j::n]:
        p = G[i]
        for T, shift in ((.5, 0.), (.75, 1.)):
            def run():
                kw = {k: np.array(p[k])[:, None]
                      for k in ('x0', 'theta', 'k', 'sigma')}
                kw['factors'] = 2
                if h == 'rho':
                    kw['rho'] = p['rho']
                else:
                    kw['corr'] = [[1, p['rho']], [p['rho'], 1]]
                hs, xs = gather(rec, 'hw2f', sdepy.hull_white_process, kw, T,
                                shift, REFINE2)
                if hs is None:
                    return
                what = 'hw2f %s T=%s' % (p, T)
                mv = [moments(x) for x in xs]
                for form in (lambda v: v, lambda v: np.array(v)[:, None]):
                    q = {k: (form(v) if k != 'rho' else v)
                         for k, v in p.items()}
                    mean, var, std = (
                        np.reshape(getattr(an, 'hw2f_' + g)(T, **q), ())
                        for g in ('mean', 'var', 'std'))
                    compare(rec, what + ' mean', hs, [m for m, v in mv],
                            mean, abs(mean) + std)
                    compare(rec, what + ' var', hs, [v for m, v in mv], var,
                            var, 1e-2)
                    compare(rec, what + ' std', hs,
                            [np.sqrt(v) for m, v in mv], std, std, 1e-2)
                # law through the density
                m, s = mean, std
                y = np.linspace(m - 13*s, m + 13*s, 4001)
                d = an.hw2f_pdf(T, y, **p)*(y[1] - y[0])
                for g in (lambda x: np.tanh((x - m)/(2*s)),
                          lambda x: np.exp(-((x - m)/(2*s))**2/2)):
                    compare(rec, what + ' law', hs,
                            [g(x).mean(axis=-1) for x in xs],
                            np.sum(g(y)*d), 1., 1e-2)
            rec.case([i, h, T, shift], run)
    if j == 0:
        for T in (.5,):
            def default():
                hs, xs = gather(rec, 'hw2f', sdepy.hull_white_process,
                                dict(factors=2), T, 0., REFINE2)
                if hs is None:
                    return
                mv = [moments(x) for x in xs]
                compare(rec, 'hw2f default mean', hs, [m for m, v in mv],
                        an.hw2f_mean(T), 1.)
                compare(rec, 'hw2f default var', hs, [v for m, v in mv],
                        an.hw2f_var(T), 1., 1e-2)
            rec.case(['default', T], default)


def u_heston(rec, j, n):
    G = grid(x0=(1., 1.7), mu=(.2, -.3), sigma=(1., .5), y0=(1., 1.5),
             theta=(1., .8), k=(1., .5), xi=(.2, .35), rho=(0., .6, -.5))
    G = thin(G, 3 if rec.tier == 'quick' else 1)
    for i, p in list(enumerate(G))[j::n]:
        for T, shift in ((.5, 0.), (.8, 1.)):
            how = ('rho', 'corr')[i % 2]

            def run():
                kw = dict(p)
                if how == 'corr':
                    r = kw.pop('rho')
                    kw['corr'] = [[1, r], [r, 1]]
                hs, xy = gather(
                    rec, 'heston', sdepy.full_heston_process, kw, T, shift,
                    REFINE2, pick=lambda r: np.stack(
                        [np.asarray(r[0]), np.asarray(r[1])], axis=1))
                if hs is None:
                    return
                what = 'heston %s T=%s' % (p, T)
                xs, ys = [v[0] for v in xy], [v[1] for v in xy]
                if any((y < 0).any() for y in ys):
                    rec.count('negative variance')
                    return
                lx = [np.log(x) for x in xs]
                mv = [moments(v) for v in lx]
                lm, lv, ls = (getattr(an, 'heston_log_' + g)(T, **p)
                              for g in ('mean', 'var', 'std'))
                compare(rec, what + ' log mean', hs, [m for m, v in mv], lm,
                        abs(lm) + ls, 2e-3)
                compare(rec, what + ' log var', hs, [v for m, v in mv], lv,
                        lv, 1e-2)
                compare(rec, what + ' log std', hs,
                        [np.sqrt(v) for m, v in mv], ls, ls, 1e-2)
                for u in U:
                    compare(rec, '%s chf at %s' % (what, u), hs,
                            [np.exp(1j*u*v).mean(axis=-1) for v in lx],
                            an.heston_log_chf(T, u, **p), 1., 3e-3)
                # sensitive to correlation: third moment, by the chf
                h = .05
                us = h*np.arange(-3, 4)
                c = np.log(an.heston_log_chf(T, us, **p))
                k3 = -(np.imag(c) @ np.array([1, -8, 13, 0, -13, 8, -1])
                       )/(8*h**3)
                got = [((v - v.mean())**3).mean() for v in lx]
                # d3/du3 log chf = -i k3
                compare(rec, what + ' third cumulant', hs, got,
                        k3, lv**1.5, 2e-2)
                q = dict(x0=p['y0'], theta=p['theta'], k=p['k'], xi=p['xi'])
                mv = [moments(y) for y in ys]
                cm, cv = an.cir_mean(T, **q), an.cir_var(T, **q)
                compare(rec, what + ' y mean', hs, [m for m, v in mv], cm,
                        cm, 2e-3)
                compare(rec, what + ' y var', hs, [v for m, v in mv], cv,
                        cv, 1e-2)
                # x only
                hs2, x2 = gather(rec, 'heston x', sdepy.heston_process, kw,
                                 T, shift, REFINE2[:1])
                rec.same(x2[0], xs[0], what + ': x of heston_process')
                # law through the density, at one refined set
                if (i//8) % (4 if rec.tier == 'quick' else 2) == 0:
                    yy = lm + ls*np.linspace(-8, 8, 97)
                    d = an.heston_log_pdf(T, yy, **p)*(yy[1] - yy[0])
                    for g in (lambda x: np.tanh((x - lm)/(2*ls)),
                              lambda x: np.exp(-((x - lm)/(2*ls))**2/2)):
                        compare(rec, what + ' law', hs,
                                [g(v).mean(axis=-1) for v in lx],
                                np.sum(g(yy)*d), 1., 1e-2)
            rec.case([i, T, shift], run)


def u_components(rec):
    """parameters differing by component, several times"""
    col = (lambda *v: np.array(v)[:, None])
    todo = [
        ('wiener', sdepy.wiener_process, dict(x0=col(0., 1.), mu=col(.5, 0.),
                                              sigma=col(1., .3)), 'wiener'),
        ('lognorm', sdepy.lognorm_process, dict(
            x0=col(1., 2.), mu=col(.5, 0.), sigma=col(.5, .3)), 'lognorm'),
        ('oruh', sdepy.ornstein_uhlenbeck_process, dict(
            x0=col(0., 1.), theta=col(.5, 0.), k=col(1., .5),
            sigma=col(1., .3)), 'oruh'),
        ('cir', sdepy.cox_ingersoll_ross_process, dict(
            x0=col(1., 2.), theta=col(1., .8), k=col(1., .5),
            xi=col(.2, .3)), 'cir')]
    for name, cls, kw, fam in todo:
        for rho in (None, .5):
            def run():
                hs, outs = [], []
                tt = (1., 1.25, 1.5)
                if rho is not None:
                    kw['rho'] = rho
                for N in (2, 4, 6):
                    res, D = all_histories(
                        lambda paths, rng: cls(
                            paths=paths, rng=rng, vshape=(2,),
                            steps=np.linspace(1., 1.5, N + 1), **kw), tt)
                    if res is None:
                        rec.count('unscripted')
                        return
                    hs.append(.5/N)
                    outs.append(np.asarray(res))
                    rec.step(N << D)
                    rec.state(name, rho, N)
                t = np.array(tt)[:, None, None] - 1.
                q = {k: v for k, v in kw.items() if k != 'rho'}
                mean = getattr(an, fam + '_mean')(t, **q)[..., 0]
                var = getattr(an, fam + '_var')(t, **q)[..., 0]
                mv = [moments(x) for x in outs]
                compare(rec, name + ' mean', hs, [m for m, v in mv], mean,
                        1., 1e-3)
                compare(rec, name + ' var', hs, [v for m, v in mv], var, 1.,
                        3e-3)
                if rho is not None and name in ('wiener', 'lognorm'):
                    f = (lambda x: x) if name == 'wiener' else np.log
                    for x in outs:
                        y = f(x)[-1]
                        C = np.cov(y, bias=True)
                        s1, s2 = kw['sigma'].ravel()
                        rec.same(C[0, 1], rho*s1*s2*.5, name + ' covariance')
            rec.case([name, rho], run)


# ------------------------------------------------------ jumps

HERM = np.polynomial.hermite_e.hermegauss(24)
LAGU = np.polynomial.laguerre.laggauss(24)
NU = 20


class OneStep:
    """one step: a binary normal, no jump or one jump (of probability given
    by the Poisson rate), and all outcomes of the draws of its size on
    quadrature nodes.  Pass 1 discovers the draws; pass 2 enumerates."""

    def __init__(self, plan=None):
        self.plan = [] if plan is None else plan
        self.k = 0
        self.lam = None
        self.scripted = plan is not None
        if not self.scripted:
            self.paths = 6
            self.jump = np.array([0, 1]*3)
        else:
            nodes = [self.nodes(k) for k in self.plan]
            g = np.meshgrid(*[x for x, w in nodes], indexing='ij')
            w = np.ones(())
            for _, wk in nodes:
                w = np.multiply.outer(w, wk)
            G = w.size
            self.draws = [x.ravel() for x in g]
            self.w = w.ravel()
            # paths: (sign) x (no jump, each outcome of a jump)
            self.paths = 2*(1 + G)
            self.jump = np.tile(np.r_[0, np.ones(G, int)], 2)

    def nodes(self, kind):
        if kind == 'normal':
            return HERM[0], HERM[1]/HERM[1].sum()
        if kind == 'expo':
            return LAGU
        return (np.arange(NU) + .5)/NU, np.full(NU, 1/NU)

    def rng(self):
        return TapeRNG(normal=lambda s: self.draw('normal', s),
                       uniform=lambda s: self.draw('uniform', s),
                       expo=lambda s: self.draw('expo', s),
                       poisson=self.poisson)

    def poisson(self, lam):
        if lam.shape != (self.paths,) or self.lam is not None:
            raise Unscripted('poisson of shape %s' % (lam.shape,))
        self.lam = lam
        return self.jump

    def draw(self, kind, shape):
        n1 = int(self.jump.sum())
        shape = tuple(shape)
        if self.lam is None or (shape == (self.paths,) and kind == 'normal'):
            if shape != (self.paths,) or kind != 'normal':
                raise Unscripted('%s of shape %s' % (kind, shape))
            h = self.paths//2
            return np.r_[np.ones(h), -np.ones(self.paths - h)]
        if int(np.prod(shape)) != n1:
            raise Unscripted('%s of shape %s' % (kind, shape))
        if not self.scripted:
            self.plan.append(kind)
            return np.full(shape, .3)
        k = self.k
        self.k += 1
        if k >= len(self.plan) or self.plan[k] != kind:
            raise Unscripted('draws depend on values')
        return np.tile(self.draws[k], 2).reshape(shape)

    def weights(self):
        lam = self.lam[0]
        assert np.allclose(self.lam, lam)
        return np.tile(np.r_[1 - lam, lam*self.w], 2)/2


def u_jumps(rec, name, j, n):
    if name == 'merton':
        cls = sdepy.merton_jumpdiff_process
        G = grid(x0=(1., 2.), mu=(0., .4, -.3), sigma=(1., .5), lam=(1., 2.5),
                 a=(0., -.3), b=(1., .4))
        fam = 'mjd'
    elif name == 'kou':
        cls = sdepy.kou_jumpdiff_process
        G = grid(x0=(1., 2.), mu=(.4, -.3), sigma=(1., .5), lam=(1., 2.5),
                 a=(.3, .2), b=(.5, .25), pa=(.5, .25, 0., 1.))
        fam = 'kou'
    else:
        cls = sdepy.jumpdiff_process
        G = grid(kind=('norm', 'dexp', 'dj'), x0=(1., 2.), mu=(0., .4, -.3),
                 sigma=(.5, .2), lam=(1., 2.5))
        fam = None
    G = thin(G, 2.5 if rec.tier == 'quick' else 1)
    if fam:
        G.append({})
    us = np.array([.5, -1., 2., 4.])
    for p in G[j::n]:
        for shift in (0., 1.5):
            def run():
                q, fam_ = dict(p), fam
                par = dict(p)
                if fam is None:
                    kind = q.pop('kind')
                    lam = q.pop('lam')
                    par = dict(q, lam=lam)
                    if kind == 'dexp':
                        y = sdepy.double_exp_rv(.3, .4, .25)
                        par.update(a=.3, b=.4, pa=.25)
                        fam_ = 'kou'
                    else:
                        y = sdepy.norm_rv(-.2, .5)
                        par.update(a=-.2, b=.5)
                        fam_ = 'mjd'
                    if kind == 'dj':
                        def extra(paths, rng):
                            return dict(dj=sdepy.cpoisson_source(
                                paths=paths, y=y, lam=lam, rng=rng))
                    else:
                        def extra(paths, rng):
                            return dict(y=y, lam=lam)
                else:
                    def extra(paths, rng):
                        return {}
                chf = getattr(an, fam_ + '_log_chf')
                mean = getattr(an, fam_ + '_mean')
                hs = (1e-3, 5e-4, 2.5e-4)
                rates, mrates, want, mwant = [], [], [], []
                for h in hs:
                    def go(tree):
                        rng = tree.rng()
                        return np.asarray(cls(
                            paths=tree.paths, rng=rng, **q, **extra(
                                tree.paths, rng))((shift, shift + h)))
                    try:
                        one = OneStep()
                        go(one)
                        tree = OneStep(one.plan)
                        x = go(tree)[-1]
                        w = tree.weights()
                    except Unscripted as e:
                        rec.count('unscripted')
                        return
                    rec.step(tree.paths)
                    rec.state(name, sorted((k, str(v)) for k, v in p.items()),
                              shift, h)
                    x0 = par.get('x0', 1.)
                    rates.append([(np.sum(w*(x/x0)**(1j*u)) - 1)/h
                                  for u in us])
                    mrates.append((np.sum(w*x) - x0)/h)
                    want.append([(chf(h, u, **par)*x0**(-1j*u) - 1)/h
                                 for u in us])
                    mwant.append((mean(h, **par) - x0)/h)
                ex = extrapolate(hs, np.array(rates))
                wx = extrapolate(hs, np.array(want))
                # exact law of jumps, the binary normal alone is approximate
                rec.check(np.allclose(ex, wx, rtol=1e-4, atol=1e-3),
                          lambda: '%s %s: log chf rates %s, expected %s' % (
                              name, p, ex, wx))
                a, b = (extrapolate(hs, np.array(v)) for v in
                        (mrates, mwant))
                rec.check(np.allclose(a, b, rtol=1e-4, atol=1e-4),
                          lambda: '%s %s: rate of the mean %s, expected %s'
                          % (name, p, a, b))
                rec.count('comparisons', 2)
            rec.case([name, shift, p], run)
