"""C25: analytical results are mutually consistent and act elementwise."""
import itertools
import warnings
import numpy as np
import scipy.integrate
import sdepy
import sdepy.analytical as an
from mc.core import thin

PROPERTY = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of parameter, time, value and strike grids and of all '
             'broadcasting patterns on the real functions, against consistency relations decided '
             'at each grid point (normalization, moments, Fourier duality, Chapman-Kolmogorov '
             'composition, Riccati equations, risk-neutral expectation) and scalar evaluation')
LEVEL_NOTE = ('parameter grids of 8-72 points by 3-4 times per process (denser in the thorough '
              'tier); integrals by trapezoidal sums of spectral accuracy (relations decided within 1e-6); '
              'all pairs (thorough: triples) of array arguments among all arguments, in 8 shapes, '
              'against scalar evaluation; error settings observed after regular and failing calls.'
              ' Plus large arrays, heavy tails, few degrees of freedom.')
RULE = ('a state is (process, parameters, time); a trace is one parameter point with all its '
        'relations, or one broadcasting pattern')


def units(tier, seed):
    for name in FAM:
        n = 4 if name in ('heston', 'kou', 'cir') else 2
        for j in range(n):
            yield dict(u='family', name=name, j=j, n=n)
    for j in range(6):
        yield dict(u='riccati', j=j, n=6)
    yield dict(u='hw2f')
    for j in range(4):
        yield dict(u='bs', j=j, n=4)
    yield dict(u='bslimits')
    for f in FUN:
        n = 6 if f.endswith('log_pdf') else 1
        for j in range(n):
            yield dict(u='elementwise', f=f, j=j, n=n)
    for f in FUN:
        yield dict(u='large', f=f)
    yield dict(u='hw2shapes')
    yield dict(u='defaults')
    yield dict(u='heavy')
    yield dict(u='errstate')


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['u_' + u.pop('u')](rec, **u)


# ------------------------------------------------------ parameter grids

def grid(**axes):
    names = list(axes)
    return [dict(zip(names, v)) for v in itertools.product(*axes.values())]


def family_grid(name, tier):
    th = tier == 'thorough'
    if name == 'wiener':
        return grid(x0=(0, -1.5, 2), mu=(0., .7, -2),
                    sigma=(1, .25, 3.) + ((.01, 10) if th else ()))
    if name == 'lognorm':
        return grid(x0=(1, .4, 30.), mu=(0., .3, -1),
                    sigma=(1, .25) + ((.05, 2.) if th else ()))
    if name in ('oruh', 'hw1f'):
        return grid(x0=(0, -1.5), theta=(0., 2.), k=(1, .3, 4.),
                    sigma=(1., .25) + ((3,) if th else ()))
    if name == 'cir':
        return grid(x0=(1, .25, 3.), theta=(1., .5, 2.), k=(1, 2.5, .3),
                    xi=(.5, .1, 1) + ((.02, 1.4) if th else ())) + grid(
            x0=(1, .25, 3.), theta=(.1, .2), k=(1, .5), xi=(1, .8))
    if name == 'heston':
        return thin(grid(
            x0=(1, 2.), mu=(0., .2, -.3), sigma=(1., .3), y0=(1, .4),
            theta=(1, .7), k=(1, 2.5), xi=(.3, 1.),
            rho=(0., .6, -.9)), 1 if th else 8)
    if name == 'mjd':
        return thin(grid(
            x0=(1, 2.), mu=(0., .2, -.3), sigma=(1., .3), lam=(1, 3., .2),
            a=(0., -.3, .2), b=(1, .3)), 1 if th else 4)
    if name == 'kou':
        return thin(grid(
            x0=(1, 2.), mu=(0., .2, -.3), sigma=(1., .4), lam=(1, 3., .2),
            a=(.1, .25), b=(.2, .5), pa=(.5, 0., .2, 1)), 1 if th else 8)


T = (.1, .5, 1, 4.)


# ------------------------------------------------------ reference integrals

class Law:
    """law given by values of a density on a trapezoidal grid of z, with
    x = x(z): weights w"""

    def __init__(self, x, w):
        self.x, self.w = x, w

    def E(self, f):
        return np.sum(f(self.x)*self.w)


def gauss_law(pdf, m, s):
    x = m + s*np.linspace(-13, 13, 1301)
    return Law(x, pdf(x)*(x[1] - x[0]))


def positive_law(pdf, lo, hi, n=6001):
    z = np.linspace(lo, hi, n)
    x = np.exp(z)
    return Law(x, pdf(x)*x*(z[1] - z[0]))


def fourier_law(chf, m, s, tail, n=2**13):
    """density by trapezoidal inversion of the characteristic function, on
    y in m +- L"""
    L = tail
    N = 2*n
    du = np.pi/L
    kk = np.concatenate([np.arange(n), np.arange(-n, 0)])
    u = du*kk
    f = chf(u)
    y = m - L + 2*L/N*np.arange(N)
    p = np.fft.fft(f*np.exp(-1j*u*(m - L))).real*du/(2*np.pi)
    return y[n//2:-n//2], p[n//2:-n//2], abs(f[n - 1]) + abs(f[n])


FAM = ('wiener', 'lognorm', 'oruh', 'hw1f', 'cir', 'heston', 'mjd', 'kou')


def F(name):
    return getattr(an, name)


def close(rec, got, want, what, tol=1e-6, scale=None):
    s = np.max(np.abs(want)) if scale is None else scale
    rec.check(np.shape(got) == np.shape(want) and
              np.all(np.abs(np.asarray(got) - want) <= tol*s + 1e-12),
              lambda: '%s: %s, expected %s' % (what, got, want))


def law_of(name, t, p):
    """Law from the pdf of the library"""
    pdf = F(name + '_pdf')

    def f(x):
        return pdf(t, x, **p)
    if name == 'lognorm':
        s = p['sigma']*np.sqrt(t)
        m = np.log(p['x0']) + (p['mu'] - p['sigma']**2/2)*t
        return positive_law(f, m - 13*s - 2*s*s, m + 13*s + 3*s*s)
    if name == 'cir':
        q = 2*p['k']*p['theta']/p['xi']**2
        m, s = an.cir_mean(t, **p), an.cir_std(t, **p)
        lo = min(np.log(max(m - 12*s, 1e-300)), np.log(m) - 1)
        lo = max(lo, np.log(m) - 40/q - 5)
        # the upper tail decays as exp(-c*x)
        c = 2*p['k']/(1 - np.exp(-p['k']*t))/p['xi']**2
        return positive_law(f, lo, np.log(m + max(40*s, 50/c)), 12001)
    m, s = F(name + '_mean')(t, **p), F(name + '_std')(t, **p)
    return gauss_law(f, m, s)


def u_family(rec, name, j, n):
    for p in family_grid(name, rec.tier)[j::n]:
        for t in T:
            rec.state(name, sorted(p.items()), t)
            rec.case([name, t, p], lambda: dict(
                heston=log_family, mjd=log_family, kou=log_family
            ).get(name, density_family)(rec, name, t, p))


U = np.array([0., .3, -.3, 1., -1., 2.5, 7.])


def check_chf(rec, f, t, what):
    """general properties of a characteristic function"""
    v = f(U)
    close(rec, v[0], 1., what + ' chf at 0')
    close(rec, v[2], np.conj(v[1]), what + ' chf symmetry')
    close(rec, v[4], np.conj(v[3]), what + ' chf symmetry')
    rec.check(np.all(np.abs(v) <= 1 + 1e-9), what + ': |chf| > 1')


def density_family(rec, name, t, p):
    what = '%s %s t=%s' % (name, p, t)
    mean, var, std = (F(name + '_' + k)(t, **p)
                      for k in ('mean', 'var', 'std'))
    law = law_of(name, t, p)
    rec.step(law.x.size)
    close(rec, law.E(lambda x: 1 + 0*x), 1., what + ': total probability')
    close(rec, law.E(lambda x: x), mean, what + ': mean by pdf',
          scale=abs(mean) + std)
    close(rec, law.E(lambda x: (x - mean)**2), var, what + ': var by pdf')
    close(rec, std, np.sqrt(var), what + ': std')
    rec.check((law.w >= 0).all(), what + ': negative pdf')
    # cdf
    if name != 'cir':
        cdf = F(name + '_cdf')
        c = cdf(t, law.x, **p)
        num = np.cumsum(law.w) - law.w/2     # midpoint: second order
        close(rec, c, num, what + ': cdf by pdf', tol=2e-4)
        rec.check((np.diff(c) >= 0).all(), what + ': cdf decreases')
        # derivative of the cdf, by Richardson extrapolation
        x = law.x[law.x.size//2 - 90:law.x.size//2 + 91:15]
        h = 1e-3*std if name != 'lognorm' else \
            1e-3*x*min(1., p['sigma']*np.sqrt(t))

        def d(h):
            return (cdf(t, x + h, **p) - cdf(t, x - h, **p))/(2*h)
        der = (4*d(h) - d(2*h))/3
        close(rec, F(name + '_pdf')(t, x, **p), der,
              what + ': pdf by cdf')
        far = dict(wiener=(-1e6, 1e6), lognorm=(0., 1e300)).get(
            name, (-1e6, 1e6))
        close(rec, cdf(t, np.array(far), **p), np.array([0., 1]),
              what + ': cdf limits')
        if name == 'lognorm':
            close(rec, cdf(t, np.array([-1., -1e3]), **p), np.zeros(2),
                  what + ': cdf at negative values')
    if name in ('lognorm', 'cir'):
        close(rec, F(name + '_pdf')(t, np.array([-1., -1e3]), **p),
              np.zeros(2), what + ': pdf at negative values')
    # chf
    if name == 'wiener':
        chf = an.wiener_chf(t, U, **p)
        close(rec, chf, np.array([law.E(lambda x: np.exp(1j*u*x))
                                  for u in U]), what + ': chf by pdf',
              scale=1.)
        check_chf(rec, lambda u: an.wiener_chf(t, u, **p), t, what)
    if name == 'lognorm':
        chf = an.lognorm_log_chf(t, U, **p)
        close(rec, chf, np.array([law.E(lambda x: np.exp(1j*u*np.log(x)))
                                  for u in U]), what + ': chf by pdf',
              scale=1.)
        check_chf(rec, lambda u: an.lognorm_log_chf(t, u, **p), t, what)
    # infinitesimal mean and variance: drift and diffusion of the process
    drift, diff2 = dict(
        wiener=lambda: (p['mu'], p['sigma']**2),
        lognorm=lambda: (p['mu']*p['x0'], (p['sigma']*p['x0'])**2),
        oruh=lambda: (p['k']*(p['theta'] - p['x0']), p['sigma']**2),
        hw1f=lambda: (p['k']*(p['theta'] - p['x0']), p['sigma']**2),
        cir=lambda: (p['k']*(p['theta'] - p['x0']),
                     p['xi']**2*p['x0']))[name]()

    def rate(f, f0, h):
        return (f(h, **p) - f0)/h
    h = 1e-3
    for f, f0, w in ((F(name + '_mean'), p['x0'], drift),
                     (F(name + '_var'), 0., diff2)):
        r1, r2, r4 = (rate(f, f0, h/k) for k in (1, 2, 4))
        r = (8*r4 - 6*r2 + r1)/3
        close(rec, r, w, what + ': rate of %s' % f.__name__, scale=1 + abs(w))
        close(rec, f(0, **p), f0, what + ': initial value of ' + f.__name__,
              scale=1 + abs(f0))
    # Chapman-Kolmogorov: compose the law at t with that at t2
    pdf = F(name + '_pdf')
    for t2 in (.5, 2.):
        mt = F(name + '_mean')(t + t2, **p)
        st = F(name + '_std')(t + t2, **p)
        keep = np.abs(law.w) > 1e-18
        y, w = law.x[keep], law.w[keep]
        if name == 'cir':
            if y.size > 3000:
                m_ = y.size//3000 + 1
                # a subgrid is still spectrally accurate
                full = np.zeros(law.x.size)
                idx = np.arange(0, law.x.size, m_)
                y, w = law.x[idx], law.w[idx]*m_
                ok = w > 1e-18
                y, w = y[ok], w[ok]
        for x in (mt - .7*st, mt, mt + 1.3*st):
            if name in ('cir', 'lognorm') and x <= 0:
                x = mt*.3
            q = dict(p, x0=y)
            got = np.sum(pdf(t2, x, **q)*w)
            close(rec, pdf(t + t2, x, **p), got,
                  what + ': composition with t=%s' % t2, scale=1/st)
    return True


def log_family(rec, name, t, p):
    what = '%s %s t=%s' % (name, p, t)
    chf = F(name + '_log_chf')

    def f(u):
        return chf(t, u, **p)
    check_chf(rec, f, t, what)
    # law of the logarithm, from the values of chf on the reals
    m, s = log_moments(f)
    if name == 'heston':
        lm, lv, ls = (F('heston_log_' + k)(t, **p)
                      for k in ('mean', 'var', 'std'))
        close(rec, lm, m, what + ': log_mean by chf', tol=1e-5,
              scale=1 + abs(m))
        close(rec, lv, s*s, what + ': log_var by chf', tol=1e-4,
              scale=s*s + 1e-3)
        close(rec, ls, np.sqrt(lv), what + ': log_std')
        close(rec, chf(0, U, **p), p['x0']**(1j*U), what + ': at t=0')
        close(rec, an.heston_log_mean(0, **p), np.log(p['x0']),
              what + ': at t=0')
        close(rec, an.heston_log_var(0, **p), 0., what + ': at t=0',
              tol=1e-9, scale=1.)
    y, dens, cut = fourier_law(f, m, s, max(80*s, 8.))
    dy = y[1] - y[0]
    if cut > 1e-12:
        rec.count('chf not resolved')
        return
    rec.step(y.size)
    close(rec, dens.sum()*dy, 1., what + ': total probability')
    rec.check(dens.min() > -1e-7/s, what + ': negative density by chf')
    # log_pdf of the library
    mid = y.size//2
    at = (-.8, .1, 1.5) if rec.tier == 'quick' else \
        (-3., -1.5, -.8, 0., .1, .7, 1.5, 2.6)
    pick = [mid + int(k*s/dy) for k in at]
    pdf = F(name + '_log_pdf')
    got = np.array([pdf(t, y[k], **p) for k in pick])
    close(rec, got, dens[pick], what + ': log_pdf by chf', tol=1e-6,
          scale=1/s)
    # mean of the exponential
    lim = y < m + 20
    if name in ('mjd', 'kou'):
        mean = F(name + '_mean')(t, **p)
        # up to where the density drops below the precision available
        top = mid + np.argmax((dens[mid:] < 1e-10) | ~lim[mid:])
        E = np.sum(np.exp(y[:top])*dens[:top])*dy
        if np.exp(y[top])*dens[top - 1]*s*20 < 1e-5*E:
            close(rec, E, mean, what + ': mean by chf', tol=2e-4)
            rec.count('means by chf')
        close(rec, F(name + '_mean')(0, **p), float(p['x0']),
              what + ': mean at t=0')
        # independent increments
        for t2 in (.5, 2.):
            close(rec, chf(t + t2, U, **p)*np.exp(1j*U*np.log(p['x0'])),
                  f(U)*chf(t2, U, **p), what + ': composition', scale=1.)
        # independent reference: compound Poisson sum
        close(rec, f(U), jump_chf(name, t, U, p), what + ': chf', scale=1.)
        close(rec, mean, jump_mean(name, t, p), what + ': mean')


def jump_chf(name, t, u, p):
    z = np.linspace(-1, 1, 4001)
    if name == 'mjd':
        x = p['a'] + p['b']*13*z
        w = np.exp(-(13*z)**2/2)/np.sqrt(2*np.pi)*13*(z[1] - z[0])
        legs = [(1., x, w)]
    else:
        x, w = np.polynomial.laguerre.laggauss(60)
        legs = [(p['pa'], p['a']*x, w), (1 - p['pa'], -p['b']*x, w)]
    phi = sum(c*(np.exp(1j*np.outer(u, x)) @ w) for c, x, w in legs)
    s = p['sigma']
    return np.exp(1j*u*(np.log(p['x0']) + (p['mu'] - s*s/2)*t) - s*s*u*u*t/2
                  + p['lam']*t*(phi - 1))


def jump_mean(name, t, p):
    z = np.linspace(-1, 1, 4001)
    if name == 'mjd':
        x = p['a'] + p['b']*13*z
        e = np.sum(np.exp(x - (13*z)**2/2))/np.sqrt(2*np.pi)*13*(z[1] - z[0])
    else:
        e = p['pa']/(1 - p['a']) + (1 - p['pa'])/(1 + p['b'])
    return p['x0']*np.exp((p['mu'] + p['lam']*(e - 1))*t)


def log_moments(f):
    """mean and std from the derivatives of log(chf) at 0"""
    h = .02
    u = h*np.arange(1, 4)
    c = np.log(f(u))
    m = np.sum(np.array([1.5, -.6, .1])*c.imag/(h*np.array([1, 2, 3]))*1.)
    # log|chf| = -v u^2/2 + ...: Richardson on even powers
    g = -2*c.real/u**2
    v = (270*g[0] - 27*4*g[1]/4 + 0*g[2])
    # polynomial fit in u^2 through three points, value at 0
    A = np.vander(u**2, 3, increasing=True)
    v = np.linalg.solve(A, g)[0]
    m = np.linalg.solve(A, c.imag/u)[0]
    return m, np.sqrt(v)


# ------------------------------------------------------ Riccati equations

def u_riccati(rec, j, n):
    """heston_log_chf against the integration of its Riccati equations"""
    us = np.array([.5, -1., 3., 11.])
    G = grid(mu=(0., .2, -.3), sigma=(1., .3), y0=(1, .4), theta=(1, .7),
             k=(1, 2.5), xi=(.3, 1.), rho=(0., .6, -.9))
    G = thin(G, 1 if rec.tier == 'thorough' else 4)
    for p in G[j::n]:
        def run():
            sg, xi, k = p['sigma'], p['xi'], p['k']

            def rhs(t, z):
                B = z[:4]
                dB = -.5*sg*sg*(us*us + 1j*us) + (
                    1j*us*p['rho']*sg*xi - k)*B + .5*xi*xi*B*B
                return np.concatenate([dB, k*p['theta']*B])
            tt = np.array([.3, 1., 5.])
            sol = scipy.integrate.solve_ivp(
                rhs, (0, 5.), np.zeros(8, complex), t_eval=tt, rtol=1e-9,
                atol=1e-11, method='DOP853')
            rec.step(sol.nfev)
            for i, t in enumerate(tt):
                rec.state('riccati', sorted(p.items()), t)
                B, A = sol.y[:4, i], sol.y[4:, i]
                want = np.exp(1j*us*(np.log(1.5) + p['mu']*t) + A +
                              B*p['y0'])
                close(rec, an.heston_log_chf(t, us, x0=1.5, **p), want,
                      'heston_log_chf %s t=%s' % (p, t), scale=1.)
        rec.case([p], run)


# ------------------------------------------------------ two factors

def u_hw2f(rec):
    G = grid(x0=((0., 1.), (.5, -.2)), theta=((0, 0), (1., .3)),
             k=((1., 2.5), (.4, 3)), sigma=((1, .5), (.2, 2.)),
             rho=(0., .6, -.9))
    for p in G:
        for t in T:
            def run():
                what = 'hw2f %s t=%s' % (p, t)
                rec.state('hw2f', sorted(p.items()), t)
                m, v, s = (F('hw2f_' + q)(t, **p)
                           for q in ('mean', 'var', 'std'))
                f = [dict(x0=p['x0'][i], theta=p['theta'][i], k=p['k'][i],
                          sigma=p['sigma'][i]) for i in (0, 1)]
                close(rec, m, sum(an.oruh_mean(t, **q) for q in f),
                      what + ' mean', scale=1.)
                # covariance by integration
                z = np.polynomial.legendre.leggauss(40)
                w, tau = z[1]*t/2, (z[0] + 1)*t/2
                k1, k2 = p['k']
                s1, s2 = p['sigma']
                cov = np.sum(w*np.exp(-(k1 + k2)*tau))*s1*s2*p['rho']
                close(rec, v, sum(an.oruh_var(t, **q) for q in f) + 2*cov,
                      what + ' var')
                close(rec, s, np.sqrt(v), what + ' std')
                law = gauss_law(lambda x: an.hw2f_pdf(t, x, **p), m, s)
                close(rec, law.E(lambda x: 1 + 0*x), 1., what + ' total')
                close(rec, law.E(lambda x: x), m, what + ' mean by pdf',
                      scale=abs(m) + s)
                close(rec, law.E(lambda x: (x - m)**2), v, what + ' var')
                c = an.hw2f_cdf(t, law.x, **p)
                close(rec, c, np.cumsum(law.w) - law.w/2, what + ' cdf',
                      tol=2e-4)
                x = law.x[500:800:30]
                h = 1e-3*s

                def d(h):
                    return (an.hw2f_cdf(t, x + h, **p) -
                            an.hw2f_cdf(t, x - h, **p))/(2*h)
                close(rec, an.hw2f_pdf(t, x, **p), (4*d(h) - d(2*h))/3,
                      what + ' pdf by cdf')
            rec.case([t, p], run)
    for p in thin(G, 7):        # factors with the same parameters; defaults
        def same():
            q = dict(x0=p['x0'][0], theta=p['theta'][0], k=p['k'][0],
                     sigma=p['sigma'][0], rho=p['rho'])
            both = {k_: ((v, v) if k_ != 'rho' else v) for k_, v in q.items()}
            for g in ('mean', 'var', 'std'):
                f = F('hw2f_' + g)
                for names in itertools.product((0, 1), repeat=5):
                    mix = {k_: (both if b else q)[k_]
                           for b, k_ in zip(names, q)}
                    close(rec, f(1.5, **mix), f(1.5, **both),
                          'hw2f_%s: scalars as both factors' % g)
            one = {k_: v for k_, v in q.items() if k_ != 'rho'}
            close(rec, an.hw2f_var(1.5, rho=-1, **one), 0., 'opposite',
                  scale=1.)
            close(rec, an.hw2f_var(1.5, rho=1, **one),
                  4*an.hw1f_var(1.5, **one), 'identical')
        rec.case(['same', p], same)


def u_hw2shapes(rec):
    """factors on axis -2, a paths axis of size 1 as the last one"""
    rng = np.arange(1., 7.)
    shapes = [(), (1,), (2,), (1, 1), (2, 1), (3, 1, 1), (3, 2, 1),
              (4, 1, 2, 1), (4, 3, 2, 1)]
    names = ('x0', 'theta', 'k', 'sigma')

    def fill(shape, j):
        n = int(np.prod(shape))
        return (.25 + .125*((np.arange(n)*3 + j) % 7)).reshape(shape)
    for combo in itertools.product(shapes, repeat=4):
        nd = [s for s in combo if len(s) >= 2]
        if len(set(nd)) > 2 or (rec.tier == 'quick' and len(
                [s for s in combo if s]) > 2):
            continue
        try:
            full = np.broadcast_shapes(*combo)
        except ValueError:
            continue
        if nd and any(len(s) == 1 for s in combo):
            continue        # a mixture of the two conventions

        def run():
            p = {n: fill(s, j) for j, (n, s) in enumerate(zip(names, combo))}
            b = dict(zip(names, np.broadcast_arrays(*p.values())))
            if len(full) == 0:
                fac = [b, b]
            elif len(full) == 1:
                fac = [{n: v[i] for n, v in b.items()} for i in (0, -1)]
            else:
                fac = [{n: v[..., i, :] for n, v in b.items()}
                       for i in (0, -1)]
            for t, rho in ((.5, .25), (np.array([.5]), .25), (.5, [.25])):
                f0, f1 = fac
                k1, k2 = f0['k'], f1['k']
                t_, r_ = np.asarray(t), np.asarray(rho)
                mean = an.oruh_mean(t, **f0) + an.oruh_mean(t, **f1)
                var = an.oruh_var(t, **f0) + an.oruh_var(t, **f1) + \
                    2*r_*f0['sigma']*f1['sigma']/(k1 + k2)*(
                        1 - np.exp(-(k1 + k2)*t_))
                sh = np.broadcast_shapes(np.shape(mean), t_.shape, r_.shape)
                rec.same(an.hw2f_mean(t, rho=rho, **p),
                         np.broadcast_to(mean, sh), 'hw2f_mean')
                rec.same(an.hw2f_var(t, rho=rho, **p),
                         np.broadcast_to(var, sh), 'hw2f_var')
                rec.same(an.hw2f_std(t, rho=rho, **p),
                         np.broadcast_to(np.sqrt(var), sh), 'hw2f_std')
                for x in (1., [1.], np.array([[.5]])):
                    s2 = np.broadcast_shapes(sh, np.shape(x))
                    z = (np.asarray(x) - mean)/np.sqrt(var)
                    rec.same(an.hw2f_pdf(t, x, rho=rho, **p),
                             np.broadcast_to(
                                 np.exp(-z*z/2)/np.sqrt(2*np.pi*var), s2),
                             'hw2f_pdf')
                    rec.same(an.hw2f_cdf(t, x, rho=rho, **p),
                             np.broadcast_to(
                                 scipy.special.ndtr(z), s2), 'hw2f_cdf')
            rec.state('hw2shapes', combo)
        rec.case([list(map(list, combo))], run)
    for bad in ((3,), (3, 1), (2, 3, 1)):
        for n in names:
            rec.case(['bad', list(bad), n], lambda: rec.raises(
                lambda: an.hw2f_mean(1., **{n: np.ones(bad)}),
                'hw2f_mean: %s of shape %s' % (n, bad)))


# ------------------------------------------------------ Black-Scholes

def u_bs(rec, j, n):
    G = grid(x0=(1, .5, 20.), r=(0., .1, -.05), q=(0, .08, -.04), sigma=(.2, 1, .05)
             + ((3., .01) if rec.tier == 'thorough' else ()))
    rel = np.array([.01, .5, .8, .95, 1., 1.07, 1.5, 4.])
    for p in G[j::n]:
        for t in (.05, 1, 3.):
            def run():
                x0, r, q, s = (p[i] for i in ('x0', 'r', 'q', 'sigma'))
                k = rel*x0
                what = 'bs %s t=%s' % (p, t)
                rec.state('bs', sorted(p.items()), t)
                call, put = an.bscall(k, t, **p), an.bsput(k, t, **p)
                dr, dq = np.exp(-r*t), np.exp(-q*t)
                close(rec, call - put, x0*dq - k*dr, what + ' parity',
                      tol=1e-9, scale=x0)
                for v, lo, hi in ((call, x0*dq - k*dr, x0*dq + 0*k),
                                  (put, k*dr - x0*dq, k*dr)):
                    rec.check((v >= np.maximum(lo, 0) - 1e-12*x0).all() and
                              (v <= hi + 1e-12*x0).all(),
                              what + ' arbitrage bounds')
                # risk-neutral expectation over the law of the process
                z = np.linspace(-14, 14, 20001)
                for i, kk in enumerate(k):
                    m = np.log(x0) + (r - q - s*s/2)*t
                    sd = s*np.sqrt(t)
                    zk = (np.log(kk) - m)/sd
                    # Gauss-Legendre above the strike
                    gx, gw = GL
                    a = max(zk, -13.)
                    b = max(a + 8, 13.) + 2*sd
                    zz, ww = (b - a)/2*gx + (a + b)/2, gw*(b - a)/2
                    x = np.exp(m + sd*zz)
                    dens = an.lognorm_pdf(t, x, x0=x0, mu=r - q, sigma=s
                                          )*x*sd
                    E = np.sum(np.maximum(x - kk, 0)*dens*ww)*dr
                    close(rec, call[i], E, what + ' call as expectation',
                          tol=1e-7, scale=x0)
                # deltas
                h = 1e-4*x0

                def d(f, h):
                    return (f(k, t, **dict(p, x0=x0 + h)) -
                            f(k, t, **dict(p, x0=x0 - h)))/(2*h)
                for f, g in ((an.bscall, an.bscall_delta),
                             (an.bsput, an.bsput_delta)):
                    close(rec, g(k, t, **p), (4*d(f, h) - d(f, 2*h))/3,
                          what + ' ' + g.__name__, scale=1.)
                # homogeneity
                close(rec, an.bscall(3*k, t, **dict(p, x0=3*x0)), 3*call,
                      what + ' homogeneity', tol=1e-9, scale=3*x0)
                # coefficients
                d1, d2 = an.bsd1d2(k, t, **p)
                sd = s*np.sqrt(t)
                w1 = (np.log(x0/k) + (r - q + s*s/2)*t)/sd
                close(rec, d1, w1, what + ' d1', tol=1e-9,
                      scale=1 + abs(w1).max())
                close(rec, d2, w1 - sd, what + ' d2', tol=1e-9,
                      scale=1 + abs(w1).max())
                # monotone and convex in strike, increasing in volatility
                kk = np.linspace(.3, 3, 60)*x0
                c = an.bscall(kk, t, **p)
                rec.check((np.diff(c) <= 1e-12*x0).all() and
                          (np.diff(c, 2) >= -1e-10*x0).all(),
                          what + ' call not decreasing and convex')
                up = an.bscall(k, t, **dict(p, sigma=s*1.5))
                rec.check((up >= call - 1e-12*x0).all(),
                          what + ' call not increasing in volatility')
            rec.case([t, p], run)


GL = np.polynomial.legendre.leggauss(200)


def u_bslimits(rec):
    for x0, k, r, q, t, s in itertools.product(
            (1, 2., .5), (0, 1., 2, .5), (0, .1, -.1), (0, .05, -.05),
            (0, 1, 2.), (0, .3, 1)):
        if t > 0 and s > 0 and k > 0:
            continue

        def run():
            p = dict(x0=x0, r=r, q=q, sigma=s)
            dr, dq = np.exp(-r*t), np.exp(-q*t)
            c = max(x0*dq - k*dr, 0.)
            what = 'limits %s t=%s k=%s' % (p, t, k)
            rec.state(what)
            close(rec, float(an.bscall(k, t, **p)), c, what + ' call',
                  tol=1e-12, scale=1.)
            close(rec, float(an.bsput(k, t, **p)), c - x0*dq + k*dr,
                  what + ' put', tol=1e-12, scale=1.)
            gap = x0*dq - k*dr
            if abs(gap) > 1e-12:
                close(rec, float(an.bscall_delta(k, t, **p)),
                      dq*(gap > 0), what + ' call delta', tol=1e-12,
                      scale=1.)
                close(rec, float(an.bsput_delta(k, t, **p)),
                      -dq*(gap < 0), what + ' put delta', tol=1e-12,
                      scale=1.)
        rec.case([x0, k, r, q, t, s], run)


# ------------------------------------------------------ elementwise action

def D(**k):
    return k


FUN = {}
for _n, _v, _p in (
        ('wiener', 'mean var std pdf cdf chf',
         D(x0=(0, .5, -1, .2), mu=(0., .3, -.2, 1), sigma=(1, .5, 2, .7))),
        ('lognorm', 'mean var std pdf cdf log_chf',
         D(x0=(1, .5, 2, .2), mu=(0., .3, -.2, 1), sigma=(1, .5, .2, .7))),
        ('oruh', 'mean var std pdf cdf',
         D(x0=(0, .5, -1, .2), theta=(1, .3, -.2, 2), k=(1, .5, 2, .7),
           sigma=(1, .5, 2, .7))),
        ('hw1f', 'mean var std pdf cdf',
         D(x0=(0, .5, -1, .2), theta=(1, .3, -.2, 2), k=(1, .5, 2, .7),
           sigma=(1, .5, 2, .7))),
        ('cir', 'mean var std pdf',
         D(x0=(1, .5, 2, .2), theta=(1, .3, .2, 2), k=(1, .5, 2, .7),
           xi=(1, .5, .4, .7))),
        ('heston', 'log_mean log_var log_std log_chf log_pdf',
         D(x0=(1, .5, 2, .2), mu=(0., .3, -.2, 1), sigma=(1, .5, .2, .7),
           y0=(1, .5, 2, .7), theta=(1, .3, .2, 2), k=(1, .5, 2, .7),
           xi=(1, .5, .4, .7), rho=(0, .5, -.5, .2))),
        ('mjd', 'mean log_chf log_pdf',
         D(x0=(1, .5, 2, .2), mu=(0., .3, -.2, 1), sigma=(1, .5, .6, .7),
           lam=(1, 2, .5, .1), a=(0, .1, -.2, .3), b=(1, .5, .2, .4))),
        ('kou', 'mean log_chf log_pdf',
         D(x0=(1, .5, 2, .2), mu=(0., .3, -.2, 1), sigma=(1, .5, .6, .7),
           lam=(1, 2, .5, .1), a=(.5, .1, .2, .3), b=(1, .5, .2, .4),
           pa=(0, .5, 1, .2)))):
    for _f in _v.split():
        _x = D(pdf=(1, .5, 2, .3), cdf=(1, .5, 2, .3), chf=(1, .5, 0, -.3)
               ).get(_f.split('_')[-1])
        _a = [('t', (1, .5, 2, .3))]
        if _x:
            _a.append(('u' if _f.endswith('chf') else
                       'logx' if _f == 'log_pdf' else 'x', _x))
        FUN[_n + '_' + _f] = (_a, _p)
for _f in 'bsd1d2 bscall bscall_delta bsput bsput_delta'.split():
    FUN[_f] = ([('k', (1, .5, 2, .3)), ('t', (1, .5, 0, .3))],
               D(x0=(1, .5, 2, .2), r=(0, .1, 1, -.1), q=(0, .1, 1, -.1),
                 sigma=(1, .5, 0, .7)))

SH = ((2,), (1,), (3,), (2, 1), (1, 3), (2, 3), (2, 1, 1), (0,))


DEF_ALL = dict(
    wiener=D(x0=0., mu=0., sigma=1.),
    lognorm=D(x0=1., mu=0., sigma=1.),
    oruh=D(x0=0., theta=0., k=1., sigma=1.),
    hw1f=D(x0=0., theta=0., k=1., sigma=1.),
    hw2f=D(x0=(0., 0.), theta=(0., 0.), k=(1., 1.), sigma=(1., 1.), rho=0.),
    cir=D(x0=1., theta=1., k=1., xi=1.),
    heston=D(x0=1., mu=0., sigma=1., y0=1., theta=1., k=1., xi=1., rho=0.),
    mjd=D(x0=1., mu=0., sigma=1., lam=1., a=0., b=1.),
    kou=D(x0=1., mu=0., sigma=1., lam=1., a=.5, b=.5, pa=.5),
    bsd1d2=D(x0=1., r=0., q=0., sigma=1.))
for _n in 'bscall bscall_delta bsput bsput_delta'.split():
    DEF_ALL[_n] = DEF_ALL['bsd1d2']
OTHER = dict(
    wiener=D(x0=.5, mu=.3, sigma=.8), lognorm=D(x0=1.5, mu=.3, sigma=.8),
    oruh=D(x0=.5, theta=.2, k=1.5, sigma=.8),
    hw1f=D(x0=.5, theta=.2, k=1.5, sigma=.8),
    hw2f=D(x0=(.5, .4), theta=(.2, .3), k=(1.5, 2.5), sigma=(.8, .5), rho=.3),
    cir=D(x0=1.5, theta=.9, k=1.5, xi=.8),
    heston=D(x0=1.5, mu=.3, sigma=.8, y0=.7, theta=.9, k=1.5, xi=.6, rho=.3),
    mjd=D(x0=1.5, mu=.3, sigma=.8, lam=.6, a=.1, b=.5),
    kou=D(x0=1.5, mu=.3, sigma=.8, lam=.6, a=.3, b=.4, pa=.2),
    bsd1d2=D(x0=1.5, r=.1, q=.05, sigma=.8))


def u_heavy(rec):
    """Double exponential jumps at and beyond the boundary where the mean
    of their exponential is infinite, with and without positive jumps."""
    U4 = np.array([0., .3, -1., 2.5])
    for a, b, pa, lam, t in itertools.product(
            (.5, .999, 1., 1.5, 4.), (.3, 1., 2.), (0., .2, .5, 1.),
            (0., .7, 3.), (0., .2, 1.5)):
        p = dict(x0=1.5, mu=.2, sigma=.4, lam=lam, a=a, b=b, pa=pa)
        what = 'kou %s t=%s' % (p, t)

        def run():
            rec.state('heavy', a, b, pa, lam, t)
            if a >= 1 and lam*pa*t > 0:
                want = np.inf
            else:
                up = pa/(1 - a) if pa > 0 and a < 1 else 0.
                want = 1.5*np.exp((.2 + lam*(
                    up + (1 - pa)/(1 + b) - 1))*t) if lam*t > 0 else \
                    1.5*np.exp(.2*t)
            with np.errstate(over='ignore'):
                got = F('kou_mean')(t, **p)
            rec.check(np.shape(got) == () and (
                got == want or (np.isfinite(want) and
                                abs(got - want) <= 1e-9*want)),
                lambda: '%s: mean %s, expected %s' % (what, got, want))
            close(rec, F('kou_log_chf')(t, U4, **p),
                  np.exp(1j*U4*np.log(1.5) + t*(
                      1j*U4*(.2 - .08) - .08*U4**2 + lam*(
                          pa/(1 - 1j*U4*a) + (1 - pa)/(1 + 1j*U4*b) - 1))),
                  what + ': chf', scale=1.)
        rec.case(['kou heavy', a, b, pa, lam, t], run)

    # in one array
    a = np.array([.5, 1., 1.5, .999])[:, None, None]
    pa = np.array([0., .5, 1.])[:, None]
    lam = np.array([0., .7, 3.])

    def arrays():
        got = F('kou_mean')(1.5, x0=1.5, mu=.2, sigma=.4, lam=lam, a=a, b=.3,
                            pa=pa)
        for i in np.ndindex(4, 3, 3):
            one = F('kou_mean')(1.5, x0=1.5, mu=.2, sigma=.4, lam=lam[i[2]],
                                a=a[i[0], 0, 0], b=.3, pa=pa[i[1], 0])
            rec.same(got[i], one, 'kou_mean of arrays at %s' % (i,),
                     tol=1e-12)
    rec.case(['kou heavy arrays'], arrays)


def u_defaults(rec):
    """Each function, each set of omitted parameters: same as with the
    documented default values."""
    fns = [(f, [v[0] for _, v in FUN[f][0]][1:] or None) for f in FUN]
    fns += [('hw2f_' + g, None if g in ('mean', 'var', 'std') else 0)
            for g in ('mean', 'var', 'std', 'pdf', 'cdf')]
    for f, has in fns:
        name = f if f in DEF_ALL else f.split('_')[0]
        dft = DEF_ALL[name]
        oth = OTHER[name if name in OTHER else 'bsd1d2']
        pos = (.8,) if has is None else (.8, 1.3)
        names = list(dft)
        for keep in itertools.product((0, 1), repeat=len(names)):
            if len(names) > 5 and 2 < sum(keep) < len(names) - 2:
                continue
            given = {k: oth[k] for k, b in zip(names, keep) if b}

            def run():
                rec.state('defaults', f, sorted(given))
                rec.same(F(f)(*pos, **given), F(f)(*pos, **{**dft, **given}),
                         '%s: defaults of %s' % (
                             f, [k for k in names if k not in given]),
                         tol=1e-9)
            rec.case([f, keep], run)


def u_elementwise(rec, f, j, n):
    fn = F(f)
    var, par = FUN[f]
    names = [n for n, _ in var] + list(par)
    vals = dict(var, **par)
    nv = len(var)
    slow = f.endswith('log_pdf')
    cache = {}

    def scalar(v):
        if v not in cache:
            cache[v] = np.asarray(fn(*[float(x) for x in v[:nv]], **{
                n: float(x) for n, x in zip(names[nv:], v[nv:])}))
        return cache[v]

    def call(args, style):
        if style == 'kw':
            return fn(**dict(zip(names, args)))
        return fn(*args[:nv], **dict(zip(names[nv:], args[nv:])))

    def fill(name, shape):
        n = int(np.prod(shape))
        return np.array([vals[name][(1 + i) % 4] for i in range(n)],
                        dtype=float).reshape(shape)

    order = 2 if rec.tier == 'quick' else 3
    if slow and rec.tier == 'quick':
        order = 2
    subsets = [c for m in range(1, order + 1)
               for c in itertools.combinations(range(len(names)), m)]
    subsets.append(tuple(range(len(names))))
    FORM = ('array', 'list', 'int array', 'tuple')
    part, parts = j, n
    for sub in subsets[part::parts]:
        shapes = list(itertools.product(SH, repeat=len(sub))) \
            if len(sub) <= 2 else \
            [tuple(SH[(i + j) % 7] for j in range(len(sub)))
             for i in range(7)] + [(s,)*len(sub) for s in SH] + \
            [tuple(SH[0] if j % 2 else SH[3] for j in range(len(sub)))]
        if slow:
            shapes = shapes[::3 if len(sub) == 1 else 11]
        for i, combo in enumerate(shapes):
            try:
                full = np.broadcast_shapes(*combo)
            except ValueError:
                if len(sub) == 2 and i % 3 == 0:
                    args = [vals[n][0] for n in names]
                    for j, s in zip(sub, combo):
                        args[j] = fill(names[j], s)
                    rec.case([f, list(sub), list(combo), 'mismatch'],
                             lambda: rec.raises(
                                 lambda: call(args, 'pos'),
                                 '%s: shapes %s' % (f, combo)))
                continue
            if slow and int(np.prod(full)) > 6:
                continue
            for form in (FORM if len(sub) == 1 or i % 5 == 0 else
                         (FORM[i % 2],)):
                def run():
                    args = [vals[n][0] for n in names]
                    for j, s in zip(sub, combo):
                        z = fill(names[j], s)
                        if form == 'int array':
                            if names[j] in ('rho', 'a', 'pa', 'b') and \
                                    f[:2] != 'bs':
                                z = np.round(z)*0 + (names[j] == 'b')
                                if f[:3] == 'kou' and names[j] == 'a':
                                    return
                            else:
                                z = np.maximum(np.ceil(np.abs(z)), 1)
                            z = z.astype(int)
                        args[j] = z
                    want_args = [np.broadcast_to(a, full) for a in args]
                    if form in ('list', 'tuple'):
                        for j in sub:
                            args[j] = args[j].tolist()
                            if form == 'tuple':
                                args[j] = tuple(args[j])
                    got = call(args, 'kw' if i % 2 else 'pos')
                    two = f == 'bsd1d2'
                    for part in range(2 if two else 1):
                        want = np.empty(full, dtype=complex if f.endswith(
                            'chf') else float)
                        for ix in np.ndindex(*full):
                            s = scalar(tuple(float(a[ix])
                                             for a in want_args))
                            want[ix] = s[part] if two else s
                        g = got[part] if two else got
                        rec.check(np.shape(g) == full,
                                  lambda: '%s: shape %s, expected %s, for '
                                  'arrays %s of shapes %s' % (
                                      f, np.shape(g), full,
                                      [names[j] for j in sub], combo))
                        rec.same(g, want, '%s with %s %s of shapes %s' % (
                            f, form, [names[j] for j in sub], combo),
                            tol=1e-8 if slow else 1e-9)
                    rec.state(f, sub, combo, form)
                    rec.step(int(np.prod(full)))
                rec.case([f, list(sub), list(combo), form], run)

    if part:
        return

    # scalar types, and defaults
    def types():
        base = [vals[n][0] for n in names]
        want = scalar(tuple(float(b) for b in base))
        for ty in (float, int, np.float64, np.int64, np.array, np.float32,
                   np.int8 if False else np.int32):
            a = [ty(b) if float(ty(b)) == float(b) else b for b in base]
            g = call(a, 'pos')
            rec.same(np.asarray(g), want, '%s with %s' % (f, ty), tol=1e-5)
            rec.check(np.shape(g) == want.shape, 'shape of a scalar')
    rec.case([f, 'types'], types)

    def shortcut():
        g = getattr(sdepy, f)
        a = [vals[n][1] for n in names]
        rec.same(np.asarray(g(*a[:nv], **dict(zip(names[nv:], a[nv:])))),
                 scalar(tuple(map(float, a))), 'sdepy.' + f)
        for n in names[nv:]:
            b = [vals[m][1] for m in names]
            d = DEFAULTS.get((f.split('_')[0], n), DEFAULTS.get(n))
            b[names.index(n)] = d
            rec.same(np.asarray(fn(*b[:nv], **{
                m: v for m, v in zip(names[nv:], b[nv:]) if m != n})),
                scalar(tuple(map(float, b))), '%s: default of %s' % (f, n))
    rec.case([f, 'shortcut and defaults'], shortcut)


DEFAULTS = {'x0': 1., 'mu': 0., 'sigma': 1., 'theta': 1., 'k': 1., 'xi': 1.,
            'y0': 1., 'rho': 0., 'lam': 1., 'r': 0., 'q': 0.,
            ('wiener', 'x0'): 0., ('oruh', 'x0'): 0., ('hw1f', 'x0'): 0.,
            ('oruh', 'theta'): 0., ('hw1f', 'theta'): 0., ('mjd', 'a'): 0.,
            ('mjd', 'b'): 1., ('kou', 'a'): .5, ('kou', 'b'): .5,
            ('kou', 'pa'): .5}


def u_large(rec, f):
    """Larger arrays, each element against a call with scalars"""
    fn = F(f)
    var, par = FUN[f]
    names = [n for n, _ in var] + list(par)
    vals = dict(var, **par)
    nv = len(var)
    slow = f.endswith('log_pdf')
    n = 14 if slow else 300

    def spread(name, m, salt):
        lo, hi = min(vals[name]), max(vals[name])
        k = np.arange(m)*(7919 + 2*salt) % (m + 1)
        return lo + (hi - lo)*(k + .5)/(m + 1)

    def run(sub, shapes):
        args = [np.asarray(vals[m][1], float) for m in names]
        for j, sh in zip(sub, shapes):
            args[j] = spread(names[j], int(np.prod(sh)), j).reshape(sh)
        full = np.broadcast_shapes(*[a.shape for a in args])
        got = fn(*args[:nv], **dict(zip(names[nv:], args[nv:])))
        got = got if f == 'bsd1d2' else (got,)
        each = [np.broadcast_to(a, full) for a in args]
        rec.state('large', f, sub, shapes)
        want = None
        for i in np.ndindex(*full):
            w = fn(*[float(a[i]) for a in each[:nv]],
                   **{m: float(a[i]) for m, a in zip(names[nv:], each[nv:])})
            w = w if f == 'bsd1d2' else (w,)
            if want is None:
                want = [np.empty(full, np.asarray(z).dtype) for z in w]
            for z, y in zip(want, w):
                z[i] = y
            rec.step()
        for g, z in zip(got, want):
            rec.check(np.shape(g) == full, '%s: shape %s, not %s' % (
                f, np.shape(g), full))
            rec.same(g, z, '%s with large %s' % (f, [names[j] for j in sub]),
                     1e-8 if slow else 1e-9)
    for j in range(len(names)):
        rec.case([f, j], lambda: run((j,), ((n,),)))
        i = (j + 1) % len(names)
        a, b = (4, 3) if slow else (25, 20)
        rec.case([f, j, i], lambda: run((j, i), ((a, 1), (b,))))
        if not slow:
            rec.case([f, j, i, 3], lambda: run(
                (j, i), ((13, 1, 3), (1, 11, 3))))
    rec.case([f, 'all'], lambda: run(tuple(range(len(names))),
                                     ((n,),)*len(names)))


# ------------------------------------------------------ error settings

def u_errstate(rec):
    sets = [dict(all='warn'), dict(all='ignore'), dict(all='raise'),
            dict(divide='raise', over='warn', under='ignore',
                 invalid='raise'), dict(over='raise'),
            dict(under='raise', divide='warn')]
    odd = [0., 1., -1., 1e-320, 1e308, np.nan, np.inf, [1., 2, 3], 'a', None]
    for f, (var, par) in FUN.items():
        names = [n for n, _ in var] + list(par)
        fn = F(f)
        if f.endswith('log_pdf'):
            continue
        for k, st in enumerate(sets):
            for j, n in enumerate(names):
                def run():
                    for v in odd:
                        a = dict({m: x[1] for m, x in var},
                                 **{m: x[1] for m, x in par.items()})
                        a[n] = v
                        if v is odd[-3]:
                            a['sigma' if 'sigma' in a else 'x0'] = [1., 2]
                        with np.errstate(**st):
                            want = np.geterr()
                            call0 = np.geterrcall()
                            try:
                                fn(**a)
                            except Exception:
                                pass
                            rec.check(np.geterr() == want and
                                      np.geterrcall() is call0,
                                      '%s altered numpy error settings, '
                                      'with %s=%s' % (f, n, v))
                            rec.step()
                rec.case([f, k, n], run)
