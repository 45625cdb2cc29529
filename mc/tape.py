"""A random number generator whose draws are supplied by an enumerator.

TapeRNG is a numpy Generator (accepted wherever one is) that never draws
anything: each call is answered by a provider, which the explorer drives.
Elementary draws are of few kinds (standard normals, uniforms, standard
exponentials, Poisson and binomial counts); all methods the library may
reasonably use are expressed through these."""
import numpy as np
import scipy.stats


class Unscripted(RuntimeError):
    pass


def _shape(size, *params):
    if size is None:
        return np.broadcast(*params).shape if params else ()
    return (int(size),) if np.ndim(size) == 0 else tuple(int(k) for k in size)


class TapeRNG(np.random.Generator):
    """normal(shape), uniform(shape), expo(shape): arrays of elementary
    draws; poisson(lam), binomial(n, p): arrays of counts, for already
    broadcast parameters.  `log` records (kind, parameters) of all draws."""

    def __init__(self, normal=None, uniform=None, expo=None, poisson=None,
                 binomial=None):
        super().__init__(np.random.PCG64(12345))
        self._n, self._u, self._e = normal, uniform, expo
        self._p, self._b = poisson, binomial
        self.log = []

    def _need(self, f, what):
        if f is None:
            raise Unscripted('unexpected draw of kind ' + what)
        return f

    def _normals(self, shape):
        if self._n is None and self._u is not None:
            return scipy.stats.norm.ppf(self._uniforms(shape))
        self.log.append(('normal', shape))
        return np.array(self._need(self._n, 'normal')(shape), dtype=float)

    def _uniforms(self, shape):
        if self._u is None and self._n is not None:
            return scipy.stats.norm.cdf(self._normals(shape))
        self.log.append(('uniform', shape))
        return np.array(self._need(self._u, 'uniform')(shape), dtype=float)

    def _expos(self, shape):
        if self._e is None:
            return -np.log1p(-self._uniforms(shape))
        self.log.append(('expo', shape))
        return np.array(self._e(shape), dtype=float)

    def _done(self, x, size, params=(), dtype=None, out=None):
        if out is not None:
            out[...] = x
            return out
        if dtype is not None:
            x = np.asarray(x).astype(dtype)
        if size is None and np.ndim(x) == 0:
            return np.asarray(x).item()
        return x

    # normals
    def standard_normal(self, size=None, dtype=np.float64, out=None):
        if out is not None and size is None:
            size = out.shape
        return self._done(self._normals(_shape(size)), size, dtype=dtype,
                          out=out)

    def normal(self, loc=0.0, scale=1.0, size=None):
        s = _shape(size, np.asarray(loc), np.asarray(scale))
        return self._done(loc + np.asarray(scale)*self._normals(s), size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn',
                            tol=1e-8, *, method='svd'):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        assert cov.ndim == 2 and cov.shape[0] == cov.shape[1] == mean.size
        s = _shape(size) if size is not None else ()
        w, v = np.linalg.eigh((cov + cov.T)/2)
        if (w < -1e-7).any() and check_valid != 'ignore':
            raise ValueError('covariance is not positive-semidefinite.')
        root = (v*np.sqrt(np.maximum(w, 0))) @ v.T
        return mean + self._normals(s + (mean.size,)) @ root

    # uniforms
    def random(self, size=None, dtype=np.float64, out=None):
        if out is not None and size is None:
            size = out.shape
        return self._done(self._uniforms(_shape(size)), size, dtype=dtype,
                          out=out)

    def uniform(self, low=0.0, high=1.0, size=None):
        s = _shape(size, np.asarray(low), np.asarray(high))
        return self._done(np.asarray(low) + (np.asarray(high) - low) *
                          self._uniforms(s), size)

    # exponentials
    def standard_exponential(self, size=None, dtype=np.float64, method='zig',
                             out=None):
        if out is not None and size is None:
            size = out.shape
        return self._done(self._expos(_shape(size)), size, dtype=dtype,
                          out=out)

    def exponential(self, scale=1.0, size=None):
        s = _shape(size, np.asarray(scale))
        return self._done(np.asarray(scale)*self._expos(s), size)

    # counts
    def poisson(self, lam=1.0, size=None):
        s = _shape(size, np.asarray(lam))
        lam = np.array(np.broadcast_to(lam, s), dtype=float)
        if not (lam >= 0).all():
            raise ValueError('lam < 0 or lam is NaN')
        self.log.append(('poisson', lam))
        n = np.asarray(self._need(self._p, 'poisson')(lam), dtype=np.int64)
        # (impossible outcomes are never returned)
        return self._done(np.where(lam > 0, n, 0), size)

    def binomial(self, n, p, size=None):
        s = _shape(size, np.asarray(n), np.asarray(p))
        n = np.array(np.broadcast_to(n, s))
        p = np.array(np.broadcast_to(p, s), dtype=float)
        if (n < 0).any():
            raise ValueError('n < 0')
        if not ((p >= 0) & (p <= 1)).all():
            raise ValueError('p < 0, p > 1 or p is NaN')
        self.log.append(('binomial', n, p))
        n = n.astype(np.int64)
        k = np.asarray(self._need(self._b, 'binomial')(n, p), dtype=np.int64)
        k = np.where(p <= 0, 0, np.where(p >= 1, n, np.clip(k, 0, n)))
        return self._done(k, size)

    def _other(self, *a, **k):
        raise Unscripted('unscripted kind of draw')
    integers = choice = bytes = shuffle = permutation = permuted = _other
    beta = gamma = chisquare = laplace = logistic = triangular = _other
    geometric = multinomial = negative_binomial = standard_gamma = _other
    weibull = pareto = power = rayleigh = wald = standard_t = _other
    hypergeometric = vonmises = zipf = _other


def constant_rng(normal=0., uniform=.5, expo=None, poisson=1, binomial=0):
    """All draws of a kind are equal to the given value (poisson, binomial:
    a number or a function of the parameters)."""
    def cst(v):
        return lambda shape: np.full(shape, v)

    def f(v):
        return v if callable(v) else (
            lambda first, *a: np.full(np.shape(first), v))
    return TapeRNG(normal=cst(normal), uniform=cst(uniform),
                   expo=None if expo is None else cst(expo),
                   poisson=f(poisson), binomial=f(binomial))


class Impulse:
    """Provider of standard normals: all zero but the k-th one drawn."""

    def __init__(self, k=None, size=1.):
        self.k, self.n, self.size = k, 0, size

    def __call__(self, shape):
        m = int(np.prod(shape))
        z = np.zeros(m)
        if self.k is not None and self.n <= self.k < self.n + m:
            z[self.k - self.n] = self.size
        self.n += m
        return z.reshape(shape)


def linear_map(fn, limit=3000):
    """fn(rng) -> array, run on every impulse of the normals it draws.
    Returns (constant part, matrix with one column per elementary draw)."""
    imp = Impulse()
    b = np.asarray(fn(TapeRNG(normal=imp)), dtype=float).ravel()
    n = imp.n
    if n > limit:
        raise RuntimeError('too many draws: %d' % n)
    A = np.empty((b.size, n))
    for k in range(n):
        i = Impulse(k)
        A[:, k] = np.asarray(fn(TapeRNG(normal=i)), float).ravel() - b
        assert i.n == n, 'draws depend on values'
    return b, A
