"""C06: law, shape and type of memoryless sources."""
import itertools
import warnings
import numpy as np
import sdepy
from sdepy import process
from mc.core import pick
from mc.tape import TapeRNG, linear_map

PROPERTY = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = ('real sources run on a scripted generator for every elementary draw '
             '(impulse responses give the exact joint covariance; tagged counts '
             'and jumps give exact attribution), against the stated law')
LEVEL_NOTE = ('Joint Gaussian law decided exactly from all impulse responses; '
              'Poisson by attribution of each draw and its mean; all jump count '
              'patterns over {0,1,2} on up to 4 cells. Small shapes. Trusts numpy '
              'generators to honour the law of each elementary draw.'
              ' Plus increments from 1e-12 to 1e12, 70000 jumps at once, 70000 paths, parameters changing between calls.')
RULE = ('a state is (source, configuration, count pattern); a trace is one source '
        'with all its impulse responses or one count pattern')

TDT = {
    'scalar': (0.5, 0.25), 'int': (1, 2), 'neg': (1., -0.75),
    'zero': (0.5, 0.), 'npscalar': (np.float64(.5), np.array(1.5)),
    'vecdt': (0.25, np.array([.5, -1.])), 'vect': ((0., 1.), .5),
    'vec': (np.array([0., .5, 2.]), np.array([.5, 1.5, -.25])),
    'grid': (np.array([[0.], [1.]]), np.array([.5, 2.])),
    'ints': (np.array([0, 1]), np.array([1, 3])), 'one': ([.5], [.25]),
    'mixneg': (np.array([1., -1.]), -1),
    'tiny': (.5, 1e-13), 'small': (0., np.array([-1e-9, 1e-6])),
    'huge': (-1e6, 2e6 + 1),
}
LONGTDT = {
    'scalar': (.5, .25),
    'many': (np.arange(70)/32 - 1, .5),
    'each': (.25, (np.arange(70) - 30.5)/16),
    'grid': (np.arange(-5., 7.)[:, np.newaxis], np.arange(1, 13)/8),
}


def matrix(M, r):
    C = np.eye(M)
    for i in range(M):
        for j in range(M):
            if i != j:
                C[i, j] = r**abs(i - j)
    return C


def rhomat(r):
    r = np.ravel(r)
    K = r.size
    C = np.eye(2*K)
    for i in range(K):
        C[i, i + K] = C[i + K, i] = r[i]
    return C


def untestable(f):
    """f, failing at its first call if this is a test evaluation at 1"""
    calls = []

    def g(t):
        calls.append(t)
        if len(calls) == 1 and t == 1.:
            raise ZeroDivisionError
        return f(t)
    return g


def corr_forms(M):
    """name -> (kwargs, function t -> matrix)"""
    C, D = matrix(M, .5), matrix(M, -.25)
    out = {
        'none': ({}, lambda t: np.eye(M)),
        'matrix': (dict(corr=C), lambda t: C),
        'list': (dict(corr=C.tolist()), lambda t: C),
        'trailing': (dict(corr=C[..., np.newaxis]), lambda t: C),
        'ones': (dict(corr=np.ones((M, M))), lambda t: np.ones((M, M))),
        'call': (dict(corr=lambda t: C + (D - C)*t/8),
                 lambda t: C + (D - C)*t/8),
        'calllist': (dict(corr=lambda t: (C + (D - C)*t/8).tolist()),
                     lambda t: C + (D - C)*t/8),
        'call3': (dict(corr=lambda t: (C + (D - C)*t/8)[..., np.newaxis]),
                  lambda t: C + (D - C)*t/8),
        'notatone': (dict(corr=untestable(lambda t: C*1.)),
                     lambda t: C),
        'cprocess': (dict(corr=process(c=C)), lambda t: C),
        'process': (dict(corr=process((-8., 8.), v=np.array([C, D]))),
                    lambda t: C + (D - C)*(t + 8)/16),
        'both': (dict(corr=C, rho=.125), lambda t: C),
    }
    if M % 2 == 0:
        K = M//2
        r = np.linspace(-.75, .5, K) if K > 1 else np.array([.6])
        R = rhomat(r)
        z = np.eye(M)
        out.update({
            'rho': (dict(rho=r if K > 1 else .6), lambda t: R),
            'rholist': (dict(rho=list(r)), lambda t: R),
            'rhocol': (dict(rho=r[:, np.newaxis]), lambda t: R),
            'rhocall': (dict(rho=(lambda t: r*t/8) if K > 1 else
                             (lambda t: .6*t/8)),
                        lambda t: z + (R - z)*t/8),
            'rhoproc': (dict(rho=process((0., 8.), v=np.array([0*r, r]))),
                        lambda t: z + (R - z)*np.clip(t/8, 0, 1)),
        })
        if K == 1:
            out.update({
                'rho1': (dict(rho=1.), lambda t: rhomat(1.)),
                'rho-1': (dict(rho=-1), lambda t: rhomat(-1.)),
                'rho0': (dict(rho=0), lambda t: z),
                'rhoproc1': (dict(rho=process((0., 8.), v=np.array([0, .6]))),
                             lambda t: z + (R - z)*np.clip(t/8, 0, 1)),
            })
    return out


def expected_cov(queries, vshape, paths, C, dtype=float):
    """covariance of the concatenated, flattened outputs of all queries"""
    blocks = []
    for t, dt in queries:
        t, dt = np.broadcast_arrays(t, dt)
        for i in np.ndindex(t.shape):
            M = vshape[-1] if vshape else 1
            lead = int(np.prod(vshape[:-1])) if vshape else 1
            c = C(t[i] + dt[i]/2) if vshape else np.eye(1)
            b = np.einsum('ac,mn,pq->ampcnq', np.eye(lead), c, np.eye(paths))
            blocks.append(b.reshape(lead*M*paths, -1)*abs(dt[i]))
    n = blocks[0].shape[0]
    out = np.zeros((n*len(blocks),)*2)
    for k, b in enumerate(blocks):
        out[k*n:(k+1)*n, k*n:(k+1)*n] = b
    return out


def wiener_case(rec, cls, vshape, paths, form, kw, C, queries, dtype):
    shapes = []

    def fn(rng):
        src = cls(paths=paths, vshape=vshape, dtype=dtype, rng=rng, **kw)
        outs = []
        for t, dt in queries:
            z = src(t, dt)
            rec.step()
            want = np.broadcast(np.asarray(t), np.asarray(dt)).shape + \
                tuple(vshape) + (paths,)
            if not shapes:
                rec.check(isinstance(z, np.ndarray) and z.shape == want,
                          lambda: 'shape %s, expected %s' % (z.shape, want))
                rec.check(z.dtype == np.dtype(dtype or float),
                          'dtype %s' % z.dtype)
            outs.append(np.ravel(z).astype(float))
        shapes.append(1)
        return np.concatenate(outs)
    b, A = linear_map(fn)
    tol = 1e-9 if dtype is None else 1e-5
    rec.same(b, 0*b, 'mean', tol)
    cov = A @ A.T
    want = expected_cov(queries, vshape, paths, C)
    # compare correlations, whatever the size of each increment
    sd = np.sqrt(np.diag(want))
    sd[sd == 0] = 1.
    cov, want = cov/np.outer(sd, sd), want/np.outer(sd, sd)
    rec.same(cov, want, 'covariance', tol)
    # the map is linear: the response to all draws at once is the sum
    got = fn(TapeRNG(normal=lambda s: np.ones(s)))
    rec.same(got, b + A.sum(axis=1), 'linearity', tol)


HUGE = [((), 5000, (0., 1.)), ((), 70000, (1., -.5)), ((2,), 20000, (0., 2.)),
        ((300, 2), 30, (0., 1.)), ((2, 2, 2), 3000, (0., 1.)),
        ((), 1, (np.arange(3000.), 1.)), ((2,), 2, (0., np.arange(1., 2001)/1000)),
        ((), 40, (np.arange(40.)[:, None], np.arange(1., 41.)))]


def huge_case(rec, cls, vshape, paths, form, kw, query, half=False):
    """Sizes at which impulses cannot be given one by one: no increment is
    repeated, and all paths respond equally to equal draws."""
    t, dt = np.broadcast_arrays(*query)
    ddt = np.sqrt(abs(dt)).reshape(dt.shape + (1,)*(len(vshape) + 1))

    def get(normal):
        src = cls(paths=paths, vshape=vshape, rng=TapeRNG(normal=normal), **kw)
        z = src(*query)
        rec.step()
        rec.check(z.shape == t.shape + vshape + (paths,), 'shape')
        return (z[..., :paths//2] if half else z)/ddt
    count = [0]

    def tagged(s):
        n = int(np.prod(s))
        k = np.arange(count[0], count[0] + n)
        count[0] += n
        return np.sin(k + 1.).reshape(s)*(1 + k.reshape(s)/7)
    z = get(tagged)
    rec.check(count[0] >= z.size, 'fewer draws than increments')
    if form != 'ones':
        rec.check(np.unique(np.round(z, 9)).size > z.size*.999,
                  'increments are repeated')
    z = get(lambda s: np.ones(s))
    rec.same(z, z[..., :1] + 0*z, 'paths are treated differently')
    if form in ('none', 'matrix'):
        z = z.reshape((-1,) + z.shape[t.ndim:])
        rec.same(z, z[:1] + 0*z, 'times are treated differently')
    rec.state('huge', vshape, paths, form)


EMPTY = ((0, ()), (2, (0,)), (0, (2,)), (2, (0, 2)), (4, (2, 0)), (0, (0,)))


def empty_case(rec, make, paths, vshape, dtype):
    """no paths, no values, no times: empty results of the right shape"""
    src = make(paths=paths, vshape=vshape, dtype=dtype,
               rng=np.random.default_rng(1))
    for t, dt in ((0., 1.), (.5, -.25), (np.arange(3.), .5), (0, 0),
                  (np.zeros((0,)), 1.), (1., np.zeros((2, 0))), (2., 1.)):
        z = src(t, dt)
        rec.step()
        rec.check(z.shape == np.broadcast(t, dt).shape + vshape + (paths,),
                  lambda: 'shape %r at %r' % (z.shape, (t, dt)))
        rec.check(z.dtype == np.dtype(dtype), lambda: 'dtype %r' % z.dtype)
    rec.check(src.paths == paths and src.vshape == vshape, 'attributes')
    rec.state('empty', paths, vshape)


def empty_unit(rec, names):
    for n, (paths, vs), dt in itertools.product(
            names, EMPTY + ((2, (3,)),), (float, np.float32, int)):
        if dt == int and 'poisson' not in n:
            continue
        rec.case(['empty', n, paths, vs, np.dtype(dt).str], lambda: empty_case(
            rec, getattr(sdepy, n), paths, vs, dt))


def units(tier, seed):
    for vs in ((), (1,), (2,), (3,), (2, 2), (3, 2), (2, 3), (4,)):
        yield dict(u='wiener', vs=vs)
    for k in range(2):
        yield dict(u='poisson', part=k)
    for k in range(4):
        yield dict(u='cpoisson', part=k)
    yield dict(u='params')
    yield dict(u='errors')
    for k in range(8):
        yield dict(u='bigwiener', k=k)
    yield dict(u='huge')
    yield dict(u='empty')
    yield dict(u='bigpoisson')
    yield dict(u='bigjumps')
    yield dict(u='changing')


def run_unit(rec, u):
    if u['u'] == 'wiener':
        vs = tuple(u['vs'])
        fs = corr_forms(vs[-1]) if vs else {'none': ({}, None)}
        for form, (kw, C) in fs.items():
            for q, paths in itertools.product(TDT, (1, 2, 3)):
                n = np.broadcast(*map(np.asarray, TDT[q])).size * \
                    int(np.prod(vs))*paths
                if n > (150 if rec.tier == 'thorough' else 48):
                    continue
                cls = (sdepy.wiener_source, sdepy.dw)[pick(len(vs) + 7*len(q) + paths, 2)]
                dt = (None, np.float32)[len(q) % 5 == 0]
                rec.case(['wiener', vs, form, q, paths], lambda: (
                    wiener_case(rec, cls, vs, paths, form, kw, C, [TDT[q]],
                                dt), rec.state('w', vs, form, q, paths)))
            # three calls in a row: independence among calls
            rec.case(['wiener calls', vs, form], lambda: (
                wiener_case(rec, sdepy.dw, vs, 1, form, kw, C,
                            [(0., 1.), (0., 1.), (1., -.5), (.5, (1., 2.))],
                            None), rec.state('w3', vs, form)))
        if vs:
            rec.case(['wiener int vshape', vs], lambda: rec.check(
                sdepy.dw(vshape=vs[0]).vshape == (vs[0],) and
                sdepy.dw(vshape=vs[0], rng=np.random.default_rng(1))(
                    0, 1).shape == (vs[0], 1), 'integer vshape'))
    elif u['u'] == 'bigwiener':
        n = 0
        for (vs, paths, q), form in itertools.product(
                (((), 300, 'scalar'), ((), 2, 'many'), ((), 3, 'grid'),
                 ((), 3, 'each'), ((2,), 150, 'scalar'), ((2,), 1, 'many'),
                 ((2,), 2, 'each'), ((2,), 2, 'grid'), ((12,), 12, 'scalar'),
                 ((4, 6), 8, 'scalar'), ((30, 2), 4, 'scalar'),
                 ((8,), 1, 'many'), ((2, 2), 1, 'grid')),
                ('none', 'matrix', 'call', 'process', 'rho', 'rhocall')):
            if not vs and form != 'none':
                continue
            fs = corr_forms(vs[-1]) if vs else {'none': ({}, None)}
            n += 1
            if n % 8 != u['k'] or form not in fs:
                continue
            kw, C = fs[form]
            rec.case(['wiener big', vs, paths, q, form], lambda: (
                wiener_case(rec, sdepy.dw, vs, paths, form, kw, C,
                            [LONGTDT[q]], None),
                rec.state('W', vs, paths, q, form)))
    elif u['u'] == 'empty':
        empty_unit(rec, ('wiener_source', 'poisson_source',
                         'cpoisson_source'))
    elif u['u'] == 'huge':
        for vs, paths, q in HUGE:
            fs = corr_forms(vs[-1]) if vs else {'none': ({}, None)}
            for form in ('none', 'matrix', 'call', 'rho'):
                if form in fs:
                    rec.case(['huge', vs, paths, form], lambda: huge_case(
                        rec, sdepy.dw, vs, paths, form, fs[form][0], q))
    elif u['u'] == 'bigpoisson':
        poisson(rec, u, big=True)
    elif u['u'] == 'bigjumps':
        big_jumps(rec)
    elif u['u'] == 'changing':
        changing(rec)
    elif u['u'] == 'poisson':
        poisson(rec, u)
    elif u['u'] == 'cpoisson':
        cpoisson(rec, u)
    elif u['u'] == 'params':
        jump_params(rec)
    else:
        errors(rec)


def lam_forms(vshape, paths):
    full = (1 + np.arange(int(np.prod(vshape + (paths,))),
                          dtype=float)).reshape(vshape + (paths,))/4
    col = full[..., :1]
    ones = np.ones(vshape + (1,))
    sh = (2,) + (1,)*(len(vshape) + 1)
    return {
        'scalar': (.75, lambda t: .75), 'int': (2, lambda t: 2),
        'zero': (0., lambda t: 0.),
        'col': (col, lambda t: col), 'full': (full, lambda t: full),
        'list': (full.tolist(), lambda t: full),
        'call': (lambda t: 8 + t, lambda t: 8 + t),
        'calllist': (lambda t: ((8 + t)*full).tolist(),
                     lambda t: (8 + t)*full),
        'notatone': (untestable(lambda t: 2 + t*t),
                     lambda t: 2 + t*t),
        'cprocess': (process(c=col[..., 0]), lambda t: col),
        'process': (process((-8., 8.), x=np.array([1., 3.]).reshape(sh)*ones),
                    lambda t: (2 + t/8)*ones),
        'pprocess': (process((-8., 8.), x=np.array([1., 3.]).reshape(sh)*full),
                     lambda t: (2 + t/8)*full),
    }


def poisson(rec, u, big=False):
    def body(vshape, paths, form, q, dtype, cls):
        lam, ref = lam_forms(vshape, paths)[form]
        means = []

        def draw(L):
            ids = len(means) + 1 + np.arange(L.size).reshape(L.shape)
            means.extend(L.ravel())
            return ids
        kw = {} if dtype is None else dict(dtype=dtype)
        src = cls(paths=paths, vshape=vshape, lam=lam,
                  rng=TapeRNG(poisson=draw), **kw)
        used = set()
        for rep in range(2):
            t, dt = {**TDT, **(LONGTDT if big else {})}[q]
            z = src(t, dt)
            rec.step()
            tb, db = np.broadcast_arrays(t, dt)
            rec.check(z.shape == tb.shape + vshape + (paths,),
                      'shape %s' % (z.shape,))
            rec.check(z.dtype == np.dtype(int if dtype is None else dtype),
                      'dtype %s' % z.dtype)
            for i in np.ndindex(tb.shape):
                want = np.broadcast_to(abs(db[i])*np.asarray(
                    ref(tb[i] + db[i]/2), float), vshape + (paths,))
                if db[i] == 0:
                    rec.same(z[i], 0*z[i], 'null interval')
                    continue
                if not want.any():
                    rec.same(z[i], 0*z[i], 'null intensity')
                    continue
                ids = (z[i]*np.sign(db[i])).astype(int)
                rec.check((ids >= 1).all(), 'sign of counts: %s' % z[i])
                rec.check(len(set(ids.ravel())) == ids.size and
                          used.isdisjoint(ids.ravel()),
                          'a draw is used more than once')
                used.update(ids.ravel())
                rec.same(np.array([means[k - 1] for k in ids.ravel()]).reshape(
                    want.shape)/abs(db[i]), want/abs(db[i]), 'mean of counts')
        rec.state('p', vshape, paths, form, q, str(dtype))
    n = 0
    if big:
        for (vs, paths), form, q in itertools.product(
                (((), 700), ((40,), 5), ((3, 7), 4), ((), 20000)),
                lam_forms((), 1), LONGTDT):
            if paths > 700 and q != 'scalar':
                continue
            rec.case(['poisson big', vs, paths, form, q], lambda: body(
                vs, paths, form, q, None, sdepy.dn))
        return
    for vs, paths, form, q in itertools.product(
            ((), (1,), (2,), (2, 3)), (1, 3), lam_forms((), 1), TDT):
        n += 1
        if n % 2 != u['part']:
            continue
        dtype = (None, float, np.int32)[(n//2) % 3]
        cls = (sdepy.poisson_source, sdepy.dn)[(n//2) % 2]
        rec.case(['poisson', vs, paths, form, q, str(dtype)],
                 lambda: body(vs, paths, form, q, dtype, cls))


class Tagged:
    """A jump distribution whose variates are distinct powers of two."""

    def __init__(self, tags, t=None, state=True):
        self.tags, self.t, self.state = tags, t, state
        if not state:
            self.rvs = self.old_rvs

    def rvs(self, size, random_state=None):
        self.tags.states.append(random_state)
        return self.old_rvs(size)

    def old_rvs(self, size):
        n = int(np.prod(size))
        k = len(self.tags.times)
        self.tags.times.extend([self.t]*n)
        return 2.**(k + np.arange(n)).reshape(size)


class Tags:
    def __init__(self):
        self.times, self.states = [], []


def bits(x):
    x = int(x)
    return {k for k in range(x.bit_length()) if x >> k & 1}


def cpoisson(rec, u):
    """All patterns of jump counts over {0,1,2} for up to 4 cells."""
    def body(vshape, paths, q, pattern, yk, dnk, cls, dtype=None):
        tags = Tags()
        t, dt = TDT[q]
        tb, db = np.broadcast_arrays(t, dt)
        shape = vshape + (paths,)
        seq = list(pattern)
        pos = [0]

        def draw(L):
            n = [seq[(pos[0] + k) % len(seq)] for k in range(L.size)]
            pos[0] += L.size
            return np.array(n).reshape(L.shape)
        rng = TapeRNG(poisson=draw)
        if yk == 'tagged':
            y = Tagged(tags)
        elif yk == 'timed':
            def y(t):
                return Tagged(tags, t=float(t))
        elif yk == 'nostate':
            y = Tagged(tags, state=False)
        kw = {}
        if dnk == 'source':
            kw['dn'] = sdepy.poisson_source(paths=paths, vshape=vshape,
                                            rng=rng, lam=1.5)
        elif dnk == 'class':
            kw.update(dn=sdepy.poisson_source, lam=2., ptype=np.int32)
        elif dnk == 'float':
            kw.update(ptype=float)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            src = cls(paths=paths, vshape=vshape, rng=rng, y=y, dtype=dtype,
                      **kw)
            z = src(t, dt)
        rec.step()
        rec.check(z.shape == tb.shape + shape and
                  z.dtype == np.dtype(dtype or float), 'shape and dtype')
        cnt = np.array([seq[k % len(seq)] for k in range(
            tb.size*int(np.prod(shape)))]).reshape(tb.shape + shape)
        sg = np.sign(db).reshape(db.shape + (1,)*len(shape))
        # which draw goes to which cell is left to the implementation
        if (db != 0).all():
            rec.same(np.sort(src.dn_value*sg, axis=None),
                     np.sort(cnt, axis=None), 'dn_value')
        cnt = np.abs(src.dn_value)
        rec.check(((src.dn_value*sg) >= 0).all(), 'sign of dn_value')
        used = set()
        for i in np.ndindex(tb.shape):
            for j in np.ndindex(shape):
                v = z[i][j]*np.sign(db[i])
                n = cnt[i][j] if db[i] != 0 else 0
                rec.check(v >= 0 and v == int(v), 'sign of jumps %s' % v)
                b = bits(v)
                rec.check(len(b) == n, lambda: '%d jumps cumulated for a '
                          'count of %d' % (len(b), n))
                rec.check(used.isdisjoint(b), 'a jump is used twice')
                used |= b
                if yk == 'timed':
                    for k in b:
                        rec.same(tags.times[k], tb[i] + db[i]/2,
                                 'time of the jump distribution')
        if yk != 'nostate':
            rec.check(all(s is rng for s in tags.states),
                      'generator given to the jump distribution')
        rec.same(sum(float(np.sum(v)) for v in src.y_value),
                 float(np.abs(z).sum()), 'y_value')
        rec.state('c', vshape, paths, q, pattern, yk, dnk)
    k = 0
    for (vs, paths), q in itertools.product(
            (((), 1), ((), 2), ((2,), 1), ((2,), 2), ((2, 2), 1)),
            ('scalar', 'neg', 'zero', 'vecdt', 'int')):
        m = int(np.prod(vs + (paths,)))*np.broadcast(
            *map(np.asarray, TDT[q])).size
        pats = itertools.product((0, 1, 2), repeat=m) if m <= 4 else \
            itertools.product((0, 1, 3), (2, 0), (1, 0, 2), (0, 1), (4,),
                              (0, 1), (2,), (1,))
        for pat in pats:
            k += 1
            if k % 4 != u['part']:
                continue
            h = k//4
            yk = ('tagged', 'timed', 'nostate')[h % 3]
            dnk = ('none', 'source', 'class', 'float')[h % 4]
            cls = (sdepy.cpoisson_source, sdepy.dj)[h % 2]
            rec.case(['cpoisson', vs, paths, q, pat, yk, dnk],
                     lambda: body(vs, paths, q, pat, yk, dnk, cls))


def changing(rec):
    """Parameters which take other values as calls go by: those in effect
    are used, also if time is the same."""
    seqs = list(itertools.product(range(3), repeat=3)) + [
        (0, 1, 2, 0, 1, 2), (2, 2, 0, 0, 2, 1)]

    def wiener(form, vs, q, seq):
        M = vs[-1]
        k = [0]
        mats = [matrix(M, .5), np.eye(M), matrix(M, -.25)]
        grow = matrix(M, .125) - np.eye(M)

        def C(t):
            return mats[k[0]] + grow*t/8
        r = .3*np.arange(1, M//2 + 1)/max(1, M//2)

        def rho(t):
            return (r if M > 2 else .3)*(k[0] - 1)*(1 + t/8)
        kw = {'array': dict(corr=C), 'list': dict(
                corr=lambda t: C(t).tolist()),
              'trail': dict(corr=lambda t: C(t)[..., np.newaxis]),
              'rho': dict(rho=rho)}[form]
        t, dt = TDT[q]
        blocks = []
        for k[0] in seq:
            ref = {'rho': lambda t: rhomat(rho(t))}.get(form, C)
            blocks.append(expected_cov([(t, dt)], vs, 1, ref))
        k[0] = 0

        def fn(rng):
            src = sdepy.dw(paths=1, vshape=vs, rng=rng, **kw)
            out = []
            for k[0] in seq:
                out.append(np.ravel(src(t, dt)))
                rec.step()
            return np.concatenate(out)
        b, A = linear_map(fn)
        rec.same(b, 0*b, 'mean', 1e-9)
        n = len(blocks[0])
        want = np.zeros((n*len(seq),)*2)
        for j, x in enumerate(blocks):
            want[j*n:(j + 1)*n, j*n:(j + 1)*n] = x
        rec.same(A @ A.T, want, 'covariance', 1e-9)
        rec.state('cw', form, vs, q, seq)
    for form, vs, q, seq in itertools.product(
            ('array', 'list', 'trail', 'rho'), ((2,), (4,), (2, 2)),
            list(TDT)[:6], seqs):
        if len(seq)*np.broadcast(*map(np.asarray, TDT[q])).size*int(
                np.prod(vs)) > 48:
            continue
        if form == 'rho' and vs[-1] % 2:
            continue
        rec.case(['changing wiener', form, vs, q, seq],
                 lambda: wiener(form, vs, q, seq))

    def poisson(form, vs, q, seq):
        k = [0]
        vals = [.5, 3., 0.]
        sh = vs + (2,)

        def lam(t):
            return np.full(sh, vals[k[0]]*(1 + t/16))
        P = {'array': lam, 'float': lambda t: vals[k[0]]*(1 + t/16),
             'list': lambda t: lam(t).tolist()}[form]
        means = []

        def draw(L):
            means.append(np.array(L))
            return np.zeros(L.shape)
        src = sdepy.dn(paths=2, vshape=vs, lam=P, rng=TapeRNG(poisson=draw))
        t, dt = TDT[q]
        tb, db = np.broadcast_arrays(t, dt)
        for k[0] in seq:
            del means[:]
            src(t, dt)
            rec.step()
            want = np.concatenate([np.ravel(np.zeros(sh))[:0]] + [
                np.ravel(abs(db[i])*lam(tb[i] + db[i]/2))
                for i in np.ndindex(tb.shape)])
            got = np.concatenate([np.zeros(0)] + [np.ravel(m) for m in means])
            rec.same(np.sort(got[got > 0]), np.sort(want[want > 0]),
                     'means of counts, parameters no. %s' % k[0], 1e-12)
        rec.state('cp', form, vs, q, seq)

    def jumps(form, q, seq):
        k = [0]
        vals = [.5, -3., 7.]
        y = {'param': sdepy.norm_rv(a=lambda t: vals[k[0]]*(1 + t/16), b=1.),
             'law': lambda t: sdepy.norm_rv(a=vals[k[0]]*(1 + t/16), b=1.),
             'map': sdepy.rvmap(lambda t, x: x + vals[k[0]]*(1 + t/16),
                                sdepy.norm_rv(0., 1.))}[form]
        src = sdepy.dj(paths=2, vshape=(2,), y=y, rng=TapeRNG(
            normal=lambda s: np.zeros(s),
            poisson=lambda L: np.full(L.shape, 2)))
        t, dt = TDT[q]
        tb, db = np.broadcast_arrays(t, dt)
        for k[0] in seq:
            z = src(t, dt)
            rec.step()
            s = np.sign(db)*2*vals[k[0]]*(1 + (tb + db/2)/16)
            rec.same(z, s[..., np.newaxis, np.newaxis] + np.zeros((2, 2)),
                     'jumps, parameters no. %s' % k[0], 1e-12)
        rec.state('cj', form, q, seq)
    for form, vs, q, seq in itertools.product(
            ('array', 'float', 'list'), ((), (2,)), TDT, seqs):
        rec.case(['changing poisson', form, vs, q, seq],
                 lambda: poisson(form, vs, q, seq))
    for form, q, seq in itertools.product(('param', 'law', 'map'), TDT, seqs):
        rec.case(['changing jumps', form, q, seq],
                 lambda: jumps(form, q, seq))


def big_jumps(rec):
    """Many cells, many jumps per cell, each cell with its own jump size."""
    def count(n, top):
        if top > 1000:
            return top - n*20000
        return (n*7919 + n//5) % (top + 1)

    def body(vshape, paths, q, top, pf, cls):
        t, dt = LONGTDT[q]
        tb, db = np.broadcast_arrays(t, dt)
        shape = vshape + (paths,)
        full = 1 + np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
        a, A = {'scalar': (3., lambda t: 3.), 'full': (full, lambda t: full),
                'call': (lambda t: full[..., :1]*(9 + t),
                         lambda t: full[..., :1]*(9 + t))}[pf]
        pos = [0]

        def draw(L):
            n = pos[0] + np.arange(L.size).reshape(L.shape)
            pos[0] += L.size
            return count(n, top)
        src = cls(paths=paths, vshape=vshape, y=sdepy.norm_rv(a=a, b=1.),
                  rng=TapeRNG(normal=lambda s: np.zeros(s), poisson=draw))
        z = src(t, dt)
        rec.step(tb.size)
        rec.check(z.shape == tb.shape + shape, 'shape')
        cnt = np.abs(src.dn_value)
        k = np.arange(cnt.size)
        rec.same(np.sort(cnt, axis=None), np.sort(count(k, top)),
                 'counts')
        for i in np.ndindex(tb.shape):
            want = np.sign(db[i])*cnt[i]*A(tb[i] + db[i]/2)
            rec.same(z[i], want, 'jumps of each element')
        rec.state('bj', vshape, paths, q, top, pf)
    for (vs, paths), q, top, pf in itertools.product(
            (((), 400), ((25,), 3), ((2, 3), 11), ((), 1), ((2,), 1)),
            LONGTDT, (1, 9, 300, 70000), ('scalar', 'full', 'call')):
        if top >= 300 and q != 'scalar' or (
                top > 300 and int(np.prod(vs))*paths > 2):
            continue
        rec.case(['big jumps', vs, paths, q, top, pf], lambda: body(
            vs, paths, q, top, pf, sdepy.dj))


def jump_params(rec):
    """Preset jump distributions with constant, array and time-dependent
    parameters: each element of the output gets jumps of its own law."""
    def body(vshape, paths, counts, pf, q, mapped):
        t, dt = TDT[q]
        tb, db = np.broadcast_arrays(t, dt)
        shape = vshape + (paths,)
        full = (1 + np.arange(int(np.prod(shape)), dtype=float)
                ).reshape(shape)*1e6
        a = {'scalar': 3e6, 'col': full[..., :1], 'full': full,
             'one': np.array([2e6]), 'call': lambda t: 1e6*(4 + t),
             'callfull': lambda t: full*(4 + t),
             'list': full.tolist(),
             'process': process((-4., 4.), v=np.array([1e6, 2e6]))}[pf]
        af = {'scalar': lambda t: 3e6, 'col': lambda t: full[..., :1],
              'full': lambda t: full, 'one': lambda t: 2e6,
              'call': lambda t: 1e6*(4 + t), 'list': lambda t: full,
              'callfull': lambda t: full*(4 + t),
              'process': lambda t: 1e6*(1.5 + t/8)}[pf]
        nz = [0]

        def normal(sh):
            n = int(np.prod(sh))
            z = 2.**(nz[0] % 40 + np.arange(n))
            nz[0] += n
            return z.reshape(sh)
        pos = [0]

        def draw(L):
            n = [counts[(pos[0] + k) % len(counts)] for k in range(L.size)]
            pos[0] += L.size
            return np.array(n).reshape(L.shape)
        y = sdepy.norm_rv(a=a, b=2.**-10)
        sc = 1.
        if mapped == 'map':
            y, sc = sdepy.rvmap(lambda z: 4*z, y), 4.
        elif mapped == 'tmap':
            y = sdepy.rvmap(lambda t, z: z*(8 if t > 99 else 4), y)
            sc = 4.
        src = sdepy.dj(paths=paths, vshape=vshape, y=y,
                       rng=TapeRNG(normal=normal, poisson=draw))
        z = src(t, dt)
        rec.step()
        used = set()
        cnt = np.array([counts[k % len(counts)] for k in range(
            tb.size*int(np.prod(shape)))]).reshape(tb.shape + shape)
        rec.same(np.sort(np.abs(src.dn_value), axis=None),
                 np.sort(cnt, axis=None), 'counts')
        cnt = np.abs(src.dn_value)
        for i in np.ndindex(tb.shape):
            A = np.broadcast_to(af(tb[i] + db[i]/2), shape)
            for j in np.ndindex(shape):
                n = cnt[i][j]
                v = (z[i][j]*np.sign(db[i])/sc - n*A[j])*2.**10
                r = round(v)
                rec.check(abs(v - r) < .1 and r >= 0,
                          'jump of another element: %r' % v)
                b = bits(r)
                rec.check(len(b) == n, 'number of jumps')
                rec.check(used.isdisjoint(b), 'jump used twice')
                used |= b
        rec.state('jp', vshape, paths, counts, pf, q, mapped)
    for (vs, paths), counts, pf, q, mp in itertools.product(
            (((), 2), ((2,), 1), ((2,), 2), ((1, 2), 1)),
            ((1,), (0, 1), (2, 1, 0), (0, 0, 2)),
            ('scalar', 'col', 'full', 'one', 'call', 'callfull', 'list',
             'process'), ('scalar', 'neg'), ('no', 'map', 'tmap')):
        rec.case(['jump params', vs, paths, counts, pf, q, mp],
                 lambda: body(vs, paths, counts, pf, q, mp))

    # a distribution of any kind, from scipy or not
    def default():
        rng = TapeRNG(uniform=lambda s: np.full(s, .25),
                      poisson=lambda L: np.full(L.shape, 3))
        for y in (None, sdepy.uniform_rv(), sdepy.uniform_rv(a=0, b=1)):
            rec.same(sdepy.dj(paths=2, rng=rng, y=y)(0., -1.),
                     np.full(2, -.75), 'default jumps')
    rec.case(['default y'], default)

    def lam_passed(form):
        lam, ref = lam_forms((2,), 3)[form]
        seen = []

        def draw(L):
            seen.append(L)
            return 0*L
        src = sdepy.dj(paths=3, vshape=2, lam=lam, rng=TapeRNG(poisson=draw))
        src(.5, -2.)
        rec.check(len(seen) == 1, 'one draw')
        rec.same(seen[0], np.broadcast_to(2*np.asarray(ref(-.5), float),
                                          (2, 3)), 'intensity')
    for f in lam_forms((2,), 3):
        rec.case(['cpoisson lam', f], lambda: lam_passed(f))


def errors(rec):
    C2, C3 = matrix(2, .5), matrix(3, .5)
    bad = {
        'corr, no vshape': dict(vshape=(), corr=C2),
        'rho, no vshape': dict(vshape=(), rho=.5),
        'corr size': dict(vshape=(3,), corr=C2),
        'corr size 2': dict(vshape=(3, 2), corr=C3),
        'corr not square': dict(vshape=(2,), corr=np.ones((2, 3))),
        'corr vector': dict(vshape=(2,), corr=np.ones(2)),
        'corr scalar': dict(vshape=(2,), corr=.5),
        'corr paths': dict(vshape=(2,), corr=np.ones((2, 2, 2))),
        'corr 4d': dict(vshape=(2,), corr=np.ones((2, 2, 1, 1))),
        'corr callable size': dict(vshape=(3,), corr=lambda t: C2*1.),
        'corr callable paths': dict(vshape=(2,),
                                    corr=lambda t: np.ones((2, 2, 3))),
        'corr process size': dict(vshape=(3,), corr=process(c=C2)),
        'corr process paths': dict(
            vshape=(2,), corr=process(x=np.ones((1, 2, 2, 2)))),
        'rho size': dict(vshape=(4,), rho=.5),
        'rho size 2': dict(vshape=(2,), rho=(.5, .5)),
        'rho odd': dict(vshape=(3,), rho=(.5,)),
        'rho matrix': dict(vshape=(4,), rho=((.5, .5), (.5, .5))),
        'rho callable': dict(vshape=(2,), rho=lambda t: np.array([.5, .5])),
        'rho process': dict(vshape=(2,), rho=process(c=(.5, .5))),
        'rho process matrix': dict(vshape=(4,),
                                   rho=process(c=((.5, .5), (.5, .5)))),
    }
    for k, kw in bad.items():
        for cls in (sdepy.wiener_source, sdepy.dw, sdepy.odd_dw,
                    sdepy.true_dw):
            rec.case(['wiener', k, cls.__name__], lambda: rec.raises(
                lambda: cls(paths=2, **kw), k))
    badp = {
        'lam shape': dict(vshape=(2,), lam=np.ones(3)),
        'lam dims': dict(vshape=(), lam=np.ones((3, 2))),
        'lam paths': dict(vshape=(2,), lam=np.ones((2, 4))),
        'lam callable': dict(vshape=(2,), lam=lambda t: np.ones((3, 1))),
        'lam process': dict(vshape=(2,), lam=process(c=np.ones(3))),
    }
    for k, kw in badp.items():
        for cls in (sdepy.poisson_source, sdepy.dn, sdepy.cpoisson_source,
                    sdepy.even_dn, sdepy.true_dn, sdepy.even_dj,
                    sdepy.true_dj):
            rec.case(['poisson', k, cls.__name__], lambda: rec.raises(
                lambda: cls(paths=2, **kw), k))
