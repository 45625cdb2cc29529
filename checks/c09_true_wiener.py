"""C09: law of a Wiener source with memory, whatever the query order."""
import itertools
import numpy as np
import sdepy
from sdepy import process
from mc.core import pick
from mc.tape import TapeRNG, linear_map
from checks.c06_sources import corr_forms, matrix
from checks.c08_memory import orders

PROPERTY = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = ('all query orders of a set of times on the real source, with its exact '
             'joint covariance from all impulse responses of the normals it draws')
LEVEL_NOTE = ('All permutations of up to 5 of 6 times on both sides of t0 (thorough: '
              '6 and all), queried one by one, as arrays, or as increments; constant '
              'and linear correlations in all documented forms. Trusts numpy to '
              'draw independent standard normals.'
              ' Plus 8 orders of 20-24 times on 4 grids, with correlations of non-commuting matrices.')
RULE = ('a state is (configuration, query order, query mode); a trace is one '
        'order with all its impulse responses; a transition is one query')

TIMES = {'two': (1., 2.5, 3.5, 6.), 'up': (3.5, 4., 6., 7.5),
         'down': (2.75, 1., .5, 2.), 'with0': (3., 1.5, 5., 4.),
         'five': (1., 2.5, 3.5, 6., 4.25), 'six': (1., 2.5, 2., 3.5, 6., 4.25)}
T0 = 3.


def integral(C, a, b):
    return C((a + b)/2)*(b - a)


def joint(C, vshape, paths, times, t0=T0):
    M = vshape[-1] if vshape else 1
    lead = int(np.prod(vshape[:-1])) if vshape else 1
    n = lead*M*paths
    out = np.zeros((n*len(times),)*2)
    for i, s in enumerate(times):
        for j, t in enumerate(times):
            if (s - t0)*(t - t0) <= 0:
                continue
            u = min((s, t), key=lambda x: abs(x - t0))
            c = integral(C, t0, u) if u > t0 else integral(C, u, t0)
            c = np.einsum('ac,mn,pq->ampcnq', np.eye(lead),
                          np.atleast_2d(c), np.eye(paths)).reshape(n, n)
            out[i*n:(i+1)*n, j*n:(j+1)*n] = c
    return out


def ask(src, order, mode, rec):
    if mode == 'one':
        for t in order:
            src(t)
    elif mode == 'array':
        src(np.array(order))
    elif mode == 'split':
        src(np.array(order[:2]))
        src([[order[2]], [order[-1]]])
        src(list(order))
    elif mode == 'inc':
        for a, b in zip(order[:-1], order[1:]):
            src(a, b - a)
    elif mode == 'incs':
        a = np.array(order)
        src(a[1:], a[:-1] - a[1:])
    elif mode == 'view':
        v = src[..., 0]
        for t in order[::2]:
            v(t)
        src(np.array(order[1::2]))
    rec.step(len(order))


def law(rec, cls, vshape, paths, kw, C, order, mode, z0, want, dtype=None,
        t0=T0, steps=None):
    times = sorted(set(order))

    def fn(rng):
        src = cls(vshape=vshape, paths=paths, rng=rng, t0=t0, z0=z0,
                  dtype=dtype, **kw)
        ask(src, order, mode, rec)
        return src(np.array(times))
    b, A = linear_map(fn)
    full = tuple(vshape) + (paths,)
    rec.same(b, np.broadcast_to(z0, (len(times),) + full).ravel(), 'mean',
             1e-9 if dtype is None else 1e-5)
    cov = A @ A.T
    if steps is not None:
        # correlations of the increments among adjacent times, t0 included
        cov, want = steps @ cov @ steps.T, steps @ want @ steps.T
        sd = np.sqrt(np.diag(want))
        sd[sd == 0] = 1.
        cov, want = cov/np.outer(sd, sd), want/np.outer(sd, sd)
        rec.same(cov, want, 'covariance of increments', 1e-6)
    else:
        rec.same(cov, want, 'covariance', 1e-9 if dtype is None else 1e-5)
    got = fn(TapeRNG(normal=lambda s: np.ones(s)))
    rec.same(np.ravel(got), b + A.sum(axis=1), 'linearity',
             1e-9 if dtype is None else 1e-4)


def forms(vs):
    if not vs:
        return {'none': ({}, lambda t: np.eye(1))}
    return corr_forms(vs[-1])


MODES = ('one', 'array', 'split', 'inc', 'incs', 'view')


def units(tier, seed):
    out = []
    for vs in ((), (1,), (2,), (3,), (2, 2)):
        for k in range(4):
            out.append(dict(u='forms', vs=vs, k=k))
    for vs in ((), (2,)):
        for tset in ('five', 'six') if tier == 'thorough' else ('five',):
            for k in range(4):
                out.append(dict(u='deep', vs=vs, tset=tset, k=k))
    for vs in ((), (2,), (3,), (2, 2)):
        out.append(dict(u='long', vs=vs))
    return out


LONG = {'even': (np.arange(24)/4, 3.),
        'wide': (3. + np.sign(np.arange(-11, 12))*2.**(
            abs(np.arange(-11., 12)) - 12), 3.),
        'far': (5e4 + np.arange(20)*.7 + (np.arange(20) % 4)/16, 5e4 + 3.),
        'ends': (np.concatenate((np.arange(12)/64 + .5,
                                 np.arange(12)/64 + 5)), 3.)}


def u_long(rec, vs):
    fs = forms(vs)
    n = 0
    for (g, (ts, t0)), f in itertools.product(LONG.items(), (
            'none', 'matrix', 'call', 'process', 'rho', 'rhocall')):
        if f not in fs or g == 'far' and f not in ('none', 'matrix', 'rho'):
            continue
        if g == 'even' and f in ('call', 'process', 'rhocall'):
            # (linear on the interval of definition only)
            ts = ts[ts <= 6]
        kw, C = fs[f]
        want = joint(C, vs, 1, sorted(ts), t0)
        # differences from the neighbour on the side of t0
        k = int(np.prod(vs, dtype=int))
        st = sorted(ts)
        D = np.eye(len(st))
        for i, t in enumerate(st):
            j = i - 1 if t > t0 else i + 1
            if t != t0 and 0 <= j < len(st) and (st[j] - t0)*(t - t0) > 0:
                D[i, j] = -1
        D = np.kron(D, np.eye(k))
        for oname, o in orders(len(ts)).items():
            order = [float(ts[q]) for q in o]
            n += 1
            mode = MODES[pick(n, 6)] if vs else MODES[pick(n, 5)]
            rec.state('long', vs, g, f, oname, mode)
            rec.case(['long', g, f, oname, mode], lambda: law(
                rec, sdepy.true_dw, vs, 1, kw, C, order, mode, 0., want,
                t0=t0, steps=D))


def run_unit(rec, u):
    if u['u'] == 'long':
        return u_long(rec, tuple(u['vs']))
    vs = tuple(u['vs'])
    fs = forms(vs)
    z0s = {'zero': 0., 'num': 1.5,
           'arr': (np.arange(vs[-1], dtype=float)[:, np.newaxis] - .5)
           if vs else np.array([2.])}
    n = 0
    if u['u'] == 'forms':
        for (f, (kw, C)), tset in itertools.product(fs.items(), TIMES):
            if tset in ('five', 'six'):
                continue
            ts = TIMES[tset]
            paths = 1 if int(np.prod(vs)) > 2 else 2
            # the clipped linear form is linear on t >= 0 only
            want = joint(C, vs, paths, sorted(ts))
            for order in itertools.permutations(ts):
                modes = MODES if rec.tier == 'thorough' else \
                    (MODES[pick(n, 6)], MODES[pick(n + 3000, 6)])[
                        :1 if vs in ((2, 2), (1,)) else 2]
                for mode in modes:
                    n += 1
                    if n % 4 != u['k']:
                        continue
                    if mode == 'view' and not vs:
                        mode = 'one'
                    zk = tuple(z0s)[pick(n, 3)]
                    cls = (sdepy.true_wiener_source, sdepy.true_dw)[pick(n + 1000, 2)]
                    dt = np.float32 if pick(n + 2000, 23) == 0 else None
                    rec.state(vs, f, order, mode)
                    rec.case([f, list(order), mode, zk, str(dt)],
                             lambda: law(rec, cls, vs, paths, kw, C, order,
                                         mode, z0s[zk], want, dt))
        return
    ts = TIMES[u['tset']]
    names = [f for f in ('none', 'matrix', 'call', 'ones', 'rhocall', 'process')
             if f in fs]
    for f in names:
        kw, C = fs[f]
        want = joint(C, vs, 1, sorted(ts))
        for order in itertools.permutations(ts):
            n += 1
            if n % 4 != u['k']:
                continue
            rec.state(vs, f, order, 'deep')
            rec.case([f, list(order)], lambda: law(
                rec, sdepy.true_dw, vs, 1, kw, C, order, MODES[pick(n, 2)],
                0., want))
