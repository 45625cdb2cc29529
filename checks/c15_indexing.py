"""C15: process-specific indexing selects times, values or paths and nothing else."""
import itertools
import warnings
import numpy as np
import sdepy
from sdepy import process

PROPERTY = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sequences of process-specific index operations on '
             'real processes, replayed on an array of cell identifiers')
LEVEL_NOTE = ('All integers of 9 types, all slices with bounds in -n-1..n+1 and steps in '
              '-2..3, all masks and all index arrays of up to 3 items on each axis of '
              'processes up to 4 x (2, 3) x 3; all sequences of 3 selections (4 in the '
              'thorough tier) out of about 40.'
              ' Plus processes with hundreds of times, values or paths.')
RULE = ('a state is a process and a sequence of selections; a transition is one '
        'selection; a trace is one sequence compared cell by cell')

SHAPES = [(4, (2, 3), 3), (3, (), 2), (1, (2,), 2), (2, (3,), 1),
          (3, (2, 1), 4)]
INTS = (int, np.int64, np.int32, np.int8, np.uint8, np.uint64, np.intp,
        np.int16, np.uint32)


def make(k, cls=process):
    n, vs, paths = SHAPES[k]
    x = np.arange(float(n*int(np.prod(vs))*paths)).reshape(
        (n,) + vs + (paths,))
    return cls(np.arange(n)*1.5 - 1, x=x)


# reference: selections on the plain arrays t, x --------------------------

def sel_axis(x, axis, key):
    """select along one axis, keeping it; None if an error is due"""
    n = x.shape[axis]
    if isinstance(key, (int, np.integer)):
        i = int(key)
        if not -n <= i < n:
            return None
        idx = [i % n]
    elif isinstance(key, slice):
        idx = list(range(n))[key]
    else:
        a = np.asarray(key)
        if a.ndim != 1:
            return None
        if a.dtype == bool:
            if len(a) != n:
                return None
            idx = [i for i in range(n) if a[i]]
        else:
            if any(not -n <= i < n for i in a):
                return None
            idx = [int(i) % n for i in a]
    if not idx:
        return np.empty(x.shape[:axis] + (0,) + x.shape[axis + 1:])
    if len(idx) > 1000:
        return x.take(idx, axis=axis)
    out = [x[(slice(None),)*axis + (i,)] for i in idx]
    return np.stack(out, axis=axis)


def sel_values(x, key):
    """key: a tuple of selectors along values axes; integers drop the axis"""
    drop = []
    for a, k in enumerate(key):
        if a + 1 >= x.ndim - 1:
            return None
        x = sel_axis(x, a + 1, k)
        if x is None:
            return None
        if isinstance(k, (int, np.integer)):
            drop.append(a + 1)
    return x.reshape(tuple(n for i, n in enumerate(x.shape)
                           if i not in drop))


def ref(t, x, mode, key):
    if mode == 't':
        t, x = sel_axis(t, 0, key), sel_axis(x, 0, key)
        return None if x is None or len(t) == 0 else (t, x)
    if mode == 'p':
        x = sel_axis(x, x.ndim - 1, key)
    else:
        x = sel_values(x, key)
    return None if x is None else (t, x)


def is_view(mode, key):
    ks = key if mode == 'v' else (key,)
    return all(isinstance(k, (int, np.integer, slice)) for k in ks)


# --------------------------------------------------------------------------

def units(tier, seed):
    for k in range(len(SHAPES)):
        yield dict(u='single', k=k)
        yield dict(u='multi', k=k)
    m = 4 if tier == 'quick' else 16
    for k in (0, 1, 4):
        for j in range(m):
            yield dict(u='chain', k=k, j=j, m=m)
    for k in range(len(BIG)):
        yield dict(u='big', k=k)
    yield dict(u='errors')


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['u_' + u['u']](rec, **{k: v for k, v in u.items()
                                         if k != 'u'})


def axis_keys(n):
    out = [f(i) for i in range(-n - 2, n + 3) for f in INTS
           if i >= 0 or np.dtype(f).kind == 'i']
    b = [None] + list(range(-n - 1, n + 2))
    out += [slice(*a) for a in itertools.product(b, b, (None, 1, -1, 2, -2,
                                                        3))]
    out += [np.array(a) for a in itertools.product((True, False), repeat=n)]
    out += [list(a) for a in itertools.product((True, False), repeat=n)]
    for r in (1, 2, 3):
        for a in itertools.product(range(-n, n), repeat=r):
            out.append(list(a) if sum(a) % 2 else np.array(a))
    out += [[n], [0, n], [-n - 1], np.ones(n + 1, bool),
            np.array([0], np.uint8), np.array([-1], np.int8)]
    return out


def apply(rec, p, t, x, mode, key, spread=False, msg='index'):
    """one selection; returns the result with its reference, or None"""
    rec.step()
    w = ref(t, x, mode, key)
    idx = (mode,) + key if mode == 'v' and spread else (mode, key)
    if w is None:
        rec.raises(lambda: p[idx], '%s %r' % (msg, idx))
        return None
    q = p[idx]
    rec.check(type(q) is type(p), msg + ': type')
    rec.same(np.array(q), w[1], msg + ': values', 0)
    rec.check(q.shape == w[1].shape and q.dtype == p.dtype,
              msg + ': shape or dtype')
    rec.check(isinstance(q.t, np.ndarray) and q.t.shape == w[0].shape and
              np.array_equal(q.t, w[0]) and q.t.dtype == p.t.dtype,
              msg + ': timeline')
    if q.size:
        rec.check(np.shares_memory(q, p) == is_view(mode, key),
                  msg + ': memory sharing')
    return q, w[0], w[1]


def u_single(rec, k):
    base = make(k)
    t, x = base.t.copy(), base.x.copy()

    def one(mode, key, spread=False):
        r = apply(rec, base, t, x, mode, key, spread)
        rec.state(k, mode, repr(key), spread)
        if r is not None and r[0].size and is_view(mode, key):
            # writing goes through
            p = base.pcopy()
            q = p[(mode, key)]
            q[...] = -1 - np.arange(q.size).reshape(q.shape)
            inv = {}
            for a, b in zip(r[2].ravel(), np.array(q).ravel()):
                inv[a] = b
            want = np.array([inv.get(a, a) for a in x.ravel()])
            rec.same(np.array(p), want.reshape(x.shape), 'write', 0)
    for mode, ax in (('t', 0), ('p', x.ndim - 1)):
        for i, key in enumerate(axis_keys(x.shape[ax])):
            rec.case([k, mode, i, repr(key)], lambda: one(mode, key))
    for a in range(x.ndim - 2):
        for i, key in enumerate(axis_keys(x.shape[a + 1])):
            kk = (slice(None),)*a + (key,)
            rec.case([k, 'v', a, i, repr(key)], lambda: (
                one('v', kk), one('v', kk, True)))

    def empties():
        for mode in 'tvp':
            q = base[mode]
            rec.same(np.array(q), x, 'empty index', 0)
            rec.check(type(q) is process and np.array_equal(q.t, t) and
                      np.shares_memory(q, base), 'empty index')
            q = base[mode, ...] if mode != 'p' else q
            rec.same(np.array(q), x, 'Ellipsis', 0)
            rec.check(np.array_equal(q.t, t), 'Ellipsis')
            q = base[mode, ()]
            rec.same(np.array(q), x, 'empty tuple', 0)
        q = base['v', ..., :] if x.ndim > 2 else base
        rec.same(np.array(q), x, 'Ellipsis', 0)
        if x.ndim > 2:
            q = base['v', ..., 0]
            rec.same(np.array(q), x[..., 0, :], 'Ellipsis', 0)
    rec.case([k, 'empty'], empties)


BIG = [(300, (2,), 3), (3, (300,), 2), (2, (2,), 300), (130, (129,), 3),
       (40, (), 600), (20, (20,), 20), (2, (2,)*8, 3), (2, (1, 3)*4, 1),
       (70000, (), 1)]


def big_keys(n):
    """selections along an axis of n elements"""
    near = sorted({i for b in (0, n//2, n, -n, 127, 128, 255, 256, 32767,
                               65535) for i in (b - 1, b, b + 1)})
    ints = range(-n - 2, n + 2) if n <= 1000 else [
        i for i in near if -n - 2 <= i < n + 2]
    for i in ints:
        yield i
        for f in (np.int8, np.uint8, np.int64, np.uint64, np.int16):
            if np.iinfo(f).min <= i <= np.iinfo(f).max:
                if abs(i) in (0, 1, 127, 128, 254, 255, 256, n - 1, n, n + 1):
                    yield f(i)
    b = [None] + [i for i in near if abs(i) <= n + 1]
    for a in itertools.product(b, b, (None, -1, 2, -7, 128, -n)):
        if a[2] is None or sum(z or 0 for z in a) % 3 == 0:
            yield slice(*a)
    r = np.arange(n)
    yield r[::-1].copy()
    yield (r*7919 % n)
    yield np.repeat(r, 2)
    yield r - n
    yield list(range(0, n, 3))[::-1]
    yield np.append(r, n)
    yield np.append(r, -n - 1)
    if n <= 256:
        yield r.astype(np.uint8)
    if n <= 128:
        yield (-r - 1).astype(np.int8)
    yield np.concatenate([r[:2], r[-1:], r[n//2:n//2 + 1]]).astype(np.uint64)
    for k in range(n) if n <= 1000 else near:
        if not 0 <= k < n:
            continue
        m = np.zeros(n, bool)
        m[k] = True
        yield m
        yield ~m
        if n <= 130:
            yield m.tolist()
    yield r % 3 == 1
    yield np.ones(n + 1, bool)
    yield np.ones(n - 1, bool)
    yield np.zeros(n, bool)


def u_big(rec, k):
    n, vs, paths = BIG[k]
    x = np.arange(float(n*int(np.prod(vs))*paths)).reshape(
        (n,) + vs + (paths,))
    t = np.arange(n)*1.5 - 1
    base = process(t.copy(), x=x.copy())
    for mode, ax in [('t', 0), ('p', x.ndim - 1)] + [
            ('v', a + 1) for a in range(x.ndim - 2)]:
        m = x.shape[ax]
        for i, key in enumerate(big_keys(m) if m > 3 else menu(m)):
            kk = (slice(None),)*(ax - 1) + (key,) if mode == 'v' else key
            rec.case([k, mode, ax, i, repr(key)[:80]], lambda: (
                apply(rec, base, t, x, mode, kk),
                rec.state('big', k, mode, ax, i)))
    rec.case([k, 'end'], lambda: rec.same(np.array(base), x, 'altered', 0))


def menu(n):
    out = [0, -1, np.int64(n - 1), slice(None), slice(None, None, -1),
           slice(0, 1), slice(1, None), [0], [-1, 0], [0, 0, -1],
           np.arange(n) % 2 == 0, [bool(i % 2) for i in range(n)], n]
    return out


def adjacent(key):
    """multiple index arrays are out of scope: they are paired by NumPy"""
    return sum(not isinstance(k, (int, np.integer, slice))
               for k in key) <= 1 and not (
        any(not isinstance(k, (int, np.integer, slice)) for k in key) and
        any(isinstance(k, (int, np.integer)) for k in key))


def u_multi(rec, k):
    base = make(k)
    t, x = base.t.copy(), base.x.copy()
    vs = SHAPES[k][1]
    for r in range(1, len(vs) + 2):
        menus = [menu(vs[a] if a < len(vs) else 2) for a in range(r)]
        for i, key in enumerate(itertools.product(*menus)):
            if not adjacent(key):
                continue
            rec.case([k, 'v', r, i, repr(key)], lambda: (
                apply(rec, base, t, x, 'v', key, False),
                apply(rec, base, t, x, 'v', key, True),
                rec.state(k, repr(key))))
    if len(vs) == 2:
        def masks():
            for bits in itertools.product((True, False), repeat=vs[0]*vs[1]):
                m = np.array(bits).reshape(vs)
                q = base['v', m]
                rec.step()
                rec.same(np.array(q), x[:, m], 'values mask', 0)
                rec.check(np.array_equal(q.t, t), 'values mask')
            ii = list(itertools.product(range(vs[0]), range(vs[1])))
            for sel in itertools.product(ii, repeat=2):
                a, b = zip(*sel)
                q = base['v', list(a), list(b)]
                rec.step()
                rec.same(np.array(q), np.stack(
                    [x[:, i, j] for i, j in sel], axis=1), 'paired', 0)
        rec.case([k, 'masks'], masks)


def u_chain(rec, k, j, m):
    depth = 3 if rec.tier == 'quick' else 4
    base = make(k)

    def steps(x):
        n, p = x.shape[0], x.shape[-1]
        full = [('t', a) for a in menu(n)[:12]] + \
            [('p', a) for a in menu(p)[:12]]
        for ax in range(x.ndim - 2):
            full += [('v', (slice(None),)*ax + (a,))
                     for a in menu(x.shape[ax + 1])[:12:2]]
        return full
    small = {0, 1, 3, 6, 8, 10, 12, 13, 15, 16, 18, 22}

    def walk(q, t, x, seq):
        ss = list(enumerate(steps(x)))
        if not seq:
            ss = ss[j::m]
        elif len(seq) >= 2:
            ss = [s for s in ss if s[0] in small or s[0] >= 24]
        for i, (mode, key) in ss:
            s2 = seq + [i]
            box = []

            def one():
                box.append(apply(rec, q, t, x, mode, key,
                                 msg='chain %r' % (s2,)))
                rec.state(k, s2)
                r = box[0]
                if r is not None and len(s2) == depth and \
                        np.shares_memory(r[0], base) and r[0].size:
                    # the last of a chain of views: writing reaches the base
                    keep = base.x.copy()
                    r[0].flat[0] = -5
                    c = int(r[2].flat[0])
                    want = keep.copy()
                    want.flat[c] = -5
                    rec.same(np.array(base), want, 'write', 0)
                    base.x[...] = keep
            if rec.only is None or s2 == rec.only[1:]:
                rec.case([k] + s2, one)
            elif s2 == rec.only[1:len(s2) + 1]:
                one()
            if box and box[0] is not None and len(s2) < depth and \
                    box[0][2].size:
                walk(*box[0], s2)
    walk(base, base.t.copy(), base.x.copy(), [])
    want = make(k)
    rec.same(np.array(base), np.array(want), 'original altered', 0)
    rec.same(base.t, want.t, 'original timeline altered', 0)


def u_errors(rec):
    for k in range(len(SHAPES)):
        p = make(k)
        for bad in ('x', 'tt', '', 'T', 'V', 'P', 'vp', ' t'):
            for key in ((bad,), (bad, 0), (bad, slice(None))):
                def body():
                    rec.step()
                    rec.state(k, repr(key))
                    rec.raises(lambda: p[key], 'unknown mode %r' % (key,))
                    if len(key) == 1:
                        rec.raises(lambda: p[key[0]], 'unknown mode')
                rec.case([k, bad, len(key), repr(key)], body)
        for key in (('t', 0, 0), ('p', 0, 0), ('t', (0, 0)), ('p', (0, 0)),
                    ('t', 't'), ('v', 't'), ('p', 'p'), ('t', 1.5),
                    ('p', 1.5), ('v', 1.5), ('t', np.array([.5])),
                    ('t', slice(0, 0)), ('t', []), ('t', [[0]]),
                    ('v', 0, 0, 0), ('v', (0, 0, 0)), (0, 't'),
                    (slice(None), 'v')):
            def body():
                rec.step()
                rec.state(k, repr(key))
                rec.raises(lambda: p[key], 'index %r' % (key,))
            rec.case([k, 'bad', repr(key)], body)
