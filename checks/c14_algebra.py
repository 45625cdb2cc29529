"""C14: process arithmetic never mixes timelines, values and paths."""
import itertools
import operator
import warnings
import numpy as np
import sdepy
from sdepy import process

PROPERTY = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of operand kinds, operators and expression trees on '
             'real processes, against a reference algebra of (timeline, array) pairs')
LEVEL_NOTE = ('All pairs out of 102 process operands (6 timelines, 6 value shapes, 3 '
              'numbers of paths) and of processes and 30 array shapes; all ufuncs and '
              'Python operators on a covering set of operand pairs; all expressions of '
              'depth 2 (3 in the thorough tier) on 10 operands; in-place and out= forms.'
              ' Plus timelines of hundreds of points differing in one.')
RULE = ('a state is an expression with the kinds of its operands; a transition is one '
        'operation; a trace is one expression compared with the reference algebra')

# timelines: A and A2 are equal but distinct objects, K and L are constant
TT = {'A': (0., 1., 2.), 'A2': (0., 1., 2.), 'B': (0., 1., 3.),
      'C': (0., 1.), 'K': (5.,), 'L': (7.,)}
VSH = ((), (1,), (2,), (1, 2), (2, 1), (3,))
PP = (1, 2, 3)


def proc(tl, vs, paths, salt=0, dtype=float):
    n = len(TT[tl])
    shape = (n,) + tuple(vs) + (paths,)
    x = 1 + (np.arange(int(np.prod(shape)))*5 % 7 + salt).reshape(shape)
    return process(np.array(TT[tl]), x=x.astype(dtype))


def compatible(a, b):
    """the documented rule, on processes"""
    ta, tb = np.asarray(a.t), np.asarray(b.t)
    if not (len(ta) == 1 or len(tb) == 1 or
            (len(ta) == len(tb) and (ta == tb).all())):
        return False
    return a.ndim == b.ndim and all(
        i == j or i == 1 or j == 1
        for i, j in zip(a.shape[1:], b.shape[1:]))


def array_ok(p, shape):
    """process p and an array, giving a result of this shape"""
    return len(shape) == p.ndim and shape[0] == len(p.t)


class Frozen:
    """operands must not be altered"""

    def __init__(self, *args):
        self.args = args
        self.keep = [(np.array(a, copy=True),
                      None if not isinstance(a, process) else
                      (a.t, a.t.copy())) for a in args]

    def check(self, rec, msg):
        for a, (x, t) in zip(self.args, self.keep):
            rec.same(np.array(a), x, msg + ': operand altered', 0)
            if t is not None:
                rec.check(a.t is t[0] and np.array_equal(a.t, t[1]),
                          msg + ': operand timeline altered')


def timeline(ps):
    """timelines the result may refer to"""
    long = [p.t for p in ps if len(p.t) > 1]
    return long if long else [p.t for p in ps]


def judge(rec, thunk, args, want, msg, out=None):
    """want: None if an error is due, else the plain array result"""
    ps = [a for a in args if isinstance(a, process)]
    fz = Frozen(*args)
    rec.step()
    if want is None:
        rec.raises(thunk, msg)
        fz.check(rec, msg)
        return None
    r = thunk()
    fz.check(rec, msg)
    one = r if isinstance(r, tuple) else (r,)
    ref = want if isinstance(want, tuple) else (want,)
    rec.check(len(one) == len(ref), msg + ': outputs')
    for g, w in zip(one, ref):
        rec.check(type(g) is process, lambda: '%s: type %s' % (msg, type(g)))
        rec.check(g.dtype == w.dtype, lambda: '%s: dtype %s, not %s' % (
            msg, g.dtype, w.dtype))
        rec.same(np.array(g), w, msg, 0)
        rec.check(any(g.t is t for t in timeline(ps)), msg + ': timeline')
        rec.check(not any(np.shares_memory(g, a) for a in args
                          if isinstance(a, np.ndarray)),
                  msg + ': shares memory')
    return r


def plain(a):
    return np.array(a) if isinstance(a, process) else a


def units(tier, seed):
    for tl in TT:
        yield dict(u='pairs', tl=tl)
    yield dict(u='arrays')
    yield dict(u='unary')
    for k in range(4):
        yield dict(u='binary', k=k)
    yield dict(u='inplace')
    yield dict(u='outs')
    yield dict(u='plainout')
    for n in LENGTHS:
        yield dict(u='long', n=n)
    yield dict(u='big')
    yield dict(u='three')
    for k in range(len(LEAVES)):
        yield dict(u='expr', k=k)


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['u_' + u['u']](rec, **{k: v for k, v in u.items()
                                             if k != 'u'})


# --------------------------------------------------------------- pairs

def u_pairs(rec, tl):
    for vs, pa, tl2, vs2, pa2 in itertools.product(VSH, PP, TT, VSH, PP):
        def body():
            a, b = proc(tl, vs, pa), proc(tl2, vs2, pa2, 3)
            for f in (operator.add, np.less):
                want = f(plain(a), plain(b)) if compatible(a, b) else None
                judge(rec, lambda: f(a, b), (a, b), want, 'pair')
            rec.state(tl, vs, pa, tl2, vs2, pa2)
        rec.case(['pair', tl, vs, pa, tl2, vs2, pa2], body)

    def self_op():
        a = proc(tl, (2,), 2)
        judge(rec, lambda: a*a, (a,), plain(a)*plain(a), 'self')
        b = process(a.t, x=a.x)
        judge(rec, lambda: a*b, (a, b), plain(a)*plain(a), 'same memory')
        s = a['t', :]
        judge(rec, lambda: a - s, (a, s), 0*plain(a), 'slice')
    rec.case(['self', tl], self_op)

    def nearly():
        # timelines are compared exactly
        a = proc(tl, (), 2)
        b = process(np.array(TT[tl]) + 1e-12, x=a.x)
        want = 2*plain(a) if len(TT[tl]) == 1 else None
        judge(rec, lambda: a + b, (a, b), want, 'nearly equal')
        b = process(np.array(TT[tl]).astype(np.float32), x=a.x.copy())
        judge(rec, lambda: a + b, (a, b), 2*plain(a), 'float32 timeline')
        b = process(np.array(TT[tl]).astype(int), x=a.x.copy())
        judge(rec, lambda: a + b, (a, b), 2*plain(a), 'int timeline')
        b = process(np.array(TT[tl])[::-1], x=a.x.copy())
        want = 2*plain(a) if len(TT[tl]) == 1 else None
        judge(rec, lambda: a + b, (a, b), want, 'reversed timeline')
    rec.case(['nearly', tl], nearly)


LENGTHS = (2, 3, 5, 16, 17, 64, 100, 255, 256, 257, 300, 1000)


def u_long(rec, n):
    """Timelines of n points, equal but for one point at any position; and
    of any two lengths."""
    t = np.cumsum(.1 + np.arange(n) % 4*.07)
    x = 1. + np.arange(2*n).reshape(n, 2) % 7
    a = process(t, x=x)
    c = process(np.array([3.]), x=np.array([[2., 5.]]))
    forms = {'same': t, 'copy': t.copy(), 'strided': np.repeat(t, 2)[::2],
             'readonly': t.copy()}
    forms['readonly'].flags.writeable = False
    OP = {'add': operator.add, 'less': np.less, 'iadd': None, 'maximum':
          np.maximum, 'out': None, 'where': None}

    def do(name, p, q):
        if name == 'iadd':
            r = p.pcopy()
            r += q
            return r
        if name == 'out':
            r = p.pcopy()
            np.add(p, q, out=r)
            return r
        if name == 'where':
            return np.add(p, q, where=np.ones(p.shape, bool))
        return OP[name](p, q)

    def equal():
        for f, u in forms.items():
            b = process(u, x=x + 3)
            for name in OP:
                w = (np.less if name == 'less' else np.maximum
                     if name == 'maximum' else np.add)(x, x + 3)
                r = do(name, a, b)
                rec.step()
                rec.same(np.array(r), w, '%s, %s timeline' % (name, f), 0)
                rec.check(np.array_equal(r.t, t), 'timeline')
        rec.same(np.array(a + c), x + c.x, 'constant', 0)
        rec.same(np.array(c + a), x + c.x, 'constant', 0)
        rec.state('long', n)
    rec.case(['equal', n], equal)

    for i in range(n):
        def differs():
            for d in (-np.inf, np.inf, None):
                u = t.copy()
                u[i] = np.nextafter(t[i], d) if d is not None else t[i] + .01
                b = process(u, x=x + 3)
                for name in OP if i in (0, n//2, n - 1) else ('add', 'less'):
                    rec.step()
                    rec.raises(lambda: do(name, a, b),
                               '%s: point %d of %d differs' % (name, i, n))
                    rec.raises(lambda: do(name, b, a),
                               '%s: point %d of %d differs' % (name, i, n))
            rec.state('long', n, i)
        rec.case(['differs', n, i], differs)

    def lengths():
        for m in set(range(2, 20)) | {n - 1, n + 1, 2*n, n//2} | set(LENGTHS):
            if m < 2 or m == n:
                continue
            u = np.cumsum(.1 + np.arange(m) % 4*.07)
            b = process(u, x=np.ones((m, 2)))
            rec.step()
            rec.raises(lambda: a + b, 'timelines of %d and %d points' % (n, m))
            rec.raises(lambda: np.multiply(b, a, out=b.pcopy()),
                       'timelines of %d and %d points' % (n, m))
            rec.state('lengths', n, m)
    rec.case(['lengths', n], lengths)


BIGSHAPES = [((), 300), ((12,), 1), ((12,), 300), ((1,), 300), ((12,), 12),
             ((3, 4), 1), ((1, 4), 256), ((3, 1), 256), ((40, 40), 2),
             ((2,)*8, 1), ((1, 2)*4, 3), ((70000,), 1), ((), 70000),
             ((1,)*8, 3), ((300,), 300), ((20,), 20), ((256,), 1)]


def u_big(rec):
    """Values and paths of larger sizes, some of them equal to the number
    of time points."""
    for n1, n2 in ((1, 1), (20, 20), (20, 1), (1, 20), (12, 12), (256, 1)):
        for (vs, pa), (vs2, pa2) in itertools.product(BIGSHAPES, repeat=2):
            if np.prod((n1*1.,) + vs + (pa,)) > 1e5 or \
                    np.prod((n2*1.,) + vs2 + (pa2,)) > 1e5:
                continue
            try:
                full = np.broadcast_shapes((n1,) + vs + (pa,),
                                           (n2,) + vs2 + (pa2,))
                if np.prod(np.array(full, float)) > 1e6:
                    continue
            except ValueError:
                pass

            def body():
                a, b = [process(np.arange(n)*.5, x=np.arange(
                    float(np.prod((n,) + v + (q,)))).reshape(
                        (n,) + v + (q,)) % 101) for n, v, q in
                    ((n1, vs, pa), (n2, vs2, pa2))]
                for f in (operator.add, np.less):
                    want = f(plain(a), plain(b)) if compatible(a, b) else None
                    judge(rec, lambda: f(a, b), (a, b), want, 'big pair')
                rec.state('big', n1, n2, vs, pa, vs2, pa2)
            rec.case(['big', n1, n2, vs, pa, vs2, pa2], body)


# --------------------------------------------------------------- arrays

SCALARS = [2, 2.5, 1j, True, np.float32(2), np.int8(3), np.array(2.),
           np.bool_(True)]


def shapes_for(p):
    out = {(), (1,), (2,), (3,), p.shape, p.shape[1:], p.shape[-1:],
           p.shape[:1], p.shape[:1] + (1,)*(p.ndim - 1), (1,) + p.shape,
           (2,) + p.shape, (1,)*p.ndim, (1,)*(p.ndim + 1),
           p.shape[:-1] + (3,), (3,) + p.shape[1:], p.shape[::-1],
           p.shape[:1] + p.shape[1:-1], p.shape[:1] + (2,),
           p.shape[:1] + (1, 1), p.shape[:1] + (2, 1), (3, 1, 1), (2, 1, 1),
           (1, 2), (2, 1), (2, 2), (1, 1, 2), (3, 1), (3, 1, 1, 1),
           p.shape[1:-1] + (1,), (1,) + p.shape[1:-1] + (1,)}
    return sorted(out)


def u_arrays(rec):
    kinds = {'array': np.asarray, 'list': lambda a: a.tolist(),
             'int': lambda a: a.astype(int)}
    for tl, vs, pa in itertools.product(('A', 'C', 'K'), VSH, PP):
        p = proc(tl, vs, pa)
        for shape in shapes_for(p):
            x = np.arange(int(np.prod(shape))).reshape(shape)*.5 + 2
            try:
                full = np.broadcast_shapes(p.shape, shape)
            except ValueError:
                full = None
            n = len(TT[tl])
            if full is not None and n == 1 and full[0] == 1 and \
                    len(full) > p.ndim:
                continue    # a constant process, seen with more values axes
            for kind, left in itertools.product(kinds, (False, True)):
                def body():
                    a = kinds[kind](x)
                    args = (a, p) if left else (p, a)
                    ok = full is not None and array_ok(p, full)
                    for f in (operator.sub, np.maximum, operator.le):
                        want = f(*map(plain, args)) if ok else None
                        if f is operator.le and left and kind == 'list':
                            continue    # reflected by Python
                        judge(rec, lambda: f(*args), args, want, 'array')
                    rec.state(tl, vs, pa, shape, kind, left)
                rec.case(['array', tl, vs, pa, shape, kind, left], body)
        for i, s in enumerate(SCALARS):
            def body():
                for f in (operator.add, operator.mul, np.logical_and):
                    judge(rec, lambda: f(p, s), (p, s), f(plain(p), s), 's')
                    judge(rec, lambda: f(s, p), (s, p), f(s, plain(p)), 's')
                rec.state(tl, vs, pa, i)
            rec.case(['scalar', tl, vs, pa, i], body)


# --------------------------------------------------------------- ufuncs

def ufuncs(nin):
    out = {}
    for k in sorted(dir(np)):
        f = getattr(np, k)
        if isinstance(f, np.ufunc) and f.nin == nin and f.signature is None:
            out[k] = f
    return out


DTYPES = (float, int, bool, complex, np.float32)


def u_unary(rec):
    fs = dict(ufuncs(1))
    fs.update({'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
               'inv': operator.invert, 'frompy': np.frompyfunc(
                   lambda a: a + 1, 1, 1)})
    for name, tl, vs, dt in itertools.product(
            fs, ('A', 'C', 'K'), ((), (2,), (2, 1)), DTYPES):
        def body():
            p = proc(tl, vs, 2, dtype=dt)
            if dt is bool:
                p = process(p.t, x=(np.arange(p.size) % 2 == 0)
                            .reshape(p.shape))
            try:
                want = fs[name](plain(p))
            except Exception:
                want = None
            judge(rec, lambda: fs[name](p), (p,), want, name)
            rec.state(name, tl, vs, str(dt))
        rec.case(['unary', name, tl, vs, str(dt)], body)


OPERATORS = {k: getattr(operator, k) for k in (
    'add sub mul truediv floordiv mod pow and_ or_ xor lshift rshift lt le '
    'gt ge eq ne').split()}
OPERATORS['divmod'] = divmod
OPERATORS['frompy'] = np.frompyfunc(lambda a, b: a - b, 2, 1)
PAIRS = [('A', (2,), 2, 'A', (2,), 2), ('A', (2,), 2, 'A2', (1,), 1),
         ('A', (), 3, 'K', (), 1), ('K', (2,), 1, 'C', (1,), 2),
         ('K', (), 2, 'L', (), 2), ('A', (2,), 2, 'B', (2,), 2),
         ('A', (2,), 2, 'C', (2,), 2), ('A', (2,), 2, 'A', (), 2),
         ('A', (3,), 1, 'A', (2,), 1), ('K', (2,), 2, 'A', (1, 2), 2),
         ('A', (), 3, 'A', (), 2), ('C', (), 1, 'A', (), 1)]


def u_binary(rec, k):
    fs = dict(ufuncs(2))
    fs.update({'op ' + n: f for n, f in OPERATORS.items()})
    names = sorted(fs)
    for (name, (tl, vs, pa, tl2, vs2, pa2)), (d1, d2) in itertools.product(
            [(n, p) for i, n in enumerate(names) if i % 4 == k
             for p in PAIRS],
            ((float, float), (int, int), (bool, bool), (float, int))):
        def body():
            a = proc(tl, vs, pa, 0, d1)
            b = proc(tl2, vs2, pa2, 2, d2)
            try:
                ref = fs[name](plain(a), plain(b))
            except Exception:
                ref = None
            want = ref if compatible(a, b) else None
            judge(rec, lambda: fs[name](a, b), (a, b), want, name)
            if compatible(a, b) and name.startswith('op '):
                for s in (2, True, plain(b)[0, ..., :1]):
                    try:
                        r1 = fs[name](plain(a), s)
                    except Exception:
                        r1 = None
                    if not (r1 is None or np.ndim(
                            r1[0] if isinstance(r1, tuple) else r1) ==
                            a.ndim):
                        continue
                    if r1 is None:
                        judge(rec, lambda: fs[name](a, s), (a,), r1, name)
                        continue
                    ok = array_ok(a, (r1[0] if isinstance(r1, tuple)
                                      else r1).shape)
                    judge(rec, lambda: fs[name](a, s), (a,),
                          r1 if ok else None, name)
                    if name in ('op lt', 'op le', 'op gt', 'op ge',
                                'op eq', 'op ne') and np.ndim(s) == 0:
                        continue
                    try:
                        r2 = fs[name](s, plain(a))
                    except Exception:
                        r2 = None
                    judge(rec, lambda: fs[name](s, a), (a,),
                          r2 if ok else None, 'r' + name)
            rec.state(name, tl, vs, pa, tl2, vs2, pa2, str(d1), str(d2))
        rec.case(['binary', name, tl, vs, pa, tl2, vs2, pa2, str(d1),
                  str(d2)], body)


# --------------------------------------------------------------- in place

INPLACE = {k: getattr(operator, k) for k in (
    'iadd isub imul itruediv ifloordiv imod ipow iand ior ixor').split()}


def u_inplace(rec):
    tls = ('A', 'A2', 'B', 'C', 'K', 'L')
    cases = [((t1, v1, p1), (t2, v2, p2)) for t1, t2, v1, v2, p1, p2 in
             itertools.product(tls, tls, VSH[:5], VSH[:5], (1, 2), (1, 2))]
    n = 0
    for (t1, v1, p1), (t2, v2, p2) in cases:
        n += 1
        for name in (('iadd', 'imul') if n % 40 else INPLACE):
            for dts in ((float, float),) if n % 40 else \
                    ((float, float), (int, float), (int, int)):
                def body():
                    a = proc(t1, v1, p1, 0, dts[0])
                    b = proc(t2, v2, p2, 3, dts[1])
                    inplace(rec, INPLACE[name], a, b, compatible(a, b))
                    rec.state(name, t1, v1, p1, t2, v2, p2, str(dts))
                rec.case(['inplace', name, t1, v1, p1, t2, v2, p2, str(dts)],
                         body)
    for tl, vs, pa in itertools.product(('A', 'K'), VSH, PP):
        p0 = proc(tl, vs, pa)
        for shape in shapes_for(p0):
            def body():
                for f in (operator.iadd, operator.imul):
                    p = proc(tl, vs, pa)
                    x = np.arange(int(np.prod(shape))).reshape(shape)*.5
                    inplace(rec, f, p, x, True)
                rec.state('i', tl, vs, pa, shape)
            rec.case(['inplace array', tl, vs, pa, shape], body)


def inplace(rec, f, a, b, ok):
    x0, t0 = a.x.copy(), a.t
    orig, mem = a, a.x
    fb = Frozen(b)
    rec.step()
    want = x0.copy()
    if ok:
        try:
            want = f(want, plain(b))
        except Exception:
            ok = False
            want = x0.copy()
    if not ok:
        rec.raises(lambda: f(a, b), 'in place')
        rec.same(np.array(orig), x0, 'in place: altered by failure', 0)
        rec.check(orig.t is t0, 'in place: timeline')
        fb.check(rec, 'in place')
        return
    r = f(a, b)
    rec.check(type(r) is process and np.shares_memory(r, mem),
              'in place: not in place')
    rec.check(r.dtype == want.dtype, 'in place: dtype')
    rec.same(np.array(r), want, 'in place', 0)
    rec.same(np.array(orig), want, 'in place: original object', 0)
    rec.check(np.array_equal(orig.t, t0) and np.array_equal(r.t, t0) or
              len(t0) == 1 and np.array_equal(orig.t, t0),
              'in place: timeline')
    fb.check(rec, 'in place')


# --------------------------------------------------------------- out=

def u_outs(rec):
    tls = ('A', 'A2', 'B', 'C', 'K')
    shp = (((), 1), ((), 2), ((2,), 2), ((2,), 1), ((1, 2), 2))
    for tl, tl2, tlo in itertools.product(tls, repeat=3):
        for (vs, pa), (vs2, pa2), (vso, pao) in itertools.product(
                shp, repeat=3):
            def body():
                a, b = proc(tl, vs, pa), proc(tl2, vs2, pa2, 3)
                o = proc(tlo, vso, pao, 9)
                fz = Frozen(a, b)
                ok = compatible(a, b) and compatible(a, o) and \
                    compatible(b, o)
                keep, to = o.x.copy(), o.t
                rec.step()
                if ok:
                    ref = o.x.copy()
                    try:
                        np.add(plain(a), plain(b), out=ref)
                    except ValueError:
                        ok = False
                if not ok:
                    rec.raises(lambda: np.add(a, b, out=o), 'out')
                    rec.same(np.array(o), keep, 'out altered by failure', 0)
                else:
                    r = np.add(a, b, out=o)
                    rec.same(np.array(o), ref, 'out', 0)
                    rec.same(np.array(r), ref, 'out result', 0)
                    rec.check(np.shares_memory(r, o), 'out result')
                    rec.check(isinstance(r, process) and
                              np.array_equal(r.t, o.t), 'out timeline')
                rec.check(o.t is to, 'timeline of out replaced')
                fz.check(rec, 'out')
                rec.state('out', tl, tl2, tlo, vs, pa, vs2, pa2, vso, pao)
            rec.case(['out', tl, tl2, tlo, vs, pa, vs2, pa2, vso, pao], body)


def u_plainout(rec):
    """plain arrays as outputs"""
    for tl, vs, pa, tl2, vs2, pa2 in PAIRS:
        def body():
            a, b = proc(tl, vs, pa), proc(tl2, vs2, pa2, 3)
            fz = Frozen(a, b)
            rec.step()
            rec.state('plain', tl, vs, pa, tl2, vs2, pa2)
            try:
                want = np.add(plain(a), plain(b))
            except ValueError:
                o = np.zeros((3, 2, 2))
                rec.raises(lambda: np.add(a, b, out=o), 'plain out')
                rec.same(o, 0*o, 'out altered', 0)
                return
            o = np.zeros(want.shape)
            if compatible(a, b):
                np.add(a, b, out=o)
                rec.same(o, want, 'plain out', 0)
                x = np.zeros(want.shape)
                x += a
                rec.same(x, plain(a) + np.zeros(want.shape), 'array += p', 0)
            else:
                try:
                    np.add(a, b, out=o)
                except Exception:
                    rec.same(o, 0*o, 'out altered', 0)
                else:
                    rec.fail('np.add of incompatible processes, with a '
                             'plain array as out, did not raise',
                             finding='plain-array-out-unchecked')
            fz.check(rec, 'plain out')
        rec.case(['plain out', tl, vs, pa, tl2, vs2, pa2], body)


# --------------------------------------------------------------- 3 operands

def u_three(rec):
    f3 = np.frompyfunc(lambda a, b, c: a + 2*b + 3*c, 3, 1)
    clip = np.core.umath.clip
    two = np.frompyfunc(lambda a, b: (a + b, a - b), 2, 2)
    tls = ('A', 'A2', 'B', 'C', 'K')
    ops = [(t, v, p) for t in tls for v, p in
           (((), 2), ((2,), 2), ((2,), 1))]
    for trip in itertools.product(ops, repeat=3):
        def body():
            ps = [proc(*k, salt=i) for i, k in enumerate(trip)]
            ok = all(compatible(a, b) for a, b in
                     itertools.combinations(ps, 2))
            for f in (f3, clip):
                want = None
                if ok:
                    want = f(*map(plain, ps))
                judge(rec, lambda: f(*ps), ps, want, 'three operands')
            rec.state('3', trip)
        rec.case(['three'] + [list(k) for k in trip], body)
    for a, b in itertools.product(ops, repeat=2):
        def body():
            p, q = proc(*a), proc(*b)
            want = two(plain(p), plain(q)) if compatible(p, q) else None
            judge(rec, lambda: two(p, q), (p, q), want, 'two outputs')
            x = np.ones(p.shape)
            if compatible(p, q) and p.shape[0] >= q.shape[0]:
                want = clip(plain(p), plain(q), 1.5)
                judge(rec, lambda: clip(p, q, 1.5), (p, q), want, 'mixed')
                want = clip(x, plain(p), plain(q))
                judge(rec, lambda: clip(x, p, q), (x, p, q), want, 'mixed')
            elif not compatible(p, q):
                judge(rec, lambda: clip(p, q, 1.5), (p, q), None, 'mixed')
                judge(rec, lambda: clip(1.5, p, q), (p, q), None, 'mixed')
            rec.state('2', a, b)
        rec.case(['two', a, b], body)


# --------------------------------------------------------------- expressions

LEAVES = [('A', (), 2), ('A2', (), 2), ('A', (), 1), ('B', (), 2),
          ('K', (), 2), ('K', (), 1), ('C', (), 2), ('A', (2,), 2),
          ('K', (2,), 1), 'scalar', 'array']
EOPS = {'+': operator.add, '*': operator.mul, 'max': np.maximum,
        '<': operator.lt, 'exp': None}


def leaf(k):
    if LEAVES[k] == 'scalar':
        return 3.
    if LEAVES[k] == 'array':
        return np.array([1., 4.])
    return proc(*LEAVES[k], salt=k)


def combine(a, b):
    """reference algebra on (timeline or None, values); None: error"""
    (ta, xa), (tb, xb) = a, b
    shape = None
    try:
        shape = np.broadcast_shapes(np.shape(xa), np.shape(xb))
    except ValueError:
        return None
    if ta is None and tb is None:
        return None, shape
    if ta is not None and tb is not None:
        if len(ta) > 1 and len(tb) > 1 and ta != tb or \
                np.ndim(xa) != np.ndim(xb):
            return None
        return (ta if len(ta) > 1 else tb), shape
    t, x = (ta, xa) if ta is not None else (tb, xb)
    if len(shape) != np.ndim(x) or shape[0] != len(t):
        return None
    return t, shape


def tup(a):
    return (tuple(a.t) if isinstance(a, process) else None,
            np.asarray(a))


def u_expr(rec, k):
    depth = 2 if rec.tier == 'quick' else 3
    ops = ['+', '*', 'max', '<']

    def body(a, ref, seq):
        for o, j, left in itertools.product(
                ops[:4 if len(seq) < 3 else 2], range(len(LEAVES)),
                (False, True)):
            b = leaf(j)
            rb = tup(b)
            f = EOPS[o]
            x, y = (b, a) if left else (a, b)
            key = seq + [[o, j, left]]
            box = []

            def one():
                if not isinstance(a, process) and \
                        not isinstance(b, process):
                    return
                c = combine(ref, rb)
                rec.step()
                rec.state(key)
                if c is None:
                    rec.raises(lambda: f(x, y), 'expression')
                    rec.same(np.array(a), ref[1], 'operand altered', 0)
                    return
                want = f(*((rb[1], ref[1]) if left else (ref[1], rb[1])))
                r = f(x, y)
                rec.check(type(r) is process, 'type')
                rec.same(np.array(r), want, 'expression', 0)
                rec.check(tuple(r.t) == c[0], 'timeline')
                rec.same(np.array(a), ref[1], 'operand altered', 0)
                box.append((r, (c[0], want)))
            if rec.only is None or key == rec.only:
                rec.case(key, one)
            elif key == rec.only[:len(key)]:
                one()
            if box and len(key) <= depth:
                body(box[0][0], box[0][1], key)
    a = leaf(k)
    body(a, tup(a), [k])
