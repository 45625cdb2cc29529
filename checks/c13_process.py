"""C13: a process is exactly the array it represents, with its timeline."""
import copy
import io
import itertools
import pickle
import warnings
import numpy as np
import sdepy
from sdepy import process
from mc.core import differ

PROPERTY = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of constructions, index expressions and operation '
             'sequences on real processes, replayed on plain arrays')
LEVEL_NOTE = ('All sequences of 2 (3 in the thorough tier) out of about 90 array '
              'operations on 4 processes; all index expressions of up to 2 items (3 '
              'in the thorough tier); shapes up to 3 x (2, 3) x 3.'
              ' Plus processes with hundreds of times, values or paths.')
RULE = ('a state is (process, operation sequence or index expression); a transition is '
        'one operation; a trace is one construction, expression or sequence')

VS = ((), (1,), (2,), (2, 1), (2, 3))
DT = (None, bool, np.int8, int, np.float32, float, complex)


def values(shape, dtype=float):
    x = (np.arange(int(np.prod(shape)))*7 % 11 - 3.).reshape(shape)
    if np.dtype(dtype).kind == 'c':
        x = x*(1 - 2j)
    if np.dtype(dtype).kind == 'u':
        x = np.abs(x)
    return np.asarray(x).astype(dtype)


def units(tier, seed):
    for n in (1, 2, 3):
        yield dict(u='build', n=n)
    yield dict(u='reject')
    for k in range(4):
        yield dict(u='index', k=k)
    m = 8 if tier == 'quick' else 24
    for k in range(len(PROCS)):
        for j in range(m):
            yield dict(u='ops', k=k, j=j, m=m)
    yield dict(u='inplace')
    yield dict(u='copies')
    yield dict(u='subclass')
    for k in range(len(BIG)):
        yield dict(u='big', k=k)


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            globals()['u_' + u.pop('u')](rec, **u)


# ----------------------------------------------------------- construction

def tforms(n):
    t = np.arange(n)*.5 + 1
    out = {'array': t, 'list': list(t), 'tuple': tuple(t), 'int':
           np.arange(n)*2, 'f32': t.astype(np.float32),
           'strided': np.repeat(t, 2)[::2], 'intlist': list(range(n))}
    if n == 1:
        out.update({'scalar': 1., '0d': np.asarray(1.), 'pyint': 3})
    return out


def u_build(rec, n):
    def body(mode, form, tf, vs, paths, xd, dtype):
        t = tforms(n)[tf]
        shape = {'x': (n,) + vs + (paths,), 'v': (n,) + vs, 'c': vs}[mode]
        base = values(shape, xd)
        arg = {'array': lambda: base, 'list': lambda: base.tolist(),
               'tuple': lambda: tuple(base.tolist()) if base.ndim
               else base.item(),
               'process': lambda: base.view(process),
               'fortran': lambda: np.array(base, order='F'),
               'strided': lambda: np.repeat(base, 2, axis=-1)[..., ::2]
               if base.ndim else base,
               'readonly': lambda: base.copy()}[form]()
        if form == 'readonly':
            arg.flags.writeable = False
        keep = np.array(arg, copy=True)
        kw = {} if dtype is None else dict(dtype=dtype)
        rec.step()
        try:
            full = np.asarray(arg, dtype=dtype)
        except (TypeError, ValueError):
            rec.raises(lambda: process(t, **{mode: arg}, **kw), 'dtype')
            return
        p = process(t, **{mode: arg}, **kw)
        rec.state(mode, form, tf, vs, paths, str(xd), str(dtype), n)
        if mode == 'x':
            want = full
        elif mode == 'v':
            want = full[..., None]
        else:
            want = np.broadcast_to(full[None, ..., None], (n,) + vs + (1,))
        rec.check(type(p) is process, 'type')
        rec.check(p.shape == want.shape, lambda: 'shape %s, not %s' % (
            p.shape, want.shape))
        rec.check(p.dtype == want.dtype, lambda: 'dtype %s, not %s' % (
            p.dtype, want.dtype))
        rec.same(np.array(p), want, 'values', 0)
        rec.check(p.vshape == vs and p.paths == want.shape[-1], 'vshape, paths')
        tt = np.asarray(t).reshape(n)
        rec.check(p.t.shape == (n,) and p.t.dtype == tt.dtype and
                  np.array_equal(p.t, tt), 'timeline')
        rec.check(type(p.x) is np.ndarray and np.shares_memory(p.x, p),
                  'x attribute')
        rec.same(p.x, want, 'x values', 0)
        rec.same(p.tx, tt.reshape((n,) + (1,)*(p.ndim - 1)), 'tx', 0)
        rec.same(p.dt, np.diff(tt), 'dt', 0)
        rec.same(p.dtx, np.diff(tt).reshape((n - 1,) + (1,)*(p.ndim - 1)),
                 'dtx', 0)
        rec.check(p.interp_kind == 'linear', 'interp_kind')
        if isinstance(t, np.ndarray):
            rec.check(np.shares_memory(p.t, t), 't was copied')
        if isinstance(arg, np.ndarray) and full.dtype == arg.dtype and \
                (mode != 'c' or n == 1):
            rec.check(np.shares_memory(p, arg), 'values were copied')
        elif isinstance(arg, np.ndarray):
            rec.check(not np.shares_memory(p, arg), 'values share memory')
        rec.same(np.array(arg), keep, 'argument was modified', 0)
    k = 0
    for mode, form, tf, vs, xd in itertools.product(
            'xvc', ('array', 'list', 'tuple', 'process', 'fortran',
                    'strided', 'readonly'), tforms(n), VS, DT[1:]):
        for paths in ((1, 2, 3) if mode == 'x' else (1,)):
            k += 1
            if form == 'process' and mode == 'c' and vs == ():
                continue
            if mode == 'x':
                forms = (None, DT[1 + k % 6])
            else:
                forms = DT
            if rec.tier == 'thorough':
                forms = DT
            for dtype in forms:
                rec.case([mode, form, tf, vs, paths, str(xd), str(dtype)],
                         lambda: body(mode, form, tf, vs, paths, xd, dtype))
    # defaults
    def default():
        for mode, arg in (('x', [[1., 2.]]), ('v', [5.]), ('c', 5.)):
            p = process(**{mode: arg})
            rec.check(np.array_equal(p.t, [0.]) and p.shape == (
                (1, 2) if mode == 'x' else (1, 1)), 'default timeline')
        p = process([0., 1.], v=[[1, 2], [3, 4]], dtype=float)
        rec.check(p.shape == (2, 2, 1) and p.dtype == float, 'v')
    rec.case(['defaults'], default)


def u_reject(rec):
    a = np.arange(6.).reshape(3, 2)
    bad = {
        '2d t': lambda: process([[0., 1., 2.]], x=a),
        '2d t (1, 1)': lambda: process([[0.]], c=1.),
        'empty t': lambda: process([], x=np.empty((0, 2))),
        'empty t c': lambda: process([], c=1.),
        'nothing': lambda: process((0., 1., 2.)),
        'x and v': lambda: process((0., 1., 2.), x=a, v=a),
        'x and c': lambda: process((0., 1., 2.), x=a, c=1.),
        'v and c': lambda: process((0., 1., 2.), v=a, c=1.),
        'x, v and c': lambda: process((0., 1., 2.), x=a, v=a, c=1.),
        'short x': lambda: process((0., 1., 2.), x=a[:2]),
        'long x': lambda: process((0., 1.), x=a),
        'short v': lambda: process((0., 1., 2.), v=a[:2]),
        'x one': lambda: process((0., 1., 2.), x=a[:1]),
        'v one': lambda: process((0., 1., 2.), v=a[:1]),
        't one': lambda: process(0., x=a),
        't default': lambda: process(x=a),
        'scalar x': lambda: process((0., 1., 2.), x=1.),
        'scalar x t': lambda: process(0., x=1.),
        'scalar v': lambda: process((0., 1., 2.), v=1.),
        'positional x': lambda: process((0., 1., 2.), a),
        'unknown': lambda: process((0., 1., 2.), x=a, y=1),
        'zero x': lambda: process((0., 1., 2.), x=0.*a, c=0.),
        'falsy': lambda: process((0., 1.), x=np.zeros((2, 1)), v=np.zeros(2)),
    }
    for k in bad:
        def body():
            rec.step()
            rec.state(k)
            rec.raises(bad[k], k, (ValueError, TypeError))
        rec.case([k], body)

    def falsy():
        p = process((0., 1.), c=0)
        rec.same(np.array(p), np.zeros((2, 1)), 'null c')
        p = process((0., 1.), c=())
        rec.check(p.shape == (2, 0, 1), 'empty c')
    rec.case(['null values are values'], falsy)


# ----------------------------------------------------------- processes

def make(k):
    n, vs, paths, dt = PROCS[k]
    t = np.arange(n)*.75 + 1
    x = values((n,) + vs + (paths,), dt)
    return t, x, process(t, x=x)


PROCS = [(3, (), 2, float), (3, (2,), 3, int), (2, (2, 3), 2, complex),
         (1, (2,), 2, np.float32), (3, (3,), 3, bool)]


# ----------------------------------------------------------- indexing

def axis_keys(n):
    out = [0, -1, n - 1, np.int64(0), np.int32(-1), slice(None),
           slice(1, None), slice(None, None, -1), slice(0, 0),
           [0], [0, -1, 0], np.array([n - 1, 0]),
           np.arange(n) % 2 == 0, [bool(i) for i in range(n)],
           n, -n - 1, np.array([[0, -1]]), np.zeros(0, int), True]
    return out


def u_index(rec, k):
    t, x, p = make(k)
    keys = [(), Ellipsis, None, x > 0, ~(x > 0), np.array(True),
            np.array(1 % len(x)), x[..., 0] > 0]
    keys += axis_keys(x.shape[0])
    for a in itertools.product([Ellipsis, None] + axis_keys(x.shape[0]),
                               [Ellipsis, None] + axis_keys(x.shape[-1])):
        keys.append(a)
    full = rec.tier == 'thorough'
    for a in itertools.product(axis_keys(x.shape[0])[:None if full else 14],
                               axis_keys(x.shape[1])[1:None if full else 12],
                               axis_keys(x.shape[-1])[1:12]):
        keys.append(a)
    for i in range(x.ndim):
        for q in axis_keys(x.shape[i]):
            keys.append((slice(None),)*i + (q,))
            keys.append((Ellipsis, q, None))
    rec.count('index expressions', len(keys))

    def val(key):
        try:
            return x[key], None
        except Exception as e:
            return None, e

    def body(key):
        want, err = val(key)
        rec.step()
        rec.state(k, repr(key))
        if err is not None:
            rec.raises(lambda: p[key], 'index %r' % (key,))
            q = p.pcopy()
            rec.raises(lambda: q.__setitem__(key, 1), 'setting %r' % (key,))
            rec.same(np.array(q), x, 'after a failed setting', 0)
            return
        got = p[key]
        rec.check(type(got) is type(want), lambda: 'type %s, not %s' % (
            type(got), type(want)))
        rec.check(np.asarray(got).dtype == want.dtype, 'dtype')
        rec.same(got, want, 'value', 0)
        if isinstance(want, np.ndarray) and want.size:
            rec.check(np.shares_memory(got, x) == np.shares_memory(want, x),
                      'memory sharing')
        y, q = x.copy(), p.pcopy()
        y[key] = 1
        q[key] = 1
        rec.same(np.array(q), y, 'setting', 0)
        rec.check(type(q) is process and np.array_equal(q.t, t), 'setting')
    for i, key in enumerate(keys):
        rec.case([k, i, repr(key)], lambda: body(key))


# ----------------------------------------------------------- operations

def _ops():
    o = {}

    def op(name, f):
        o[name] = f
    for m in ('sum', 'prod', 'min', 'max', 'mean', 'std', 'var', 'any', 'all',
              'argmin', 'argmax', 'ptp', 'cumsum', 'cumprod'):
        op(m, lambda a, m=m: getattr(a, m)())
        op(m + ' 0', lambda a, m=m: getattr(a, m)(axis=0))
        op(m + ' -1', lambda a, m=m: getattr(a, m)(axis=-1))
    for m in ('sum', 'min', 'mean', 'var', 'any'):
        op(m + ' keep', lambda a, m=m: getattr(a, m)(axis=1 % a.ndim,
                                                     keepdims=True))
        op('np.' + m, lambda a, m=m: getattr(np, m)(a, axis=0))
    op('sum dtype', lambda a: a.sum(axis=0, dtype=complex))
    op('mean all', lambda a: a.mean(axis=tuple(range(a.ndim))))
    op('std ddof', lambda a: a.std(axis=-1, ddof=1))
    op('sum where', lambda a: a.sum(axis=0, where=np.asarray(a) != 1))
    op('sum initial', lambda a: a.sum(axis=0, initial=3))
    for m in ('copy', 'flatten', 'ravel', 'squeeze', 'transpose', 'tolist',
              'tobytes', 'nonzero', 'argsort', 'view', 'conj', 'round',
              'conjugate', 'diagonal', 'trace', '__len__', '__bool__',
              '__float__', '__str__', 'item'):
        op(m, lambda a, m=m: getattr(a, m)())
    for m in ('T', 'real', 'imag', 'size', 'ndim', 'shape', 'nbytes',
              'strides', 'itemsize'):
        op(m, lambda a, m=m: getattr(a, m))
    op('flat', lambda a: list(a.flat))
    op('flat 1', lambda a: a.flat[1])
    op('iter', lambda a: [np.array(b) for b in a])
    op('reshape -1', lambda a: a.reshape(-1))
    op('reshape split', lambda a: a.reshape((1,) + a.shape + (1,)))
    op('reshape swap', lambda a: a.reshape(a.shape[::-1]))
    op('reshape order', lambda a: a.reshape(a.shape[::-1], order='F'))
    op('swapaxes', lambda a: a.swapaxes(0, -1))
    op('astype', lambda a: a.astype(np.float32))
    op('astype bool', lambda a: a.astype(bool))
    op('astype same', lambda a: a.astype(a.dtype, copy=False))
    op('take', lambda a: a.take([0, 0], axis=0))
    op('take -1', lambda a: a.take([-1, 0], axis=-1))
    op('take flat', lambda a: a.take([0, 1]))
    op('repeat', lambda a: a.repeat(2, axis=0))
    op('repeat -1', lambda a: a.repeat(2, axis=-1))
    op('compress', lambda a: a.compress([True], axis=0))
    op('clip', lambda a: a.clip(0, 2))
    op('round 1', lambda a: (a/3).round(1))
    op('searchsorted', lambda a: a.searchsorted(1))
    op('dot', lambda a: a.dot(np.ones(a.shape[-1])))
    op('item 0', lambda a: a.item(0))
    op('swap view', lambda a: a.view(np.ndarray))
    op('getslice', lambda a: a[:1])
    op('getrev', lambda a: a[::-1])
    op('get None', lambda a: a[None])
    op('byteswap', lambda a: a.byteswap())
    op('newbyteorder', lambda a: a.newbyteorder())
    op('contig', lambda a: np.ascontiguousarray(a))
    op('np.sort', lambda a: np.sort(a, axis=0))
    op('np.cumsum', lambda a: np.cumsum(a, axis=0))
    op('np.concatenate', lambda a: np.concatenate([a, a]))
    op('np.stack', lambda a: np.stack([a, a]))
    op('np.where', lambda a: np.where(np.asarray(a) > 1, a, 0))
    op('np.median', lambda a: np.median(a, axis=0))
    op('np.quantile', lambda a: np.quantile(a, .3, axis=0))
    op('np.unique', lambda a: np.unique(a))
    op('np.einsum', lambda a: np.einsum('i...->...', a))
    op('np.broadcast_to', lambda a: np.broadcast_to(a, (2,) + a.shape))
    op('np.squeeze', lambda a: np.squeeze(a))
    op('np.moveaxis', lambda a: np.moveaxis(a, 0, -1))
    op('np.roll', lambda a: np.roll(a, 1, axis=0))
    op('np.flip', lambda a: np.flip(a, axis=0))
    op('np.tile', lambda a: np.tile(a, 2))
    op('np.split', lambda a: np.split(a, 1, axis=0))
    op('np.diff', lambda a: np.diff(a, axis=0))
    op('np.histogram', lambda a: np.histogram(a, bins=3))
    op('np.full_like', lambda a: np.full_like(a, 1))
    op('np.zeros_like', lambda a: np.zeros_like(a))
    op('np.array', lambda a: np.array(a))
    op('np.array subok', lambda a: np.array(a, subok=True))
    op('np.expand_dims', lambda a: np.expand_dims(a, 0))
    op('np.count_nonzero', lambda a: np.count_nonzero(a))
    op('np.allclose', lambda a: np.allclose(a, 1.))
    op('np.array_equal', lambda a: np.array_equal(a, a))
    op('np.max', lambda a: np.max(a, axis=-1))
    op('np.add.reduce', lambda a: np.add.reduce(a))
    op('np.add.accumulate', lambda a: np.add.accumulate(a))
    op('copy.copy', copy.copy)
    op('copy.deepcopy', copy.deepcopy)
    op('pickle', lambda a: pickle.loads(pickle.dumps(a)))
    op('repr values', lambda a: repr(a.tolist()))
    return o


OPS = _ops()
# universal functions: on a view that lost its timeline, these may refuse
UFUNC = {'conj', 'conjugate', 'round', 'round 1', 'clip', 'np.allclose',
         'np.array_equal'}


def same(rec, got, want, msg):
    if isinstance(want, (tuple, list)):
        rec.check(isinstance(got, (tuple, list)) and len(got) == len(want),
                  msg + ': structure')
        for g, w in zip(got, want):
            same(rec, g, w, msg)
    elif isinstance(want, np.ndarray) or isinstance(want, np.generic):
        g = np.asarray(got)
        rec.check(g.dtype == want.dtype, lambda: '%s: dtype %s, not %s' % (
            msg, g.dtype, want.dtype))
        rec.same(g, want, msg, 1e-12)
    else:
        rec.check(got == want or (got != got and want != want),
                  lambda: '%s: %r, not %r' % (msg, got, want))


def timeless(a, t):
    """a view that is no more a process, despite its class"""
    return isinstance(a, process) and (
        getattr(a, 't', None) is None or a.t.shape != a.shape[:1])


def u_ops(rec, k, j, m):
    depth = 2 if rec.tier == 'quick' else 3
    t, x, p = make(k)
    names = list(OPS)
    mem = {}

    def ok(a):
        return isinstance(a, np.ndarray) and a.ndim > 0 and a.size

    def walk(path, a, b):
        """a: real process (or what it became), b: plain array"""
        for name in names if path else names[j::m]:
            seq = path + (name,)

            def body():
                try:
                    want = OPS[name](b)
                except Exception:
                    rec.raises(lambda: OPS[name](a), ' '.join(seq))
                    return
                try:
                    got = OPS[name](a)
                except ValueError as e:
                    if timeless(a, t) or name.startswith('np.'):
                        rec.count('refused: no timeline')
                        return
                    raise
                rec.step()
                rec.state(k, seq)
                same(rec, got, want, ' '.join(seq))
                rec.same(np.array(a), b, 'operand was modified', 0)
                mem['r'] = got, want
            mem['r'] = None
            if rec.only is None or list(seq) == rec.only[1:]:
                rec.case([k] + list(seq), body)
            elif list(seq) == rec.only[1:len(seq) + 1]:
                body()
            r = mem['r']
            if r is not None and len(seq) < depth and \
                    isinstance(r[0], process) and ok(r[1]):
                walk(seq, *r)
    walk((), p, x)
    rec.same(np.array(p), x, 'after all', 0)
    rec.check(np.array_equal(p.t, t), 'after all')


BIG = [(300, (7,), 40, float), (1000, (), 3, np.float32), (2, (130,), 1, int),
       (40, (2, 3, 4, 2), 3, complex), (1, (2,), 70000, float),
       (257, (1, 17), 2, float), (2, (2,)*12, 1, np.int8)]


def u_big(rec, k):
    """Sizes beyond the small ones: each operation, the attributes, slices
    and single elements at all positions of each axis."""
    n, vs, paths, dt = BIG[k]
    t = np.cumsum(1 + np.arange(n) % 3*.25)
    x = values((n,) + vs + (paths,), dt)
    p = process(t, x=x)
    keep = x.copy()

    def attrs():
        rec.check(p.vshape == vs and p.paths == paths, 'vshape, paths')
        rec.check(np.shares_memory(p, x) and p.t is t, 'copied')
        rec.same(p.tx, t.reshape((n,) + (1,)*(x.ndim - 1)), 'tx', 0)
        rec.same(p.dt, np.diff(t), 'dt', 0)
        rec.same(p.dtx, np.diff(t).reshape((n - 1,) + (1,)*(x.ndim - 1)),
                 'dtx', 0)
        for form in (process(t, x=x.tolist()), process(list(t), x=x),
                     process(t, v=x[..., 0]),
                     process(t, c=x[0, ..., 0])):
            rec.check(form.t.shape == (n,) and np.array_equal(form.t, t),
                      'timeline')
        rec.same(np.array(process(t, v=x[..., 0])), x[..., :1], 'v', 0)
        rec.same(np.array(process(t, c=x[0, ..., 0])),
                 np.broadcast_to(x[0, ..., :1], (n,) + vs + (1,)), 'c', 0)
        rec.state('big', k)
    rec.case(['big', k], attrs)
    for name in OPS:
        def body():
            try:
                want = OPS[name](x)
            except Exception:
                rec.raises(lambda: OPS[name](p), name)
                return
            try:
                got = OPS[name](p)
            except ValueError:
                if name.startswith('np.'):
                    return
                raise
            rec.step()
            rec.state('big', k, name)
            same(rec, got, want, name)
            rec.same(np.array(p), keep, 'operand was modified', 0)
        rec.case(['big', k, name], body)
    for axis in range(x.ndim):
        m = x.shape[axis]
        for i in range(-m, m) if m <= 1000 else \
                [j for b in (0, 1 << 8, 1 << 15, 1 << 16, m)
                 for j in range(b - 3, b + 3) if -m <= j < m]:
            def element():
                rec.step()
                rec.state('big', k, axis, i)
                key = (slice(None),)*axis + (i,)
                rec.same(np.array(p[key]), x[key], 'element', 0)
                key = (slice(None),)*axis + (slice(i, None, 3),)
                rec.same(np.array(p[key]), x[key], 'slice', 0)
                key = (slice(None),)*axis + ([i, 0, -1],)
                rec.same(np.array(p[key]), x[key], 'fancy', 0)
            rec.case(['big', k, axis, i], element)
    rec.case(['big', k, 'end'], lambda: (
        rec.same(np.array(p), keep, 'after all', 0),
        rec.check(p.t is t, 'timeline')))


# ----------------------------------------------------------- in place

def u_inplace(rec):
    acts = {
        'fill': lambda a: a.fill(1),
        'sort': lambda a: a.sort(),
        'sort 0': lambda a: a.sort(axis=0),
        'partition': lambda a: a.partition(0, axis=0),
        'put': lambda a: a.put([0, -1], [1, 0]),
        'set': lambda a: a.__setitem__(0, 1),
        'set all': lambda a: a.__setitem__(Ellipsis, 2),
        'set mask': lambda a: a.__setitem__(np.asarray(a) > 0, 0),
        'set flat': lambda a: a.flat.__setitem__(1, 1),
        'itemset': lambda a: a.itemset(0, 1),
        'byteswap': lambda a: a.byteswap(True),
        'iadd': lambda a: a.__iadd__(a.dtype.type(1)),
        'setflags': lambda a: a.setflags(write=False),
        'real': lambda a: setattr(a, 'real', 1),
        'put np': lambda a: np.put(a, 0, 1),
        'copyto': lambda a: np.copyto(a, 1),
        'putmask': lambda a: np.putmask(a, np.asarray(a) > 0, 1),
        'add.at': lambda a: np.add.at(a, 0, a.dtype.type(1)),
        'view write': lambda a: a.reshape(-1).__setitem__(0, 1),
        'T write': lambda a: a.T.__setitem__(0, 1),
        'ravel write': lambda a: a.ravel().__setitem__(1, 1),
        'copy write': lambda a: a.copy().__setitem__(0, 1),
        'slice write': lambda a: a[:1].__setitem__(Ellipsis, 1),
        'fancy write': lambda a: a[[0]].__setitem__(Ellipsis, 1),
        'view': lambda a: a.view().__setitem__(0, 1),
        'astype': lambda a: a.astype(a.dtype, copy=False).__setitem__(0, 1),
    }

    def body(k, seq):
        t, x, p = make(k)
        x = x.copy()
        p = process(t, x=x.copy())
        for a in seq:
            try:
                acts[a](x)
            except Exception:
                keep = x.copy()
                rec.raises(lambda: acts[a](p), 'in place ' + a)
                rec.same(np.array(p), keep, 'after failed ' + a, 0)
                continue
            acts[a](p)
            rec.step()
            rec.same(np.array(p), x, 'in place ' + ' '.join(seq), 0)
            rec.check(np.array_equal(p.t, t) and type(p) is process,
                      'timeline')
        rec.state(k, seq)
    for k in range(len(PROCS)):
        for seq in itertools.product(acts, repeat=2):
            rec.case([k] + list(seq), lambda: body(k, seq))


# ----------------------------------------------------------- copies

def u_copies(rec):
    def roundtrip(a):
        f = io.BytesIO()
        np.save(f, a)
        f.seek(0)
        return np.load(f)
    kinds = {'copy': lambda a: a.copy(), 'copy F': lambda a: a.copy('F'),
             'copy.copy': copy.copy, 'deepcopy': copy.deepcopy,
             'view': lambda a: a.view(), 'view nd': lambda a:
             a.view(np.ndarray), 'view process': lambda a: a.view(process),
             'asarray': np.asarray, 'asanyarray': np.asanyarray,
             'array subok': lambda a: np.array(a, subok=True),
             'slice': lambda a: a[:], 'T.T': lambda a: a.T.T,
             'x': lambda a: a.x if isinstance(a, process) else a,
             'reshape': lambda a: a.reshape(a.shape),
             'flat': lambda a: a.flatten().reshape(a.shape),
             'ravel': lambda a: a.ravel().reshape(a.shape),
             'npsave': roundtrip}
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        kinds['pickle %d' % proto] = \
            lambda a, proto=proto: pickle.loads(pickle.dumps(a, proto))
    for k in range(len(PROCS)):
        for seq in itertools.product(kinds, repeat=2):
            def body():
                t, x, p = make(k)
                a = p
                for s in seq:
                    a = kinds[s](a)
                    rec.step()
                    rec.same(np.array(a), x, s, 0)
                    rec.check(a.dtype == x.dtype, 'dtype')
                    if isinstance(a, process) and a.t is not None:
                        rec.check(np.array_equal(a.t, t), s + ': timeline')
                rec.state(k, seq)
                independent = any(s.startswith(('copy', 'deepcopy', 'array',
                                                'pickle', 'flat', 'npsave'))
                                  for s in seq)
                if independent:
                    a[...] = 0
                    rec.same(np.array(p), values(x.shape, x.dtype),
                             'copy was not a copy', 0)
                else:
                    rec.check(np.shares_memory(a, p), 'view was not a view')
            rec.case([k] + list(seq), body)


# ----------------------------------------------------------- subclasses

def u_subclass(rec):
    class sub(process):
        interp_kind = 'nearest'

    def body():
        t, x, p = make(1)
        s = sub(t, x=x)
        rec.check(type(s) is sub and isinstance(s, process), 'subclass')
        rec.check(type(s['t', 0]) is sub and type(s['v', 0]) is sub and
                  type(s['p', 0]) is sub, 'indexing a subclass')
        rec.check(type(s + 1) is sub and type(s.xcopy()) is sub and
                  type(s.pcopy()) is sub and type(s.tcopy()) is sub and
                  type(s.shapeas((2,))) is sub, 'operating on a subclass')
        rec.same(s(1.1), x[0], 'class wide interpolation kind')
        rec.same(p(1.375), (x[0] + x[1])/2//1 + 0*x[0], 'other class', 1)
        q = process(t, x=x.astype(float))
        q.interp_kind = 'previous'
        rec.same(q(1.7), x[0], 'interpolation kind')
        rec.check(process.interp_kind == 'linear' and
                  process(t, x=x).interp_kind == 'linear', 'class attribute')
        rec.same(process(t, x=x.astype(float))(1.375), (x[0] + x[1])/2,
                 'other instance')
        rec.state('subclass')
        rec.step(12)
    rec.case(['subclass'], body)
