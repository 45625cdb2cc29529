"""C21: failed montecarlo updates."""
import itertools
import sys
import warnings
import numpy as np
import sdepy.infrastructure
from sdepy import montecarlo
from checks.c19_montecarlo import block

PROPERTY = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all histories of valid and failing updates, and fault '
             'injection at every call made by an update, on the real montecarlo class')
LEVEL_NOTE = ('all sequences of up to 4 (thorough: 5) operations out of 2 valid updates and 14 '
              'kinds of failing updates (at most 2 failures per history), 4 shapes, 5 bins, '
              '3 antithetic modes; a failure injected in turn at each function call made by '
              'the first, second and third update, with views at all moments; the full '
              'observable state is compared before and after, bit by bit, and with a history '
              'deprived of failures.')
RULE = ('a state is (configuration, history); a trace is one history, with one observation of '
        'the whole public state after each operation')

FILE = sdepy.infrastructure.__file__


# ------------------------------------------------ observation

def observe(a, views=()):
    """all that can be observed of a, as comparable bytes"""
    out = []
    for o in (a,) + tuple(views):
        out.append(one(o))
    try:
        vshape = a.vshape
    except ValueError:
        return out
    for i in np.ndindex(vshape):
        out.append(one(a[i]))
    return out


def one(o):
    d = [('paths', o.paths), ('repr', repr(o))]
    if not o.paths:
        d.append(('histogram', attempt(o.histogram)))
        d.append(('shape', attempt(lambda: o.shape)))
        return d
    d.append(('shape', o.shape))
    for name in ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr'):
        d.append((name, freeze(getattr(o, name)())))
    d.append(('histogram', attempt(o.histogram)))
    d.append(('outpaths', attempt(lambda: (o.outpaths,))))
    d.append(('cdf', attempt(lambda: (o.cdf([-1., 0., .7], 'interp'),))))
    return d


def attempt(f):
    try:
        return tuple(freeze(x) for x in f())
    except Exception as e:
        return type(e).__name__


def freeze(x):
    x = np.asarray(x)
    return (x.shape, str(x.dtype), x.tobytes())


def explain(x, y):
    for k, (p, q) in enumerate(zip(x, y)):
        for (n1, u), (n2, v) in zip(p, q):
            if (n1, u) != (n2, v):
                def show(w):
                    return np.frombuffer(w[2], w[1]).tolist() if (
                        isinstance(w, tuple) and len(w) == 3 and
                        isinstance(w[2], bytes)) else w
                return '%s of %s: %r, then %r' % (
                    n1, 'the instance' if k == 0 else 'a component',
                    show(u), show(v))
    return 'different observations'


# ------------------------------------------------ failing updates

VS = ((), (2,), (2, 2), (3, 1))
BINS = ('none', 'int', 'auto', 'range', 'explicit')


def make(vs, b, use):
    kw = dict(use=use)
    if b == 'none':
        kw['bins'] = None
    elif b == 'int':
        kw['bins'] = 3
    elif b == 'auto':
        kw['bins'] = 'auto'
    elif b == 'range':
        kw.update(bins=4, range=(-2., 3.))
    else:
        e = np.empty(tuple(vs) + (4,))
        for k, i in enumerate(np.ndindex(vs)):
            e[i] = [-2. - k, -.5, 1. + k, 2.5 + k*k]
        kw['bins'] = e
    return montecarlo(**kw)


def valid(k, vs):
    return block(k, vs, 2 + 2*(k % 2), float), -1


def failures(vs, b, use, first):
    """name -> (sample, axis) of updates that fail in this situation"""
    f = {}
    n = 2
    good = block(5, vs, n, float)
    if not first:
        f['shape'] = np.ones((5,) + tuple(vs) + (n,)), -1
        f['shape2'] = np.ones((7, n)), -1
        if vs == ():
            f['shape2'] = np.ones((7, 3, n)), -1
        f['axis of another size'] = np.ones(
            tuple(vs)[:-1] + (5, n)), -1
        if vs == (2,):
            f['wrong axis'] = np.ones((2, 4)), 0
    if use != 'all':
        f['odd size'] = block(1, vs, 3, float), -1
        f['odd axis'] = np.ones((3,) + tuple(vs)), 0
    f['axis'] = good, len(vs) + 1
    f['axis2'] = good, -len(vs) - 2
    f['axis3'] = good, 'spam'
    f['string'] = 'spam', -1
    f['strings'] = np.full(tuple(vs) + (n,), 'spam'), -1
    f['None'] = np.full(tuple(vs) + (n,), None), -1
    f['ragged'] = [[1., 2.], [3.]], -1
    f['dict'] = dict(a=1), -1
    obj = np.empty(tuple(vs) + (n,), object)
    obj[...] = 1.
    obj[..., -1] = 'spam'
    f['objects'] = obj, -1
    if first and b in ('int', 'auto'):
        # non finite data, in each component in turn
        for i in np.ndindex(vs):
            for bad in (np.nan, np.inf):
                x = good.copy()
                x[i][-1] = bad
                f['non finite %s %s' % (i, bad)] = x, -1
    if first and b == 'explicit':
        f['bins shape'] = np.ones(tuple(vs) + (3, n)), -1
        if vs:
            f['bins shape2'] = np.ones(n), -1
    return f


def ops(rec, cfg, depth, nfail):
    """all sequences of operations, as lists of 'v' and failure names"""
    vs, b, use = cfg

    def grow(seq, nv, nf):
        yield seq
        if len(seq) == depth:
            return
        yield from grow(seq + ('v',), nv + 1, nf)
        if nf < nfail:
            names = failures(vs, b, use, nv == 0)
            if nf >= 1:
                # a second failure: only of some kinds
                names = [k for k in names if k in (
                    'shape', 'odd size', 'objects', 'axis', 'bins shape') or
                    k.startswith('non finite')][:6]
            for name in names:
                yield from grow(seq + (name,), nv, nf + 1)
    for seq in grow((), 0, 0):
        if seq and not set(seq) <= {'v'}:
            yield seq


def unit_histories(rec, u):
    vs, use = tuple(u['vs']), u['use']
    depth = 4 if rec.tier == 'quick' else 5
    for b in u['bins']:
        for seq in ops(rec, (vs, b, use), depth, 2):
            # prefixes are explored on their own
            if seq[-1] != 'v' and len(seq) < depth:
                continue
            rec.case([vs, b, use, seq],
                     lambda: history(rec, vs, b, use, seq))


def some_views(a, vs):
    v = [a[()]]
    if vs:
        v += [a[0], a[-1:]]
    if len(vs) > 1:
        v += [a[1, 0]]
    return v


def history(rec, vs, b, use, seq):
    a, clean = make(vs, b, use), make(vs, b, use)
    views, cviews = some_views(a, vs), some_views(clean, vs)
    k = 0
    msg = 'shape %s, bins %s, use=%s, %s:' % (vs, b, use, list(seq))
    for j, op in enumerate(seq):
        rec.step()
        rec.state(vs, b, use, seq[:j+1])
        if op == 'v':
            x, axis = valid(k, vs)
            a.update(x, axis)
            clean.update(x, axis)
            if k == 0:
                views += some_views(a, vs)
                cviews += some_views(clean, vs)
            k += 1
            continue
        before = observe(a, views)
        x, axis = failures(vs, b, use, k == 0)[op]
        if not rec.raises(lambda: a.update(x, axis), '%s step %d' % (msg, j)):
            return
        after = observe(a, views)
        if not rec.check(before == after,
                         lambda: '%s step %d failed, yet %s' % (
                             msg, j, explain(before, after))):
            return
    rec.check(observe(a, views) == observe(clean, cviews),
              lambda: '%s without the failed updates, %s' % (
                  msg, explain(observe(clean, cviews), observe(a, views))))


# ------------------------------------------------ other configurations

def unit_config(rec, u):
    for use in (None, 'spam', 'EVEN', 1):
        rec.case(['use', str(use)], lambda: bad_use(rec, use))
    for bins in ([3., 2., 1.], 'spam', -3, 0, [[1., 2.], [3., 4.], [5., 6.]],
                 2.5, [1., np.nan, 2.], 'autos', [['a', 'b']], {}):
        for vs in VS:
            rec.case(['bins', str(bins), vs],
                     lambda: bad_bins(rec, bins, vs))
    for rng in ((1., 0.), (0., np.inf), (np.nan, 1.), 'spam', (1,)):
        for vs in VS:
            rec.case(['range', str(rng), vs],
                     lambda: bad_range(rec, rng, vs))
    rec.case(['partial'], lambda: partial(rec))


def bad_use(rec, use):
    rec.raises(lambda: montecarlo([1., 2.], use=use), 'use=%r' % (use,),
               ValueError)
    a = montecarlo(use=use)
    rec.state(str(use))
    for k in range(3):
        before = observe(a)
        rec.raises(lambda: a.update([1., 2.]), 'use=%r' % (use,), ValueError)
        rec.check(observe(a) == before and a.paths == 0,
                  'failed update, use=%r' % (use,))
        rec.step()


def bad_bins(rec, bins, vs):
    """instances with incompatible bins stay empty, and keep failing"""
    a = montecarlo(bins=bins)
    x = block(0, vs, 4, float)
    try:
        a.update(x)
    except Exception:
        pass
    else:
        return          # those bins are compatible
    rec.state(str(bins), vs)
    for k in range(2):
        rec.step()
        rec.check(a.paths == 0 and observe(a) == observe(montecarlo()),
                  'instance not empty after a failure, bins=%r' % (bins,))
        rec.raises(lambda: a.update(x), 'bins=%r, once more' % (bins,))
    # samples of the right shape, if any, are accepted
    arr = np.asarray(bins)
    if arr.ndim > 1 and arr.dtype.kind == 'f':
        y = block(0, arr.shape[:-1], 3, float)
        a.update(y)
        b = montecarlo(y, bins=bins)
        rec.check(observe(a) == observe(b),
                  'after a failure, bins=%r' % (bins,))


def bad_range(rec, rng, vs):
    a = montecarlo(bins=3, range=rng)
    x = block(0, vs, 4, float)
    try:
        a.update(x)
    except Exception:
        rec.state(str(rng), vs)
        rec.check(observe(a) == observe(montecarlo()) and a.paths == 0,
                  'instance not empty after a failure, range=%r' % (rng,))
        rec.raises(lambda: a.update(x), 'range=%r, once more' % (rng,))


def partial(rec):
    """a failure while building is not seen by any other instance"""
    good = montecarlo([1., 2., 3.])
    before = observe(good)
    rec.raises(lambda: montecarlo([1., np.nan]), 'nan', ValueError)
    rec.check(observe(good) == before, 'unrelated instance altered')


# ------------------------------------------------ fault injection

class Fault(Exception):
    pass


def run_injected(f, k, exc):
    """run f, raising exc at the k-th call that code in infrastructure.py
    makes to other code (numpy, builtins); returns calls met, and whether
    f failed"""
    n = [0]
    done = [False]

    def prof(frame, event, arg):
        if done[0]:
            return
        if event == 'c_call':
            caller = frame
        elif event == 'call' and frame.f_code.co_filename != FILE:
            caller = frame.f_back
        else:
            return
        if caller is None or caller.f_code.co_filename != FILE:
            return
        n[0] += 1
        if n[0] - 1 == k:
            done[0] = True
            raise exc('injected')
    failed = False
    old = sys.getprofile()
    sys.setprofile(prof)
    try:
        f()
    except exc:
        failed = True
    finally:
        sys.setprofile(old)
    return n[0], failed


def unit_faults(rec, u):
    vs, b, use = tuple(u['vs']), u['b'], u['use']
    for nth in range(3):
        for exc in (Fault, MemoryError, KeyboardInterrupt):
            if exc is not Fault and rec.tier == 'quick' and nth == 2:
                continue
            rec.case([vs, b, use, nth, exc.__name__],
                     lambda: faults(rec, vs, b, use, nth, exc))


def faults(rec, vs, b, use, nth, exc):
    def setup(n):
        a = make(vs, b, use)
        views = some_views(a, vs)
        for k in range(n):
            a.update(*valid(k, vs))
        if n:
            views += some_views(a, vs)
        return a, views
    a, views = setup(nth)
    x, axis = valid(nth, vs)
    total, failed = run_injected(lambda: a.update(x, axis), None, exc)
    assert not failed and total > 3
    done = observe(a, views)
    a.update(*valid(nth + 1, vs))
    final = observe(a, views)
    k = 0
    while True:
        a, views = setup(nth)
        before = observe(a, views)
        met, failed = run_injected(lambda: a.update(x, axis), k, exc)
        if met <= k:
            break               # all calls have been failed in turn
        rec.state(vs, b, use, nth, k)
        rec.count('injected faults')
        rec.step()
        after = observe(a, views)
        msg = ('shape %s, bins %s, use=%s, update no. %d, %s at call no. %d '
               'of %d' % (vs, b, use, nth + 1, exc.__name__, k, total))
        if not failed:
            # the error was dealt with: then the update is complete
            ok = after == done
        else:
            # nothing is done (or all is, if failing after completion)
            ok = after in (before, done)
        if not rec.check(ok, lambda: '%s: %s' % (
                msg, explain(before, after))):
            return
        if after != done:
            a.update(x, axis)
            rec.check(observe(a, views) == done,
                      lambda: '%s, update then repeated: %s' % (
                          msg, explain(done, observe(a, views))))
        a.update(*valid(nth + 1, vs))
        rec.check(observe(a, views) == final,
                  lambda: '%s, further updates: %s' % (
                      msg, explain(final, observe(a, views))))
        k += 1
    rec.check(k >= 4, 'faults not injected')


KINDS = dict(histories=unit_histories, config=unit_config,
             faults=unit_faults)


def units(tier, seed):
    out = [dict(kind='histories', vs=vs, use=use, bins=[b])
           for vs in VS for use in ('all', 'even', 'odd') for b in BINS]
    if tier == 'quick':
        out = [v for v in out if v['use'] != 'odd' or v['bins'] == ['int']]
    out.append(dict(kind='config'))
    out += [dict(kind='faults', vs=vs, b=b, use=use) for vs in VS
            for b in BINS for use in ('all', 'even')]
    return out


def run_unit(rec, u):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        KINDS[u['kind']](rec, u)
