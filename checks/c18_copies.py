"""C18: copies are independent and shared parts are exactly the documented ones."""
import copy
import itertools
import pickle
import warnings
import numpy as np
import sdepy
from sdepy import process

PROPERTY = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of derivation trees of real processes, with every '
             'member written in turn, against a model of memory cells')
LEVEL_NOTE = ('All trees of 2 derivations out of 48 (3 in the thorough tier), as chains or '
              'siblings, from 4 processes; each member written at its first and last '
              'value and time, all members compared after each write; all pairs of '
              'shapes out of 19 for shapeas.'
              ' Plus large sizes.')
RULE = ('a state is a tree of derivations; a transition is a derivation or a write; a '
        'trace is a tree explored with all its writes')

BASES = [(3, (2,), 2), (2, (), 3), (1, (2, 1), 2), (2, (1, 3), 1)]
BIG = [(300, (2,), 3), (3, (300,), 2), (2, (), 700), (20, (20,), 3),
       (2, (2,)*6, 3)]


class Model:
    """memory: one fresh identifier per cell"""

    def __init__(self):
        self.n = 0

    def fresh(self, shape):
        k = int(np.prod(shape))
        out = self.n + np.arange(k).reshape(shape)
        self.n += k
        return out


# name -> (operation on the process, operation on (tid, xid, model))
def table():
    o = {}
    o['pcopy'] = (lambda p: p.pcopy(),
                  lambda t, x, m: (m.fresh(t.shape), m.fresh(x.shape)))
    o['pcopy F'] = (lambda p: p.pcopy(order='C'), o['pcopy'][1])
    o['xcopy'] = (lambda p: p.xcopy(),
                  lambda t, x, m: (t, m.fresh(x.shape)))
    o['tcopy'] = (lambda p: p.tcopy(),
                  lambda t, x, m: (m.fresh(t.shape), x))
    o['deep copy'] = (lambda p: process(*copy.deepcopy((p.t,)),
                                       x=copy.deepcopy(p.x)), o['pcopy'][1])
    o['same parts'] = (lambda p: process(p.t, x=p.x),
                       lambda t, x, m: (t, x))
    o['same process'] = (lambda p: process(p.t, x=p),
                         lambda t, x, m: (t, x))
    for name, f in {
            'p+0': lambda p: p + 0, '0+p': lambda p: 0. + p,
            '-(-p)': lambda p: -(-p), '+p': lambda p: +p,
            'p*ones': lambda p: p*np.ones(p.paths),
            'np.positive': lambda p: np.positive(p),
            'np.copysign': lambda p: np.copysign(p, p),
            'p+const': lambda p: p + process(
                99., x=np.zeros((1,) + (1,)*(p.ndim - 1))),
            'const+p': lambda p: process(
                99., x=np.zeros((1,) + (1,)*(p.ndim - 1))) + p
            if p.shape[0] > 1 else p + 0,
            'p-0*p': lambda p: p - 0*p, 'max': lambda p: np.maximum(p, p),
            'conj': lambda p: np.conjugate(p),
            'p.x + 0': lambda p: process(p.t, x=p.x + 0)}.items():
        o[name] = (f, o['xcopy'][1])
    views = {
        'whole': lambda a: a[:], 'first': lambda a: a[:1],
        'last': lambda a: a[-1:], 'tail': lambda a: a[1:],
        'rev': lambda a: a[::-1], 'step': lambda a: a[::2]}
    keys = {'whole': slice(None), 'first': 0, 'last': -1,
            'tail': slice(1, None), 'rev': slice(None, None, -1),
            'step': slice(None, None, 2)}
    for k, f in views.items():
        o['t ' + k] = (lambda p, k=k: p['t', keys[k]],
                       lambda t, x, m, f=f: (f(t), f(x)))
        o['p ' + k] = (lambda p, k=k: p['p', keys[k]],
                       lambda t, x, m, f=f: (
                           t, np.moveaxis(f(np.moveaxis(x, -1, 0)), 0, -1)))
        o['v ' + k] = (lambda p, k=k: p['v', keys[k]],
                       lambda t, x, m, k=k: (t, x[:, keys[k]]
                                             if x.ndim > 2 else None))
    o['t list'] = (lambda p: p['t', [0, -1]], lambda t, x, m: (
        m.fresh((2,)), m.fresh((2,) + x.shape[1:])))
    o['t mask'] = (lambda p: p['t', np.ones(p.shape[0], bool)], o['pcopy'][1])
    o['p list'] = (lambda p: p['p', [0]], lambda t, x, m: (
        t, m.fresh(x.shape[:-1] + (1,))))
    o['v list'] = (lambda p: p['v', [0]], lambda t, x, m: (
        t, m.fresh((x.shape[0], 1) + x.shape[2:]) if x.ndim > 2 else None))
    for s in ((), (7,), (7, 7), (7, 7, 7)):
        def shp(t, x, m, s=s):
            vs = x.shape[1:-1]
            k = len(vs) - len(s)
            if k > 0 and any(i != 1 for i in vs[:k]):
                return t, None
            new = vs[k:] if k >= 0 else (1,)*(-k) + vs
            return t, x.reshape(x.shape[:1] + new + x.shape[-1:])
        o['as %d' % len(s)] = (lambda p, s=s: p.shapeas(s), shp)
        o['as process %d' % len(s)] = (
            lambda p, s=s: p.shapeas(process(c=np.ones(s))), shp)
    o['rebase'] = (lambda p: p.rebase(p.t.copy()), o['pcopy'][1])
    o['pickle'] = (lambda p: process(p.t, x=pickle.loads(pickle.dumps(p))),
                   o['xcopy'][1])
    o['reshape view'] = (lambda p: process(p.t, x=p.reshape(-1).reshape(
        p.shape)) if p.flags.c_contiguous else process(p.t, x=p.x),
        o['same parts'][1])
    o['copy'] = (lambda p: process(p.t, x=p.copy()), o['xcopy'][1])
    o['inplace'] = (lambda p: iadd(p), o['same parts'][1])
    return o


def iadd(p):
    p += 0
    return p


T = table()


def units(tier, seed):
    m = 4
    for k in range(len(BASES)):
        for j in range(m):
            yield dict(u='tree', k=k, j=j, m=m)
    for k in range(len(BIG)):
        for j in range(m):
            yield dict(u='big', k=k, j=j, m=m)
    for k in range(len(BASES)):
        yield dict(u='chain', k=k)
    yield dict(u='shapeas')
    yield dict(u='order')


def run_unit(rec, u):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['u_' + u['u']](rec, **{k: v for k, v in u.items()
                                         if k != 'u'})


class Family:
    def __init__(self, rec, base):
        self.rec, self.m = rec, Model()
        n, vs, pa = base
        self.tid = self.m.fresh((n,))
        self.xid = self.m.fresh((n,) + vs + (pa,))
        p = process(np.zeros(n), x=np.zeros((n,) + vs + (pa,)))
        self.mem = {}
        self.members = []
        self.stamp = 0.
        self.add('base', p, self.tid, self.xid, init=True)

    def add(self, name, p, tid, xid, init=False):
        for ids, a in ((tid, p.t), (xid, p.x)):
            if init:
                self.stamp += 1
                a[...] = self.stamp*100 + np.arange(a.size).reshape(a.shape)
            for i, v in zip(ids.ravel(), np.asarray(a).ravel()):
                self.mem.setdefault(int(i), float(v))
        self.members.append((name, p, tid, xid))

    def derive(self, i, op):
        _, p, tid, xid = self.members[i]
        f, g = T[op]
        t2, x2 = g(tid, xid, self.m)
        self.rec.step()
        if x2 is None:
            self.rec.raises(lambda: f(p), op)
            return False
        if x2.size == 0 or t2.size == 0:
            return False
        # values at the time of the derivation
        q = f(p)
        self.rec.check(type(q) is process and q.shape == x2.shape and
                       q.t.shape == t2.shape, lambda: '%s: shape %s, not %s'
                       % (op, q.shape, x2.shape))
        self.rec.check(q.t is p.t or not (t2 is tid), op +
                       ': timeline not shared by reference')
        if T[op][1] in (T['pcopy'][1], T['xcopy'][1], T['tcopy'][1]) \
                and not (op == 'rebase' and (np.diff(p.t) < 0).any()):
            self.rec.same(np.array(q), np.array(p), op + ': values', 0)
            self.rec.same(np.array(q.t), np.array(p.t), op + ': timeline', 0)
        self.add(op, q, t2, x2)
        return True

    def agree(self, what):
        for name, p, tid, xid in self.members:
            for part, ids, a in (('timeline', tid, p.t),
                                 ('values', xid, p.x)):
                want = np.array([self.mem[int(i)] for i in ids.ravel()]
                                ).reshape(ids.shape)
                self.rec.same(np.asarray(a), want, '%s: %s of %s' % (
                    what, part, name), 0)

    def write(self):
        self.agree('before writing')
        for name, p, tid, xid in self.members:
            for part, ids, a in (('timeline', tid, p.t),
                                 ('values', xid, p.x)):
                for pos in {0, ids.size - 1}:
                    self.stamp += 1
                    i = np.unravel_index(pos, ids.shape)
                    a[i] = -self.stamp
                    self.mem[int(ids[i])] = -self.stamp
                    self.rec.step()
                    self.agree('after writing the %s of %s' % (part, name))


def u_tree(rec, k, j, m):
    depth = 2 if rec.tier == 'quick' else 3
    names = list(T)
    three = [n for n in names if not n.startswith(('np.', '0+p', 'max',
                                                   'as process', 'conj'))]

    def body(seq):
        fam = Family(rec, BASES[k])
        for parent, op in seq:
            if parent >= len(fam.members):
                return
            if not fam.derive(parent, op):
                return
        fam.write()
        rec.state(k, seq)
    for i, op in enumerate(names[j::m]):
        rec.case([k, [[0, op]]], lambda: body([(0, op)]))
        for k2, op2 in enumerate(names):
            for parent in (0, 1):
                seq = [(0, op), (parent, op2)]
                rec.case([k, [list(a) for a in seq]], lambda: body(seq))
                if depth == 3 and op in three and op2 in three:
                    for op3 in three[(i + k2) % 3::3]:
                        seq3 = seq + [(2, op3)]
                        rec.case([k, [list(a) for a in seq3]],
                                 lambda: body(seq3))


def u_big(rec, k, j, m):
    """Larger sizes: each derivation, followed by each of a few"""
    names = list(T)

    def body(seq):
        fam = Family(rec, BIG[k])
        for parent, op in seq:
            if not fam.derive(parent, op):
                return
        fam.write()
        rec.state('big', k, seq)
    for op in names[j::m]:
        rec.case([k, [[0, op]]], lambda: body([(0, op)]))
        for op2 in ('pcopy', 't rev', 'p tail', 'p+0', 'as 2', 'tcopy'):
            seq = [(0, op), (1, op2)]
            rec.case([k, [list(a) for a in seq]], lambda: body(seq))


def u_chain(rec, k):
    """Long chains of derivations, each from the last or from the base"""
    for _ in (0,):
        for op, op2 in itertools.product(
                ('pcopy', 'xcopy', 'tcopy', 'same parts', 't rev', 'p rev',
                 'p+0', 'rebase', 'pickle', 'inplace'), repeat=2):
            for n, star in itertools.product((5, 12, 25), (0, 1)):
                if n == 25 and op != op2:
                    continue
                def body():
                    fam = Family(rec, BASES[k])
                    for i in range(n):
                        fam.derive(0 if star else i, (op, op2)[i % 2])
                    fam.write()
                    rec.state('chain', k, op, op2, n, star)
                rec.case([k, op, op2, n, star], body)


def u_shapeas(rec):
    vss = [()] + [v for r in (1, 2, 3) for v in itertools.product(
        (1, 2), repeat=r)] + [(3,), (3, 1), (1, 3), (1, 1, 3)]
    for vs, target, n, pa, how in itertools.product(
            vss, vss, (1, 2), (1, 2), ('shape', 'process', 'list')):
        def body():
            x = np.arange(float(n*int(np.prod(vs))*pa)).reshape(
                (n,) + vs + (pa,))
            p = process(np.arange(n), x=x)
            arg = {'shape': target, 'list': list(target), 'process':
                   process(c=np.ones(target))}[how]
            k = len(vs) - len(target)
            rec.step()
            rec.state(vs, target, n, pa, how)
            if k > 0 and any(i != 1 for i in vs[:k]):
                rec.raises(lambda: p.shapeas(arg), 'shapeas', ValueError)
            else:
                q = p.shapeas(arg)
                new = vs[k:] if k >= 0 else (1,)*(-k) + vs
                rec.same(np.array(q), x.reshape((n,) + new + (pa,)),
                         'shapeas', 0)
                rec.check(type(q) is process and q.t is p.t,
                          'shapeas: timeline')
                rec.check(np.shares_memory(q, p), 'shapeas: copied')
                # ready to be broadcast, if the remaining axes agree
                other = process(np.arange(n), x=np.ones(
                    (n,) + target + (pa,)))
                if all(a == b or 1 in (a, b) for a, b in zip(
                        q.vshape, other.vshape)) and \
                        len(q.vshape) == len(other.vshape):
                    rec.same(np.array(q + other), q.x + other.x, 'sum', 0)
            rec.same(np.array(p), x, 'original altered', 0)
        rec.case([vs, target, n, pa, how], body)


def u_order(rec):
    """values copied in any memory layout"""
    for n, vs, pa in BASES:
        x = np.arange(float(n*int(np.prod(vs))*pa)).reshape(
            (n,) + vs + (pa,))
        for layout, args, name in itertools.product(
                ('C', 'F', 'rev', 'ro'), ({}, dict(order='F'),
                                          dict(order='C'), dict(order='K')),
                ('pcopy', 'xcopy', 'tcopy')):
            def body():
                y = {'C': x.copy(), 'F': np.array(x, order='F'),
                     'rev': x[::-1, ..., ::-1].copy()[::-1, ..., ::-1],
                     'ro': x.copy()}[layout]
                t = np.arange(float(n))
                if layout == 'ro':
                    y.flags.writeable = t.flags.writeable = False
                p = process(t, x=y)
                q = getattr(p, name)(**args)
                rec.step()
                rec.state(n, vs, pa, layout, str(args), name)
                rec.same(np.array(q), x, 'values', 0)
                rec.same(q.t, t, 'timeline', 0)
                rec.check(np.shares_memory(q, y) == (name == 'tcopy'),
                          'values sharing')
                rec.check((q.t is t) == (name == 'xcopy') and
                          np.shares_memory(q.t, t) == (name == 'xcopy'),
                          'timeline sharing')
                if name != 'tcopy':
                    q[...] = 5
                if name != 'xcopy':
                    q.t[...] = 7
                rec.same(y, x, 'original values', 0)
                rec.same(t, np.arange(float(n)), 'original timeline', 0)
            rec.case([n, vs, pa, layout, str(args), name], body)
