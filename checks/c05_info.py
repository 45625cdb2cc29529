"""C05: diagnostic information, and its absence of side effects."""
import itertools
import numpy as np
import sdepy
from sdepy import SDE, SDEs, integrator, paths_generator, poisson_source
from mc.em import ScriptedSource, histories, em, legs, points
from mc.tape import constant_rng

PROPERTY = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of noise histories x directions x steps with '
             'recording on and off on the real integrator, lockstep with a '
             'reference of the recorded data')
LEVEL_NOTE = ('All 3-letter noise histories up to 4 steps for a family of SDEs '
              'and every preset; two-way integrations as documented (the '
              'information pertains to the forwards part).'
              ' Plus long integrations, counts above 65535, volatilities of 1e-15 of both signs.')
RULE = ('a state is (model, configuration, noise prefix); a trace is a pair of '
        'integrations with recording on and off')

ALPHA = (-2., 0.5, 1.)
TLS = [((0., .5, 2.), None), ((0., 1.), 3), ((0., .5, 2.), (0.25, 1., 1.5, 9.)),
       ((1.,), None), ((0, 1, 3), None), ((0, 4), 3), ((-1., 0., 1.), 5),
       (tuple(np.arange(300)/256), None)]      # counts above 255


def cfgs():
    for k, (tt, steps) in enumerate(TLS):
        for i0 in range(-1, len(tt)) if len(tt) < 9 else (0, 20, -1):
            yield k, i0


def basic_info(rec, info, tt, i0, steps, factor=1):
    L = legs(tt, i0, steps)
    n = [len(o) - 1 for o, _ in L]
    j = i0 % len(tt)
    st = [j, len(tt) - 1 - j]
    both = len(L) == 2
    rec.same(info['t0'], float(tt[j]), 't0')
    rec.same(info['tmin'], float(tt[0]), 'tmin')
    rec.same(info['tmax'], float(tt[-1]), 'tmax')
    rec.check(info['computed_steps'] == factor*sum(n) or
              both and info['computed_steps'] == factor*n[-1],
              lambda: 'computed_steps %s, expected %s' % (
                  info['computed_steps'], factor*sum(n)))
    rec.check(info['stored_steps'] == sum(st) or
              both and info['stored_steps'] == st[1],
              lambda: 'stored_steps %s, expected %s' % (
                  info['stored_steps'], sum(st)))


def units(tier, seed):
    yield dict(u='paths')
    for lg in (False, True):
        for q in (0, 1, 2):
            yield dict(u='sde', q=q, lg=lg)
    for p in ('wiener', 'lognorm', 'oruh', 'hwff', 'hw1f', 'cir', 'heston',
              'heston_xy', 'jumpdiff', 'mjd', 'kou'):
        yield dict(u='preset', name=p)
    yield dict(u='heston')
    yield dict(u='jumps')


def run_unit(rec, u):
    {'paths': u_paths, 'sde': u_sde, 'preset': u_preset, 'heston': u_heston,
     'jumps': u_jumps}[u['u']](rec, u)


def u_paths(rec, u):
    def body(k, i0, sub, getinfo, own):
        tt, steps = TLS[k]
        mine = {'key': 1} if own else None

        class P(paths_generator):
            def begin(self):
                self.itervars['xw'][0][...] = 0

            def next(self):
                sw, xw = self.itervars['sw'], self.itervars['xw']
                if sub == 2 and not self.half:
                    sw[-1] = (sw[-2] + sw[-1])/2
                    self.half = True
                else:
                    self.half = False
                xw[-1][...] = xw[-2] + 1

            def store(self, i, k):
                self.itervars['xx'][i] = self.itervars['xw'][k]
        p = P(paths=2, steps=steps, i0=i0, info=mine, getinfo=getinfo)
        p.half = False
        for rep in range(2):
            t, xx = p(tt)
            rec.step(len(points(tt, steps)) - 1)
            if own:
                rec.check(p.info is mine and mine['key'] == 1, 'own info')
            if getinfo:
                basic_info(rec, p.info, tt, i0, steps, factor=sub)
            else:
                rec.check(p.info == ({'key': 1} if own else {}),
                          'info recorded: %s' % p.info)
        # a further integration on another timeline: the last one counts
        if getinfo:
            p.i0 = 0
            p((5., 6., 9.))
            basic_info(rec, p.info, (5., 6., 9.), 0, steps if steps is None
                       or np.isscalar(steps) else None, factor=sub)
        rec.state(k, i0, sub, getinfo, own)
        # two instances do not share their information
        a, b = P(), P()
        rec.check(a.info is not b.info, 'shared info')
    for (k, i0), sub, g, own in itertools.product(
            cfgs(), (1, 2), (True, False), (True, False)):
        rec.case(['paths', k, i0, sub, g, own],
                 lambda: body(k, i0, sub, g, own))


def u_sde(rec, u):
    q, lg = u['q'], u['lg']
    c = 1/16 if lg else 1.

    def cf(t, xs):
        return [{'dt': c*(xs[(i + 1) % len(xs)] - i*t), 'dw': c*(1 + x/4)}
                for i, x in enumerate(xs)]

    def body(k, i0, vshape, ax):
        tt, steps = TLS[k]
        nst = sum(len(o) - 1 for o, _ in legs(tt, i0, steps))
        m = min(nst, 4)
        hd = np.array(histories(ALPHA, m)).reshape(3**m, -1) if m else \
            np.zeros((1, 1))
        paths = len(hd)
        Q = max(q, 1)
        base = SDEs if q else SDE
        wsh = vshape if not q else (
            vshape + (q,) if ax or vshape == () else
            vshape[:-1] + (vshape[-1]*q,))

        class P(base, integrator):
            addaxis = ax
            log = lg

            def sde(self, t, *xs):
                r = cf(t, xs)
                return r if self.q else r[0]

            def let(self, t, out_x, x):
                self.events.append(('let', float(t)))
                super().let(t, out_x, x)

            def info_begin(self):
                self.events.append(('begin',))
                iv = self.itervars
                rec.check(not any(k.startswith('last') for k in iv),
                          'stale data at begin')

            def info_next(self):
                iv = self.itervars
                rec.check('last_t' in iv, 'no working data')
                self.events.append(('next', float(iv['last_t']),
                                    float(iv['last_dt'])))
                self.data.append((
                    iv['last_t'], iv['last_dt'], iv['last_x'].copy(),
                    {k: np.array(v) for k, v in iv['last_A'].items()},
                    {k: np.array(v) for k, v in iv['last_dZ'].items()},
                    iv['new_x'].copy()))
                rec.same(iv['new_x'], iv['xw'][-1], 'new_x is the new value')

            def info_store(self):
                self.events.append(('store',))

            def info_end(self):
                self.events.append(('end',))
        if q:
            P.q = q
            # a definite signature, as required
            P.sde = {1: lambda self, t, x: cf(t, (x,)),
                     2: lambda self, t, x, y: cf(t, (x, y))}[q]
        else:
            P.sde = lambda self, t, x: cf(t, (x,))[0]
        out = {}
        for g in (True, False):
            dw = ScriptedSource(hd, wsh)
            mine = {}
            p = P(paths=paths, vshape=vshape, steps=steps, i0=i0, dw=dw,
                  getinfo=g, x0=1.5, info=mine)
            p.events, p.data = [], []
            R = p(tt)
            rec.step(nst*paths)
            out[g] = R if q else (R,)
            rec.check(p.info is mine, 'own info dict')
            if not g:
                rec.check(mine == {}, 'info recorded while off: %s' % mine)
                rec.check(all(e[0] == 'let' for e in p.events),
                          'info methods called while off')
                continue
            basic_info(rec, mine, tt, i0, steps)
            # expected sequence of calls and data
            ev, x0 = [], np.full(wsh + (paths,), 1.5)
            if lg:
                x0 = np.log(x0)
            j = 0
            tset = [float(t) for t in tt]
            ref = []
            for order, rev in legs(tt, i0, steps):
                ev.append(('begin',))
                if order[0] in tset:
                    ev += [('let', order[0]), ('store',)]
                x = x0
                for a, b in zip(order[:-1], order[1:]):
                    xs = p.unpack(x) if q else (x,)
                    ds = cf(a, xs)
                    A = {k: (p.pack(tuple(d[k] for d in ds)) if q else
                             ds[0][k]) for k in ('dt', 'dw')}
                    dz = {'dt': b - a, 'dw': dw.value(j, a, b - a)}
                    new = x + A['dt']*dz['dt'] + A['dw']*dz['dw']
                    ref.append((a, b - a, x, A, dz, new))
                    x = new
                    j += 1
                    if b in tset:
                        ev += [('let', b), ('store',)]
                    ev.append(('next', a, b - a))
                ev.append(('end',))
            # the step is recorded when taken, before or after it is stored
            key = sorted
            rec.check(key(e for e in p.events) == key(ev),
                      lambda: 'events %s, expected %s' % (p.events, ev))
            pos = [n for n, e in enumerate(p.events) if e[0] == 'next']
            rec.check([p.events[n] for n in pos] ==
                      [e for e in ev if e[0] == 'next'], 'order of steps')
            rec.check(len(p.data) == len(ref), 'steps recorded')
            for got, want in zip(p.data, ref):
                for w in range(2):
                    rec.same(got[w], want[w], ('last_t', 'last_dt')[w])
                rec.same(got[2], want[2], 'last_x')
                rec.same(got[5], want[5], 'new_x')
                for w in (3, 4):
                    rec.check(set(got[w]) == set(want[w]), 'keys')
                    for id in want[w]:
                        rec.same(np.broadcast_to(got[w][id], x0.shape),
                                 np.broadcast_to(want[w][id], x0.shape),
                                 ('last_A', 'last_dZ')[w - 3])
        for a, b in zip(out[True], out[False]):
            rec.same(a, b, 'values with and without info', tol=0)
        for h in hd:
            rec.state(q, lg, k, i0, vshape, ax, tuple(h))
    for (k, i0), vs, ax in itertools.product(cfgs(), ((), (2,), (2, 3)),
                                             (False, True)):
        if ax and not q:
            continue
        if len(vs) == 2 and k in (2, 6) and rec.tier != 'thorough':
            continue
        rec.case(['sde', q, lg, k, i0, vs, ax], lambda: body(k, i0, vs, ax))


def u_preset(rec, u):
    name = u['name']

    def body(k, i0, vshape):
        tt, steps = TLS[k]
        cls = getattr(sdepy, name)
        outs = []
        for g in (True, False):
            info = {}
            p = cls(paths=4, vshape=vshape, steps=steps, i0=i0, getinfo=g,
                    info=info, rng=np.random.default_rng(3))
            R = [p(tt), p(tt)]
            outs.append([np.array(x) for r in R
                         for x in (r if isinstance(r, tuple) else (r,))])
            if g:
                basic_info(rec, info, tt, i0, steps)
            else:
                rec.check(info == {}, 'info recorded while off')
            rec.step(2*(len(points(tt, steps)) - 1))
        for a, b in zip(*outs):
            rec.same(a, b, 'values with and without info', tol=0)
        rec.state(name, k, i0, vshape)
    for (k, i0), vs in itertools.product(cfgs(), ((), (2,), (2, 2))):
        rec.case(['preset', name, k, i0, vs], lambda: body(k, i0, vs))


def u_heston(rec, u):
    """Counts of negative volatilities at the beginning of each step."""
    def body(name, k, i0, vshape, par):
        y0, theta, kk, xi = par
        tt, steps = TLS[k]
        nst = sum(len(o) - 1 for o, _ in legs(tt, i0, steps))
        m = min(nst, 4)
        hd = np.array(histories(ALPHA, m)).reshape(3**m, -1) if m else \
            np.zeros((1, 1))
        paths = len(hd)
        wsh = (2,) if vshape == () else vshape[:-1] + (2*vshape[-1],)
        dw = ScriptedSource(hd, wsh)
        p = getattr(sdepy, name)(paths=paths, vshape=vshape, steps=steps,
                                 i0=i0, dw=dw, x0=1., y0=y0, theta=theta, k=kk,
                                 xi=xi)
        for rep in range(2):
            dw.reset()
            p(tt)
            j = 0
            for order, rev in legs(tt, i0, steps):
                y = np.full(vshape + (paths,), y0)
                cnt = np.zeros(vshape + (paths,), int)
                for a, b in zip(order[:-1], order[1:]):
                    cnt += y < 0
                    yp = np.maximum(y, 0)
                    z = dw.value(j, a, b - a)
                    zy = z[1] if vshape == () else z[..., vshape[-1]:, :]
                    y = y + kk*(theta - yp)*(b - a) + xi*np.sqrt(yp)*zy
                    j += 1
            rec.same(p.info['negative_y_count'], cnt, 'negative_y_count')
            if nst > 2 and rep == 0 and y0:
                rec.count('negative volatility seen', int(cnt.sum() > 0))
            rec.step(nst*paths)
        for h in hd:
            rec.state(name, k, i0, vshape, par, tuple(h))
    # zero is not negative: variance null throughout, or starting at zero
    pars = ((.25, .25, .5, 1.25), (0., 0., 1., 1.), (0., .25, .5, 1.25),
            (-1., .25, 0., 1.), (-1e-15, .25, 0., 1.), (1e-15, 0., 0., 1e-9))
    # negative throughout, or by as little as possible
    for (k, i0), vs, name, par in itertools.product(
            cfgs(), ((), (2,), (2, 1)), ('heston', 'heston_xy'), pars):
        rec.case(['heston', name, k, i0, vs, par],
                 lambda: body(name, k, i0, vs, par))


def u_jumps(rec, u):
    """Jump counts and rates, for all histories of jump counts."""
    def body(name, k, i0, vshape, many):
        tt, steps = TLS[k]
        nst = sum(len(o) - 1 for o, _ in legs(tt, i0, steps))
        m = min(nst, 4)
        hd = np.array(histories((0, 1, 300 if many else 3), m)).reshape(3**m, -1) if m else \
            np.zeros((1, 1))
        paths = len(hd)
        st = [0]

        def poisson(lam):
            c = np.broadcast_to(hd[:, st[0] % hd.shape[1]], lam.shape)
            st[0] += 1
            return c
        rng = constant_rng(normal=.5, uniform=.25, expo=1., poisson=poisson)
        p = getattr(sdepy, name)(
            paths=paths, vshape=vshape, steps=steps, i0=i0, rng=rng)
        for rep in range(2):
            st[0] = 0
            p(tt)
            L = legs(tt, i0, steps)
            j = sum(len(o) - 1 for o, _ in L[:-1])
            order, rev = L[-1]
            cnt = np.zeros(paths)
            rate = []
            tset = [float(t) for t in tt]
            acc, t_last = 0., order[0]
            for a, b in zip(order[:-1], order[1:]):
                c = hd[:, j % hd.shape[1]]
                j += 1
                cnt = cnt + c
                acc += c.sum()*int(np.prod(vshape))
                if b in tset:
                    rate.append(acc/abs(b - t_last)/paths)
                    acc, t_last = 0., b
            rec.same(np.abs(p.info['jump_count']),
                     np.broadcast_to(cnt, vshape + (paths,)), 'jump_count')
            if not rev:
                rec.check((p.info['jump_count'] >= 0).all(), 'sign of count')
                rate = rate + rate[-1:] if rate else [0.]
                rec.same(p.info['jump_rate'], np.array(rate), 'jump_rate')
            rec.step(nst*paths)
        for h in hd:
            rec.state(name, k, i0, vshape, tuple(h))
    for (k, i0), vs, name in itertools.product(
            cfgs(), ((), (2,), (2, 1)), ('jumpdiff', 'mjd', 'kou')):
        rec.case(['jumps', name, k, i0, vs],
                 lambda: body(name, k, i0, vs, False))
    for (k, i0), name in itertools.product(cfgs(), ('jumpdiff', 'mjd', 'kou')):
        rec.case(['many jumps', name, k, i0],
                 lambda: body(name, k, i0, (), True))
