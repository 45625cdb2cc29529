"""C11: randomness comes only from the given generator, and is reproducible."""
import hashlib
import itertools
import json
import os
import pickle
import random
import subprocess
import sys
import numpy as np
import sdepy
import sdepy.infrastructure as infra

PROPERTY = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of call histories and of all interleavings of two '
             'instances over all entry points, comparing twin executions from equal '
             'generator states and watching every other generator')
LEVEL_NOTE = ('All histories of up to 3 calls per source and of up to 2 integrations per '
              'process; all 20 interleavings of 3 calls of two instances; every kind of '
              'generator; several hash seeds. Other randomness is detected through '
              'irreproducible results or changed state of the default and global '
              'generators.')
RULE = ('a state is (entry point, generator kind, history or interleaving); a '
        'transition is one call')

Y = {
    'none': lambda: None,
    'norm': lambda: sdepy.norm_rv(a=1, b=2),
    'unif': lambda: sdepy.uniform_rv(a=0, b=2),
    'exp': lambda: sdepy.exp_rv(a=2.),
    'dexp': lambda: sdepy.double_exp_rv(a=2., b=3., pa=.5),
    'tnorm': lambda: sdepy.norm_rv(a=lambda t: t, b=1.),
    'tdexp': lambda: sdepy.double_exp_rv(a=lambda t: 2 + t*t, b=3., pa=.5),
    'arr': lambda: sdepy.norm_rv(a=np.array([[1.], [2.]]), b=1.),
    'dexparr': lambda: sdepy.double_exp_rv(a=np.array([[1.], [2.]]), b=1.,
                                           pa=.5),
    'map': lambda: sdepy.rvmap(np.exp, sdepy.norm_rv()),
    'tmap': lambda: sdepy.rvmap(lambda t, y: t*y, sdepy.exp_rv(a=1.)),
    'scipy': lambda: __import__('scipy.stats').stats.gamma(2.),
}
C2 = np.array([[1., .5], [.5, 1.]])


def sources():
    out = {}
    for pre in ('wiener_source', 'dw', 'odd_wiener_source', 'odd_dw',
                'true_wiener_source', 'true_dw'):
        for c, kw in (('', {}), ('corr', dict(corr=C2)), ('rho', dict(rho=.5)),
                      ('tcorr', dict(corr=lambda t: C2*1.))):
            out[pre + c] = (pre, kw)
    for pre in ('poisson_source', 'dn', 'even_poisson_source', 'even_dn',
                'true_poisson_source', 'true_dn'):
        out[pre] = (pre, dict(lam=2.))
        out[pre + 't'] = (pre, dict(lam=lambda t: 2 + t))
        out[pre + 'a'] = (pre, dict(lam=np.array([[1.], [2.]])))
    for pre in ('cpoisson_source', 'even_cpoisson_source',
                'true_cpoisson_source', 'dj', 'even_dj', 'true_dj'):
        for y in Y:
            out[pre + y] = (pre, dict(lam=2., y=y))
    for pre in ('cpoisson_source', 'dj'):
        out[pre + 'dnclass'] = (pre, dict(lam=2., y='norm',
                                          dn=sdepy.poisson_source))
    return out


def make_source(name, **kw):
    cls, args = sources()[name]
    args = dict(args)
    if isinstance(args.get('y'), str):
        args['y'] = Y[args['y']]()
    return getattr(sdepy, cls)(paths=4, vshape=(2,), **args, **kw)


PROCESSES = {
    'wiener_process': {}, 'lognorm_process': {},
    'ornstein_uhlenbeck_process': {}, 'hull_white_process': dict(factors=2),
    'hull_white_1factor_process': {}, 'cox_ingersoll_ross_process': dict(x0=1.),
    'full_heston_process': {}, 'heston_process': {}, 'jumpdiff_process': {},
    'merton_jumpdiff_process': dict(lam=3.), 'kou_jumpdiff_process':
    dict(lam=3., a=.5, b=.5, pa=.5),
    'wiener': dict(vshape=(2,), rho=.5), 'lognorm': {}, 'oruh': {}, 'hwff': {},
    'hw1f': {}, 'cir': {}, 'heston': {}, 'heston_xy': {}, 'jumpdiff':
    dict(lam=4.), 'mjd': {}, 'kou': {},
}


def many_sources():
    """an SDE with several sources of its own"""
    class many(sdepy.SDE):
        sources = {'dt', 'dw', 'zeta', 'alpha', 'jump'}

        def sde(self, t, x, k=1.):
            return {'dt': k, 'dw': 1., 'zeta': 2., 'alpha': 3., 'jump': 1.}

        def source_zeta(self):
            return self.source_dw()

        def source_alpha(self):
            return self.source_dw(dw=sdepy.odd_wiener_source)

        def source_jump(self):
            return self.source_dj(dn=None, ptype=int, lam=3.,
                                  y=sdepy.norm_rv())

    class many_process(many, sdepy.integrator):
        pass
    return many_process


def user_sde(sources, log=False, q=None):
    @sdepy.integrate(q=q, sources=sources, log=log)
    def f(t, x):
        A = {'dt': .5, 'dw': 1., 'dn': .25, 'dj': .5}
        A = {k: v for k, v in A.items() if k in sources}
        return A
    return f


def make_process(name, **kw):
    if name == 'many':
        return many_sources()(paths=4, **kw)
    if name.startswith('user'):
        src = {'userw': {'dw'}, 'userall': {'dt', 'dw', 'dn', 'dj'},
               'userj': {'dt', 'dj'}}[name]
        return user_sde(src)(paths=4, **kw)
    args = dict(PROCESSES[name])
    args.update(kw)
    return getattr(sdepy, name)(paths=4, **args)


ALL_PROCESSES = list(PROCESSES) + ['many', 'userw', 'userall', 'userj']

GENERATORS = {
    'PCG64': lambda s: np.random.default_rng(s),
    'MT': lambda s: np.random.Generator(np.random.MT19937(s)),
    'RandomState': lambda s: np.random.RandomState(s),
}
CALLS = {'a': (0., 1.), 'b': (1., -.5), 'c': (np.array([.5, 2.]), .5)}
TIMELINES = {'t': (0., .5, 1.), 'u': (1., 1.5, 2., 3.)}


def state(rng):
    """hashable state of a generator"""
    if isinstance(rng, np.random.RandomState):
        return repr(rng.get_state(legacy=False))
    return repr(rng.bit_generator.state)


class Quiet:
    """no generator other than the given one may be used"""

    def __init__(self, rec, own=None):
        self.rec, self.own = rec, own

    def look(self):
        out = {'numpy.random': repr(np.random.get_state(legacy=False)),
               'random': random.getstate()}
        if infra.default_rng is not self.own:
            out['default'] = state(infra.default_rng)
        return out

    def __enter__(self):
        self.before = self.look()

    def __exit__(self, *e):
        if e[0] is None:
            after = self.look()
            for k in after:
                self.rec.check(after[k] == self.before[k],
                               'the %s generator was used' % k)


def flat(x):
    if isinstance(x, tuple):
        return np.concatenate([flat(i) for i in x])
    return np.asarray(x, float).ravel()


def source_history(name, rng, history, **kw):
    s = make_source(name, rng=rng, **kw)
    return s, [flat(s(*CALLS[c])) for c in history]


def source_unit(rec, name):
    histories = [h for n in (1, 2, 3) for h in itertools.product(
        CALLS, repeat=n)]
    if rec.tier == 'quick':
        histories = [('a',), ('b', 'a'), ('c', 'a', 'b'), ('a', 'c', 'a'),
                     ('b', 'c', 'b')]
    for g, h in itertools.product(GENERATORS, histories):
        def run():
            rec.state(name, g, h)
            rec.step(2*len(h))
            out = []
            for rep in range(2):
                rng = GENERATORS[g](5)
                with Quiet(rec, rng):
                    s, z = source_history(name, rng, h)
                rec.check(s.rng is rng, 'rng attribute is not the given one')
                out.append((z, state(rng)))
                rec.check(out[-1][1] != state(GENERATORS[g](5)),
                          'the given generator was not used')
            rec.same(np.concatenate(out[0][0]), np.concatenate(out[1][0]),
                     'same state, same history', tol=0)
            rec.check(out[0][1] == out[1][1], 'final generator states')
        rec.case([name, g, h], run)
    def default():
        saved = infra.default_rng
        try:
            z = []
            for g in GENERATORS:
                infra.default_rng = rng = GENERATORS[g](5)
                with Quiet(rec, rng):
                    s, a = source_history(name, None, ('a', 'c'))
                rec.check(s.rng is rng, 'rng attribute is not the default')
                b = source_history(name, GENERATORS[g](5), ('a', 'c'))[1]
                rec.same(np.concatenate(a), np.concatenate(b),
                         'default generator', tol=0)
                rec.state(name, g, 'default')
        finally:
            infra.default_rng = saved
    rec.case([name, 'default'], default)

    def readonly():
        s = make_source(name, rng=np.random.default_rng(1))
        try:
            s.rng = np.random.default_rng(2)
        except AttributeError:
            pass
        else:
            rec.fail('rng attribute set on an existing source')
    rec.case([name, 'readonly'], readonly)


def process_unit(rec, name):
    for g, h in itertools.product(GENERATORS, (('t',), ('t', 't'),
                                               ('u', 't'))):
        def run():
            rec.state(name, g, h)
            rec.step(2*len(h))
            out = []
            for rep in range(2):
                rng = GENERATORS[g](5)
                with Quiet(rec, rng):
                    p = make_process(name, rng=rng)
                    z = np.concatenate([flat(p(np.array(TIMELINES[k])))
                                        for k in h])
                rec.check(p.rng is rng, 'rng attribute is not the given one')
                rec.check(state(rng) != state(GENERATORS[g](5)),
                          'the given generator was not used')
                out.append((z, state(rng)))
            rec.same(out[0][0], out[1][0], 'same state, same history', tol=0)
            rec.check(out[0][1] == out[1][1], 'final generator states')
        rec.case([name, g, h], run)

    def default():
        saved = infra.default_rng
        try:
            for g in GENERATORS:
                infra.default_rng = rng = GENERATORS[g](5)
                with Quiet(rec, rng):
                    p = make_process(name)
                    a = flat(p(np.array(TIMELINES['t'])))
                rec.check(p.rng is rng, 'rng attribute is not the default')
                b = flat(make_process(name, rng=GENERATORS[g](5))(
                    np.array(TIMELINES['t'])))
                rec.same(a, b, 'default generator', tol=0)
                rec.state(name, g, 'default')
        finally:
            infra.default_rng = saved
    rec.case([name, 'default'], default)


def interleavings(rec, make, calls, key):
    """two instances, three calls each, in all 20 orders"""
    def alone(seed):
        x = make(np.random.default_rng(seed))
        return [flat(x(*c)) for c in calls]
    want = {0: alone(1), 1: alone(2)}
    for who in sorted(set(itertools.permutations((0, 0, 0, 1, 1, 1)))):
        def run():
            rec.state(key, who)
            xs = [make(np.random.default_rng(1)),
                  make(np.random.default_rng(2))]
            k = [0, 0]
            for i in who:
                rec.step()
                rec.same(flat(xs[i](*calls[k[i]])), want[i][k[i]],
                         'instance %d, call %d' % (i, k[i]), tol=0)
                k[i] += 1
        rec.case([key, who], run)


class NotGen:
    pass


BAD = {'int': 3, 'zero': 0, 'npint': np.int64(3), 'int32': np.int32(3),
       'uint8': np.uint8(3), 'bool': True, 'list': [1, 2], 'tuple': (1, 2),
       'array': np.arange(3), 'array0': np.array(3), 'float': 1.5, 'str': 'x',
       'seq': np.random.SeedSequence(3), 'bitgen': np.random.PCG64(3),
       'object': NotGen(), 'class': np.random.Generator, 'dict': {}}


def rejected(rec):
    for name in sources():
        for b in BAD:
            def use():
                s = make_source(name, rng=BAD[b])
                return s(0., 4.)
            rec.case([name, b], lambda: (rec.raises(
                use, 'rng=%r accepted' % (BAD[b],)), rec.state(name, b)))
    for name in ('cpoisson_source', 'dj', 'true_cpoisson_source', 'true_dj'):
        for b, y in itertools.product(BAD, Y):
            def use():
                r = np.random.default_rng(1)
                dn = (sdepy.true_dn if 'true' in name else sdepy.dn)(
                    paths=4, vshape=(2,), lam=9., rng=r)
                s = getattr(sdepy, name)(paths=4, vshape=(2,), dn=dn,
                                         y=Y[y](), rng=BAD[b])
                return s(0., 4.)
            rec.case([name, 'dn', b, y], lambda: (rec.raises(
                use, 'rng=%r accepted' % (BAD[b],)),
                rec.state(name, 'dn', b, y)))
    for name in ALL_PROCESSES:
        for b in BAD:
            def use():
                return make_process(name, rng=BAD[b])(np.array([0., 1.]))
            rec.case([name, b], lambda: (rec.raises(
                use, 'rng=%r accepted' % (BAD[b],)), rec.state(name, b)))


def digest():
    """everything, once, from a given seed (run in separate interpreters)"""
    out = {}
    for name in ALL_PROCESSES:
        p = make_process(name, rng=np.random.default_rng(3))
        out[name] = hashlib.md5(flat(p(np.array((0., .5, 1.)))).tobytes()
                                ).hexdigest()
    for name in sources():
        s, z = source_history(name, np.random.default_rng(3), 'abc')
        out[name] = hashlib.md5(np.concatenate(z).tobytes()).hexdigest()
    return out


def hashseeds(rec, seeds):
    code = ('import sys, json; sys.path[:0] = %r; import warnings;'
            'warnings.simplefilter("ignore");'
            'from checks import c11_rng; print(json.dumps(c11_rng.digest()))'
            % sys.path[:6])
    got = {}
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        r = subprocess.run([sys.executable, '-c', code], env=env,
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[-800:])
        got[s] = json.loads(r.stdout.splitlines()[-1])
    for name in got[seeds[0]]:
        def run():
            rec.state('hash', name)
            rec.step(len(seeds))
            rec.check(len({got[s][name] for s in seeds}) == 1,
                      'results depend on the hash seed of the interpreter')
        rec.case(['hashseed', name], run)


def other_entry_points(rec):
    """random variates, given a generator; montecarlo and processes, which
    use none"""
    for y in Y:
        def run():
            rv = Y[y]()
            if rv is None:
                return
            rv = rv(.5) if callable(rv) and not hasattr(rv, 'rvs') else rv
            out = []
            for rep in range(2):
                rng = np.random.default_rng(4)
                with Quiet(rec, rng):
                    out.append(rv.rvs(size=(2, 3), random_state=rng))
                rec.check(state(rng) != state(np.random.default_rng(4)),
                          'random_state not used')
            rec.same(out[0], out[1], 'variates', tol=0)
            rec.step(2)
        rec.case(['rv', y], run)

    def no_rng():
        rng = np.random.default_rng(1)
        with Quiet(rec):
            p = sdepy.process((0., 1.), x=rng.normal(size=(2, 3, 50)))
            p.interp()(.5), p.pmean(), p.chf(1.), p.cdf(0.)
            m = sdepy.montecarlo(p[1], bins=10)
            m.update(p[0])
            m.mean(), m[0].pdf(0.), m[0].cdf(0.), m[0].mean()
            sdepy.piecewise((0., 1.), v=(1., 2.))(.5)
            rec.step(10)
    rec.case(['no generator needed'], no_rng)


def units(tier, seed):
    names = list(sources())
    out = [dict(u='source', k=k) for k in range(12)]
    out += [dict(u='process', k=k) for k in range(8)]
    out += [dict(u='inter', k=k) for k in range(8)]
    out += [dict(u='rejected'), dict(u='other'), dict(u='hash')]
    return out


def run_unit(rec, u):
    if u['u'] == 'source':
        for name in list(sources())[u['k']::12]:
            source_unit(rec, name)
    elif u['u'] == 'process':
        for name in ALL_PROCESSES[u['k']::8]:
            process_unit(rec, name)
    elif u['u'] == 'inter':
        calls = [CALLS[c] for c in 'abc']
        for name in list(sources())[u['k']::8]:
            interleavings(rec, lambda rng: make_source(name, rng=rng), calls,
                          name)
        tl = [(np.array(TIMELINES[k]),) for k in 'tut']
        for name in ALL_PROCESSES[u['k']::8]:
            interleavings(rec, lambda rng: make_process(name, rng=rng), tl,
                          name)
    elif u['u'] == 'rejected':
        rejected(rec)
    elif u['u'] == 'hash':
        hashseeds(rec, list(range(6 if rec.tier == 'thorough' else 3)))
    else:
        other_entry_points(rec)
