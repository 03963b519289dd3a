"""C21: evaluations are pure."""
import sys
import threading

import numpy as np
import pandas as pd
import sunwhere

from pbt import api, cmp, gen, model, views
from pbt.core import Violation

ID = 'C21'
RULE = ('a case is a history: a pool of evaluations that are easily mistaken for each other (same sizes, ends, '
        'sums, objects) and a list of operations on them (evaluate, read views, fail, overwrite arguments or '
        'views, evaluate in threads); oracle: reference models of the algorithms and formulas of the views, '
        'after every operation; non-trivial: at least two evaluations and one read')
ASSUMPTIONS = ['pbt/ref.py and pvlib as in C01 and C03']
NAMES = [n for n in views.ALL]
MUTABLE = ['zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz', 'declination', 'dec']
BAD = [dict(lat=[91.]), dict(lon=[200.]), dict(alg='nope'), dict(eng='fortran')]


class World:

    def __init__(self, case):
        self.pool = case['pool']
        self.slots = {}             # slot -> [case, result, arrays, base]

    def arrays(self, c, form):
        t, lat, lon = api.dt64(c['t']), api.floats(c['lat']), api.floats(c['lon'])
        if form == 1:
            t = t.astype('datetime64[ns]')
        if form == 2:
            t = pd.DatetimeIndex(t)
        if form == 3:
            for a in (t, lat, lon):
                a.setflags(write=False)
        if form == 4:
            wide = [np.repeat(a, 2) for a in (t, lat, lon)]      # strided views
            t, lat, lon = (a[::2] for a in wide)
        if form == 5:
            t = pd.DatetimeIndex(t).tz_localize('UTC').tz_convert('Asia/Tokyo')
        return t, lat, lon

    def run(self, c, args):
        before = [np.array(a) for a in args]
        kw = dict(algorithm=c['alg'], engine=c['eng'], refraction=c['refr'])
        sw = getattr(sunwhere, c['usecase'])(*args, **kw)
        for name, a, b in zip(('times', 'latitude', 'longitude'), args, before):
            if not np.array_equal(np.array(a), b):
                raise Violation(f'evaluating modified the {name} of the caller ({cmp.config_text(c)})')
        return sw

    def evaluate(self, slot, i, form):
        c = self.pool[i % len(self.pool)]
        args = self.arrays(c, form)
        sw = self.run(c, args)
        c = dict(c, tz='Asia/Tokyo' if form == 5 else None)
        self.keep(slot, c, sw, args, form)

    def keep(self, slot, c, sw, args, form=0):
        model.check_base(c, sw)
        self.slots[slot] = [c, sw, args, model.base(c, sw), form]

    def reuse(self, slot, i):
        """the same array objects, overwritten in place with another evaluation's inputs"""
        if slot not in self.slots:
            return
        c, sw, args, b, form = self.slots[slot]
        new = self.pool[i % len(self.pool)]
        if form not in (0, 1, 4) or any(len(c[k]) != len(new[k]) for k in ('t', 'lat', 'lon')):
            return
        args[0][:], args[1][:], args[2][:] = api.dt64(new['t']), api.floats(new['lat']), api.floats(new['lon'])
        self.check(slot, ['zenith', 'true_solar_time', 'incidence(30,20)', 'sunrise(utc)'])
        sw = self.run(new, args)
        self.keep(slot, dict(new, tz=None), sw, args, form)

    def modify(self, slot, what):
        """the same array objects again, some of them modified in place"""
        if slot not in self.slots:
            return
        c, sw, args, b, form = self.slots[slot]
        if form not in (0, 1, 4):
            return
        new = dict(c)
        if 't' in what:
            new['t'] = [x + 7201 + 13*i for i, x in enumerate(c['t'])]
            args[0][:] = api.dt64(new['t'])
        if 'lat' in what:
            new['lat'] = [-x/2 - 1 for x in c['lat']]
            args[1][:] = new['lat']
        if 'lon' in what:
            new['lon'] = [x/2 + 3 for x in c['lon']]
            args[2][:] = new['lon']
        sw = self.run(new, args)
        self.keep(slot, new, sw, args, form)

    def overwrite(self, slot):
        """the caller overwrites its arrays"""
        if slot not in self.slots:
            return
        args, form = self.slots[slot][2], self.slots[slot][4]
        if form in (0, 1, 4):
            args[0][...] = np.datetime64(12345, 's')
        if form in (0, 1, 2, 4, 5):
            args[1][...] = 17.
            args[2][...] = -17.
        self.check(slot, ['zenith', 'azimuth', 'true_solar_time', 'sunset(local)', 'sunrise(deg)', 'incidence(30,20)'])

    def spoil(self, slot, names):
        """the caller overwrites what views returned"""
        if slot not in self.slots:
            return
        sw = self.slots[slot][1]
        for n in names:
            a = views.get(sw, n)
            if n in MUTABLE and a.values.flags.writeable:
                a.values[...] = -1.
        self.check(slot, names + ['elevation', 'zenith', 'declination', 'cosz', 'eth(none)', 'sunrise(deg)'])

    def check_if(self, slot, names):
        if slot in self.slots:
            self.check(slot, names)

    def check(self, slot, names):
        c, sw, args, b, form = self.slots[slot]
        before = [np.array(a) for a in args]
        for n in names:
            model.check_view(c, sw, b, n)
        for name, a, x in zip(('times', 'latitude', 'longitude'), args, before):
            if not np.array_equal(np.array(a), x):
                raise Violation(f'reading {names} modified the {name} of the caller ({cmp.config_text(c)})')

    def fail(self, i, j):
        c = dict(self.pool[i % len(self.pool)], **BAD[j % len(BAD)])
        try:
            api.call(c)
        except (ValueError, AssertionError):
            return
        raise Violation(f'an invalid evaluation succeeded: {BAD[j % len(BAD)]} ({cmp.config_text(c)})')

    def threads(self, idx, reads):
        out, errors = {}, []
        gate = threading.Barrier(len(idx))

        def work(k):
            try:
                c = dict(self.pool[idx[k] % len(self.pool)], tz=None)
                gate.wait()
                for _ in range(3):
                    sw = api.call(c)
                    model.check_base(c, sw)
                    b = model.base(c, sw)
                    for n in reads:
                        model.check_view(c, sw, b, n, ' in a thread')
                out[k] = sw
            except Exception as exc:
                errors.append(exc)
        for k in idx:       # (the reference is computed beforehand, in this thread)
            model.predict(self.pool[k % len(self.pool)])
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(idx))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]


def history(case, ctx):
    w = World(case)
    nev = nrd = 0
    for op, *args in case['ops']:
        getattr(w, op)(*args)
        nev += op in ('evaluate', 'reuse', 'modify', 'threads')
        nrd += op in ('check', 'spoil', 'overwrite')
        if op == 'check_if':
            nrd += 1
    # everything that is still around
    for slot, (c, sw, *_) in w.slots.items():
        model.check_base(c, sw)
        w.check(slot, ['zenith', 'true_solar_time', 'incidence(30,20)', 'eth(none)', 'sunset(utc)'])
    if nev > 1 and nrd:
        ctx.nontrivial(sum(len(api.cells(c)[0]) for c, *_ in w.slots.values()))


def alike(name, a, b):
    """the same up to the last digits (amplified in some cells of azimuth and derived views)"""
    if a.shape != b.shape:
        return False
    if a.dtype.kind == 'M':
        miss = np.isnat(a) != np.isnat(b)
        d = np.abs((a - b)/np.timedelta64(1, 'ms'))
        off = miss | (~np.isnat(a) & ~miss & ~(d < 10))
    else:
        miss = np.isnan(a) != np.isnan(b)
        off = miss | (~np.isnan(a) & ~miss & ~(np.abs(a - b) <= 1e-5*(1 + np.abs(a))))
    return off.mean() <= (0 if name in STRICT else .002)


STRICT = ('zenith', 'declination', 'eot', 'ecf')


def race(case, ctx):
    """simultaneous evaluations of the same size and options at other instants and places give what
    they give one after another"""
    n, m, reps = case['n'], case['m'], case['reps']

    def inputs(k):
        rng = np.random.default_rng([case['seed'], k])
        nloc = n if case['usecase'] == 'transect' else m
        return (api.dt64(rng.integers(gen.unix(1960), gen.unix(2050), n)),
                rng.uniform(-89, 89, nloc), rng.uniform(-180, 180, nloc))

    def evaluate(args):
        sw = getattr(sunwhere, case['usecase'])(*args, algorithm=case['alg'], engine=case['eng'],
                                                refraction=case['refr'])
        return [api.raw(getattr(sw, v)) for v in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')] + \
            [api.raw(views.get(sw, v)) for v in case['reads']]
    args = [inputs(k) for k in range(case['threads'])]
    want = [evaluate(a) for a in args]
    errors, gate = [], threading.Barrier(len(args))

    def work(k):
        try:
            gate.wait()
            for _ in range(reps):
                for name, a, b in zip(['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + case['reads'],
                                      want[k], evaluate(args[k])):
                    if not alike(name, a, b):
                        raise Violation(f'{name} of {case["usecase"]}, {case["alg"]}/{case["eng"]} is different '
                                        'when evaluated at the same time as others')
        except Exception as exc:
            errors.append(exc)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(args))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    ctx.nontrivial(n*m*len(args)*reps)


CHECKS = {'history': history, 'race': race}


KINDS = 16


def alter(rng, c, what):
    """an evaluation that a cache could mistake for `c`"""
    c = {k: (list(v) if isinstance(v, list) else v) for k, v in c.items()}
    if what == 0:
        c['alg'] = str(rng.choice(api.ALGS))
        c['eng'] = str(rng.choice(api.ENGINES[c['alg']]))
    elif what == 1:
        c['eng'] = str(rng.choice(api.ENGINES[c['alg']]))
        c['refr'] = not c['refr']
    elif what == 2:
        c['refr'] = not c['refr']
    elif what == 3:                                  # another interior, same ends
        for i in range(1, len(c['t']) - 1):
            c['t'][i] += int(rng.integers(-40000, 40000))
    elif what == 4:
        for k in ('lat', 'lon'):
            for i in range(1, len(c[k]) - 1):
                c[k][i] = float(rng.uniform(-80, 80))
    elif what == 5:                                  # permutations
        k = str(rng.choice(['t', 'lat', 'lon']))
        c[k] = [c[k][i] for i in rng.permutation(len(c[k]))]
    elif what == 6 and len(c['lat']) == len(c['lon']) and max(np.abs(c['lon'])) <= 90:
        c['lat'], c['lon'] = c['lon'], c['lat']
    elif what == 7:
        d = int(rng.choice([1, 60, 3600, 86400, 31536000]))
        c['t'] = [x + d for x in c['t']]
    elif what == 8:
        c['lon'] = [x + 10. if x < 170 else x - 300. for x in c['lon']]
    elif what == 9:
        c['lat'] = [-x for x in c['lat']]
    elif what == 10 and len(c['t'])*len(c['lat'])**2 < 5000:
        if len(c['lat']) == len(c['lon']):
            c['usecase'] = str(rng.choice(['sites', 'regular_grid']))
            if len(c['t']) == len(c['lat']):
                c['usecase'] = str(rng.choice(api.USECASES))
    elif what == 11:                                 # one instant, or one place
        k = str(rng.choice(['t', 'lat', 'lon']))
        i = int(rng.integers(0, len(c[k])))
        c[k][i] = c[k][i] + 86400*7 + 3601 if k == 't' else float(rng.uniform(-80, 80))
    elif what == 12:                                 # equal when rounded, or in single precision
        for k in ('lat', 'lon'):
            c[k] = [float(np.float32(x*.999)) + d for x, d in zip(c[k], rng.uniform(2e-4, 4e-4, len(c[k])))]
    elif what == 13 and len(c['t']) > 1:             # the same sum
        c['t'][0] += 5000
        c['t'][-1] -= 5000
    elif what == 15:                                 # a few meters, or seconds, away
        d = .4*10.**-int(rng.integers(1, 5))
        for f in (['lat'], ['lon'], ['lat', 'lon'], ['lat', 't'])[int(rng.integers(0, 4))]:
            c[f] = [x + int(rng.integers(1, 30)) for x in c[f]] if f == 't' else [x - d*np.sign(x) for x in c[f]]
    elif what == 14:                                 # the same day, or hour
        c['t'] = [x - x % 3600 + int(rng.integers(0, 3600)) for x in c['t']]
    return c


def lookalikes(rng, n, size):
    """evaluations that a cache could mistake for each other"""
    pool = [gen.numeric(rng, 0, cells=size, lo=gen.unix(1950), hi=gen.unix(2060))]
    while len(pool) < n:
        pool.append(alter(rng, pool[int(rng.integers(0, len(pool)))], int(rng.integers(0, KINDS))))
    return pool


def mistaken(rng, k):
    """one evaluation and all that could be mistaken for it, in turns"""
    alg, eng = api.CONFIGS[k % 7]
    use = api.USECASES[(k // 7) % 3]
    while True:
        c = gen.numeric(rng, 0, cells=60, lo=gen.unix(1950), hi=gen.unix(2060), usecase=use)
        if min(len(c['t']), len(c['lat'])) > 2:
            break
    c = dict(c, alg=alg, eng=eng)
    if rng.random() < .7:       # places of a few decimals
        digits = int(rng.integers(1, 5))
        c['lat'], c['lon'] = [round(x, digits) for x in c['lat']], [min(round(x, digits), 179.9) for x in c['lon']]
    pool, ops = [c], [['evaluate', 0, 0, int(rng.integers(0, 6))]]
    for what in rng.permutation(list(range(KINDS)) + [15, 15]):
        pool.append(alter(rng, c, int(what)))
        form = int(rng.integers(0, 6))
        ops.append(['evaluate', 1, len(pool) - 1, form])
        if rng.random() < .3:
            ops.append(['check_if', 1, [str(x) for x in rng.choice(NAMES, 2, replace=False)]])
        ops.append(['evaluate', 2, 0, int(rng.integers(0, 6))])
    return dict(pool=pool, ops=ops)


def run(ctx):
    def one(size, nops):
        def g(rng, k):
            pool = lookalikes(rng, int(rng.integers(2, 6)), size)
            if rng.random() < .35:      # as many times as locations: all use cases take them
                n = int(rng.integers(1, 6))
                c = gen.numeric(rng, k, cells=n, usecase='transect', lo=gen.unix(1950), hi=gen.unix(2060))
                pool = [dict(c, usecase=u, refr=r, alg=a, eng=e) for u in api.USECASES for r in (True, False)
                        for a, e in (('psa', 'numexpr'), ('nrel', 'numexpr'), ('psa', 'numpy'))]
                pool = [pool[i] for i in rng.permutation(len(pool))[:6]]
            ops = [['evaluate', 0, 0, int(rng.integers(0, 6))]]
            for _ in range(nops):
                r, s, i = rng.random(), int(rng.integers(0, 3)), int(rng.integers(0, 99))
                names = [str(x) for x in rng.choice(NAMES, int(rng.integers(1, 4)), replace=False)]
                if r < .4:
                    ops.append(['evaluate', s, i, int(rng.integers(0, 6))])
                    if rng.random() < .4:
                        ops.append(['modify', s, [['t'], ['t'], ['lat'], ['lon'], ['t', 'lat', 'lon'], []]
                                    [int(rng.integers(0, 6))]])
                elif r < .62:
                    ops += [['check_if', s, names]]
                elif r < .72:
                    ops.append(['reuse', s, i])
                elif r < .8:
                    ops.append(['overwrite', s])
                elif r < .88:
                    ops.append(['spoil', s, [str(x) for x in rng.choice(MUTABLE, 2, replace=False)]])
                elif r < .96:
                    ops.append(['fail', i, int(rng.integers(0, 99))])
                else:
                    ops.append(['threads', [int(x) for x in rng.integers(0, 99, 4)], names[:2]])
            return dict(pool=pool, ops=ops)
        return g

    def axes(case):
        return [('ops',)]
    ctx.bulk('history', one(12, 9), ctx.n(75), axes)
    ctx.bulk('history', one(300, 6), ctx.n(12), axes, 'large')
    ctx.bulk('history', mistaken, ctx.n(42), axes, 'mistaken')
    rng = ctx.rng('race')
    for k, ((alg, eng), u) in enumerate((c, u) for c in api.CONFIGS for u in api.USECASES):
        for rep in range(ctx.n(1, 12)):
            ctx.one('race', dict(alg=alg, eng=eng, usecase=u, refr=bool(k % 2), seed=int(rng.integers(1 << 30)),
                                 n=int(rng.choice([800, 4000])), m=int(rng.integers(1, 3)), threads=6, reps=4,
                                 reads=[str(x) for x in rng.choice(NAMES, 2, replace=False)]))
