"""C06: a cell's result does not depend on the rest of the batch."""
import numpy as np

from pbt import api, cmp, derived, gen, same, views
from pbt.core import Violation
from pbt.checks.c05 import NAMES, ZONES

ID = 'C06'
RULE = ('a case is a batch (times x locations in one use case, possibly with missing times) and a way '
        'to take it apart (indices: subset, permutation, repetition, single elements, halves); '
        'non-trivial: the part differs from the batch and at least one finite cell is compared')


def take(case):
    """the sub-batch of the indices in case['ti'], case['ai'] (and case['oi'])"""
    ti, ai, oi = case['ti'], case['ai'], case['oi']
    uc = case['usecase']
    nt, na, no = len(case['t']), len(case['lat']), len(case['lon'])
    sub = dict(case)
    if uc == 'transect':
        ti = [i for i in ti if i < nt]
        sub.update(t=[case['t'][i] for i in ti], lat=[case['lat'][i] for i in ti],
                   lon=[case['lon'][i] for i in ti])
        cells = np.array(ti, dtype=int)
    elif uc == 'sites':
        ti, ai = [i for i in ti if i < nt], [i for i in ai if i < na]
        sub.update(t=[case['t'][i] for i in ti], lat=[case['lat'][i] for i in ai],
                   lon=[case['lon'][i] for i in ai])
        cells = (np.array(ti, dtype=int)[:, None]*na + np.array(ai, dtype=int)[None, :]).ravel()
    else:
        ti, ai, oi = [i for i in ti if i < nt], [i for i in ai if i < na], [i for i in oi if i < no]
        sub.update(t=[case['t'][i] for i in ti], lat=[case['lat'][i] for i in ai],
                   lon=[case['lon'][i] for i in oi])
        cells = (np.array(ti, dtype=int)[:, None, None]*na*no + np.array(ai, dtype=int)[None, :, None]*no
                 + np.array(oi, dtype=int)[None, None, :]).ravel()
    return sub, cells


def independent(case, ctx):
    whole = api.call(case)
    sub, cells = take(case)
    part = api.call(sub)
    cmp.shapes(case, whole)
    cmp.shapes(sub, part)
    zen = views.flat(case, whole, 'zenith')[cells]
    dec = views.flat(case, whole, 'declination')[cells]
    lat = api.floats(case['lat'])[api.cells(case)[1]][cells]
    _, edge = derived.sunrise_deg(dec, lat)
    edge = np.where(np.isnan(edge), 1., edge)
    tie = np.zeros(len(zen), bool)
    if case['refr']:
        tie = cmp.refr_tie(90. - views.flat(sub, api.call(sub, refr=False), 'zenith'), 1e-5)
    zen1 = np.where(np.isnan(zen), 45., zen)
    for name in case['views']:
        a, b = views.flat(case, whole, name), views.flat(sub, part, name)
        if a is None or b is None:
            raise Violation(f'{name}: not one value per cell')
        a = a[cells]
        if name.split('(')[0] in ('zenith', 'sza', 'elevation', 'cosz', 'airmass', 'eth'):
            b = np.where(tie, a, b)
        same.check(name + '', a, b, zen1, edge, lambda i: 'in the whole batch and in the part: ' +
                   cmp.where(sub, i))
    if len(cells) and len(cells) != len(api.cells(case)[0]) or cells.tolist() != list(range(len(cells))):
        ctx.nontrivial(int(np.isfinite(zen).sum()))


# -- batches of up to millions of cells ---------------------------------------------

EDGES = [0, 1, 2**15, 2**16, 2**17, 2**18, 2**20, 2**21, 10**4, 10**5, 10**6, 2*10**6, 2**13, 2**14, 2**12, 1000]


def expand(case):
    """the batch that a short description stands for"""
    rng = np.random.default_rng(case['seed'])
    nt, na, no = case['sizes']
    c = {k: case[k] for k in ('usecase', 'alg', 'eng', 'refr')}
    t0, t1 = gen.unix(1950), gen.unix(2050)
    if case['regular']:
        step = max(1, min(int(rng.choice([1, 60, 600, 3600])), (t1 - t0)//(nt + 1)))
        first = int(rng.integers(t0, t1 - step*nt))
        t = first + step*np.arange(nt)
    else:
        t = rng.integers(t0, t1, nt)
    c.update(t=t.tolist(), lat=rng.uniform(-90, 90, na).tolist(), lon=rng.uniform(-180, 180, no).tolist())
    return c


def some(rng, n, m):
    """m out of n indices, the first, the last and some at round numbers among them"""
    at = [i + d for e in EDGES for k in (1, 2, 3) for i in (e*k,) for d in (-1, 0, 1) if 0 <= i + d < n]
    at += [n - 1 - i for i in range(3) if i < n] + list(range(min(n, 3)))
    at = rng.permutation(sorted(set(at)))[:m//2]
    return sorted({int(x) for x in at} | {n - 1} | {int(x) for x in rng.integers(0, n, m - m//2)})


def huge(case, ctx):
    c = expand(case)
    rng = np.random.default_rng(case['seed'] + 1)
    nt, na, no = case['sizes']
    m = {'transect': (3000, 0, 0), 'sites': (60, 60, 0), 'regular_grid': (30, 15, 15)}[case['usecase']]
    ti, ai, oi = some(rng, nt, m[0]), some(rng, na, m[1] or 1), some(rng, no, m[2] or 1)
    if case['usecase'] == 'transect':
        sub = dict(c, **{k: [c[k][i] for i in ti] for k in ('t', 'lat', 'lon')})
    else:
        if case['usecase'] == 'sites':
            oi = ai
        sub = dict(c, t=[c['t'][i] for i in ti], lat=[c['lat'][i] for i in ai], lon=[c['lon'][i] for i in oi])
    whole, part = api.call(c), api.call(sub)
    cmp.shapes(c, whole)
    pick = {'transect': (ti,), 'sites': np.ix_(ti, ai), 'regular_grid': np.ix_(ti, ai, oi)}[case['usecase']]
    zen = views.flat(sub, part, 'zenith')
    tie = cmp.refr_tie(90. - views.flat(sub, api.call(sub, refr=False), 'zenith'), 1e-5) if case['refr'] else zen < 0
    for name in ['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + case['views']:
        b = np.asarray(views.get(part, name).values)
        a = np.asarray(views.get(whole, name).values)
        a = a[ti] if a.ndim == 1 else a[pick]
        if a.ndim == 1 and case['usecase'] != 'transect':       # one value per time
            a, b = a[:, None]*np.ones((len(ti), zen.size//len(ti))), b[:, None]*np.ones((len(ti), zen.size//len(ti)))
        a, b = a.ravel(), b.ravel()
        b = np.where(tie, a, b)
        same.check(name, a, b, zen, np.ones(len(zen)), lambda i: f'in a batch of {case["sizes"]} and in a part of it: ' +
                   cmp.where(sub, i))
    ctx.nontrivial(len(zen))


CHECKS = {'independent': independent, 'huge': huge}


def axes(case):
    return [('ti',), ('ai',), ('oi',)] + api.axes(case)


def indices(rng, n, how):
    if n == 0:
        return []
    if how == 0:
        out = rng.permutation(n)
    elif how == 1:
        out = np.flatnonzero(rng.random(n) < rng.choice([.1, .5, .9]))
    elif how == 2:
        out = rng.integers(0, n, 1)
    elif how == 3:
        out = rng.integers(0, n, min(2*n, n + 5))
    elif how == 4:
        m = int(rng.integers(0, n))
        out = np.arange(m, n) if rng.random() < .5 else np.arange(0, m + 1)
    elif how == 5:
        out = np.arange(n)[::-1]
    else:
        out = np.arange(n)
    if len(out) == 0:
        out = np.array([int(rng.integers(0, n))])
    return [int(x) for x in out]


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells, nviews=6, hows=7):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
            r = rng.random()
            shape = (k//len(combos) + k) % 9
            if shape in (0, 1, 2):          # instants close to each other
                span = int(rng.choice([10, 60, 600, 3600, 86400]))
                c['t'] = [int(c['t'][0]) + int(x) for x in (np.sort(rng.integers(0, span, len(c['t']))) if shape else
                                                            np.arange(len(c['t']))*span//max(1, len(c['t'])))]
            if shape in (2, 3):             # places close to each other
                for key, top in (('lat', 89.9), ('lon', 179.9)):
                    size = float(rng.choice([1e-4, .01, .1, 1.]))
                    c[key] = [float(min(top, c[key][0] + size*x)) for x in rng.random(len(c[key]))]
            if r < .25:
                f = rng.choice([.05, .5])
                c['t'] = [None if rng.random() < f else x for x in c['t']]
            elif r < .5:
                c['t'] = sorted(c['t'], reverse=bool(rng.random() < .3))
            elif r < .6 and u != 'transect':
                c['t'] = c['t'] + c['t'][:1 + len(c['t'])//2]
            for f, n in (('ti', len(c['t'])), ('ai', len(c['lat'])), ('oi', len(c['lon']))):
                c[f] = indices(rng, n, int(rng.integers(0, hows)))
            names = ['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + [
                str(v) for v in rng.choice(NAMES, nviews, replace=False)]
            c['views'] = list(dict.fromkeys(names))
            c['tz'] = ZONES[int(rng.integers(0, len(ZONES)))]
            return c
        return g
    ctx.bulk('independent', one(150), ctx.n(9*21), axes)
    ctx.bulk('independent', one(12), ctx.n(9*21), axes, 'small')
    ctx.bulk('independent', one(60000, 0), ctx.n(21), axes, 'large')

    # every axis is the long one, in every configuration
    axes_of = [('sites', 0), ('sites', 1), ('regular_grid', 0), ('regular_grid', 1), ('regular_grid', 2),
               ('transect', 0)]

    def big(rng, k):
        (u, axis), (a, e) = axes_of[k % 6], api.CONFIGS[k//6 % len(api.CONFIGS)]
        if a == 'nrel':
            total = int(rng.choice([40000, 66000, 70000]))
        else:
            total = int(rng.choice([66000, 132000, 263000, 525000, 1050000, 2100000], p=[.1, .2, .3, .2, .15, .05]))
        total += int(rng.integers(0, 1000))
        long = total//int(rng.choice([1, 1, 1, 2, 7, 60, 300]))
        rest = max(1, total//long)
        if u == 'transect':
            sizes = [total]*3
        elif u == 'sites':
            sizes = [long, rest, rest] if axis == 0 else [rest, long, long]
        else:
            m = max(1, int(rng.choice([1, rest**.5, rest])))
            sizes = [m, max(1, rest//m)]
            sizes.insert(axis, long)
        return dict(usecase=u, alg=a, eng=e, refr=bool(rng.random() < .5), seed=int(rng.integers(0, 2**31)), sizes=sizes,
                    regular=bool(rng.random() < .5), views=['cosz'] if rng.random() < .3 else [])
    ctx.bulk('huge', big, ctx.n(63), None, 'huge')
