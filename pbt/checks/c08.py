"""C08: missing times and coordinates stay where they are; empty inputs."""
import warnings

import numpy as np
import pandas as pd

from pbt import api, cmp, derived, gen, same, views
from pbt.core import Violation
from pbt.checks.c05 import NAMES

ID = 'C08'
RULE = ('a case is a batch with some (or all, or none) of its times and coordinates missing, or an empty '
        'one; non-trivial: something is missing or empty; oracle: the same batch with the missing values '
        'filled in, and the mask of the missing ones')

GEOM = ('zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz')
ANGLES = ('sunrise(deg)', 'sunrise(rad)', 'sunset(deg)', 'sunset(rad)', 'daylight_length')
FINITE = GEOM + views.PER_TIME + ('true_solar_time', 'eth(none)', 'eth(1000)', 'incidence(30,20)', 'incidence(0,0)',
                                  'incidence(90,-135)')


def missing(case, ctx):
    filled = dict(case, t=[f if x is None else x for x, f in zip(case['t'], case['fill_t'])],
                  lat=[12.5 if x is None else x for x in case['lat']],
                  lon=[-33.25 if x is None else x for x in case['lon']])
    sw, full = api.call(case), api.call(filled)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    mt = np.array([x is None for x in case['t']], dtype=bool)[it]
    ma = np.array([x is None for x in case['lat']], dtype=bool)[ia]
    mo = np.array([x is None for x in case['lon']], dtype=bool)[io]
    zen = views.flat(filled, full, 'zenith')
    dec = views.flat(filled, full, 'declination')
    _, edge = derived.sunrise_deg(dec, api.floats(filled['lat'])[ia])
    tie = np.zeros(len(zen), bool)
    if case['refr']:
        tie = cmp.refr_tie(90. - views.flat(filled, api.call(filled, refr=False), 'zenith'), 1e-5)
    for name in case['views']:
        got, want = views.flat(case, sw, name), views.flat(filled, full, name)
        if got is None or got.size != len(zen):
            raise Violation(f'{name}: not one value per cell ({cmp.config_text(case)})')
        nan = (got == derived.NAT) if views.is_time(name) else np.isnan(got)
        free = tie
        if name in views.PER_TIME:
            must, free = mt, np.zeros(len(mt), bool)
        elif name == 'true_solar_time':
            must, free = mt | mo, np.zeros(len(mt), bool)
        elif name in ANGLES:        # depend on declination and latitude
            must, free = mt | ma, np.zeros(len(mt), bool)
        else:
            must = mt | ma | mo
        if (must & ~nan).any():
            i = int(np.argmax(must & ~nan))
            raise Violation(f'{name} is {got[i]!r} in a cell with missing inputs ({cmp.where(case, i)})')
        keep = ~must & ~free
        if name in FINITE and (nan & keep).any():
            i = int(np.argmax(nan & keep))
            raise Violation(f'{name} is missing in a cell without missing inputs ({cmp.where(case, i)})')
        idx = np.flatnonzero(keep)
        same.check(name, got[idx], want[idx], zen[idx], edge[idx],
                   lambda i: 'with and without missing values elsewhere, ' + cmp.where(case, int(idx[i])))
    # the reported times have NaT in the same places
    for name in ('times', 'times_utc'):
        nat = np.asarray(getattr(sw, name).isna())
        if nat.tolist() != [x is None for x in case['t']]:
            raise Violation(f'{name} has NaT in {nat.tolist()} for {case["t"]}')
    for name, vals in (('latitude', case['lat']), ('longitude', case['lon'])):
        got = api.raw(getattr(sw, name))
        if not np.array_equal(got, api.floats(vals), equal_nan=True):
            raise Violation(f'{name} is {got}, expected {vals}')
    if mt.any() or ma.any() or mo.any():
        ctx.nontrivial(len(zen))


def empty(case, ctx):
    sw = api.call(case)
    size = {'time': len(case['t']), 'location': len(case['lat']), 'latitude': len(case['lat']),
            'longitude': len(case['lon'])}
    for name in views.ALL:
        a = views.get(sw, name)
        for d, n in zip(a.dims, a.shape):
            if n != size[d]:
                raise Violation(f'{name}: dimension {d} has size {n}, expected {size[d]} ({cmp.config_text(case)})')
    for v in ('zenith', 'azimuth'):
        a = getattr(sw, v)
        want = tuple(size[d] for d in api.DIMS[case['usecase']])
        if a.shape != want:
            raise Violation(f'{v} has shape {a.shape}, expected {want} ({cmp.config_text(case)})')
    ctx.nontrivial(1)


SCALARS = [pd.NaT, None, np.datetime64('NaT', 's'), np.datetime64('NaT', 'ns'), float('nan'), 'NaT']


def scalar(case, ctx):
    """the only time is missing, and passed alone"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sw = api.call(case, times=SCALARS[case['scalar']])
        ref = api.call(dict(case, t=[None]))
    for name in ('times', 'times_utc'):
        nat = np.asarray(getattr(sw, name).isna()).tolist()
        if nat != [True]:
            raise Violation(f'{name} is {getattr(sw, name)} for a missing time ({cmp.config_text(case)})')
    for name in case['views']:
        got, want = views.get(sw, name), views.get(ref, name)
        if got.shape != want.shape or not np.array_equal(views.flat(case, sw, name), views.flat(case, ref, name),
                                                         equal_nan=True):
            raise Violation(f'{name} of a missing time passed alone is {got.values}, but {want.values} in a list '
                            f'({cmp.config_text(case)})')
    ctx.nontrivial()


CHECKS = {'missing': missing, 'empty': empty, 'scalar': scalar}


def axes(case):
    if case['usecase'] == 'transect':
        return [('t', 'fill_t', 'lat', 'lon')]
    return [('t', 'fill_t')] + api.axes(case)[1:]


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]
    for a, e, u in combos:
        for t, n in (([], 0), ([], 2), ([0, 86400*200], 0)):
            if u == 'transect' and (t or n):
                continue
            for refr in (True, False):
                ctx.one('empty', dict(usecase=u, alg=a, eng=e, refr=refr, t=t, lat=[10., 20.][:n],
                                      lon=[10., 20.][:n]))

    for k, (a, e, u) in enumerate(combos):
        for j in range(len(SCALARS)):
            n = 1 if u == 'transect' else 1 + (k + j) % 3
            ctx.one('scalar', dict(usecase=u, alg=a, eng=e, refr=(k + j) % 2 == 0, t=[None], scalar=j,
                                   lat=[10., 20., -35.][:n], lon=[10., -20., 30.][:n],
                                   views=['zenith', 'azimuth', 'declination', 'eot', 'ecf', 'true_solar_time',
                                          'sunrise(deg)', 'sunset(utc)', 'daylight_length']))

    def one(cells, nviews=5, shift=0):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
            c['fill_t'] = gen.instants(rng, len(c['t']))
            # every way of missing, in every configuration
            which = (k//len(combos) + shift) % 9
            f = float(rng.choice([.1, .5, .9, 1.]))
            drop = lambda xs, p: [None if rng.random() < p else x for x in xs]      # noqa: E731

            def holes(name, at):
                c[name] = [None if i in at else x for i, x in enumerate(c[name])]

            if which in (0, 3):
                c['t'] = drop(c['t'], f)
            if which in (1, 3):
                c['lat'] = drop(c['lat'], float(rng.choice([.1, .5, 1.])))
            if which in (2, 3):
                c['lon'] = drop(c['lon'], float(rng.choice([.1, .5, 1.])))
            if which in (4, 5, 6):      # exactly one, anywhere
                f = ('t', 'lat', 'lon')[which - 4]
                n = len(c[f])
                holes(f, {int(rng.choice([0, n - 1] + 4*[rng.integers(0, n)]))})
            if which == 7:              # some isolated ones, or a run of them
                for f in ('t', 'lat', 'lon'):
                    n = len(c[f])
                    if rng.random() < .5:
                        a = int(rng.integers(0, n))
                        holes(f, set(range(a, a + 1 + int(rng.integers(0, 1 + n//3)))))
                    else:
                        holes(f, {int(i) for i in rng.integers(0, n, 1 + n//8)})
            if which == 8:              # the first ones, or the last ones, or all but one
                f = ('t', 'lat', 'lon')[int(rng.integers(0, 3))]
                n, m = len(c[f]), int(rng.integers(0, 1 + len(c[f])//2))
                holes(f, [set(range(m)), set(range(n - m, n)), set(range(n)) - {m}][int(rng.integers(0, 3))])
            c['tz'] = [None, None, 'Europe/Madrid', 'Asia/Kolkata'][int(rng.integers(0, 4))]
            c['views'] = ['zenith', 'azimuth', 'declination', 'eot', 'ecf', 'true_solar_time'] + [
                v for v in map(str, rng.choice(NAMES, nviews, replace=False))]
            return c
        return g
    ctx.bulk('missing', one(120), ctx.n(9*21), axes)
    ctx.bulk('missing', one(8, len(NAMES)), ctx.n(9*21), axes, 'small')
    ctx.bulk('missing', one(12000, 0, 7), ctx.n(21), axes, 'large')
    ctx.bulk('missing', lambda r, k: one(150000, 0, 7)(r, 5*k + 1), ctx.n(6), axes, 'vast')
