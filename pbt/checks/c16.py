"""C16: sunrise and sunset angles and daylight length."""
import numpy as np

from pbt import api, cmp, derived, gen, views
from pbt.core import Violation
from pbt.checks.c05 import ZONES

ID = 'C16'
RULE = ('a case is one evaluation, with latitudes from the tropics to the poles and around the polar '
        'circles; oracle: the horizon equation solved for the reported declination; non-trivial: at least '
        'one cell has a sunrise')

EDGE = 1e-9     # of the cosine, around +-1: both NaN and not NaN are right


def angles(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    lat, dec = api.floats(case['lat'])[ia], api.raw(sw.declination)[it]
    w, edge = derived.sunrise_deg(dec, lat)
    fl = {n: views.flat(case, sw, n) for n in ('sunrise(deg)', 'sunrise(rad)', 'sunset(deg)', 'sunset(rad)',
                                                'daylight_length')}
    fl['sunrise()'] = _flat_default(case, sw, 'sunrise')
    fl['sunset()'] = _flat_default(case, sw, 'sunset')
    scale = {'sunrise(deg)': 1., 'sunrise(rad)': np.degrees(1), 'sunset(deg)': -1., 'sunset(rad)': -np.degrees(1),
             'daylight_length': 7.5, 'sunrise()': 1., 'sunset()': -1.}
    onedge = edge < EDGE
    tol = 1e-5 + 1e-6/np.sqrt(np.maximum(edge, 1e-12))*1e-3
    for n, a in fl.items():
        if a is None or a.size != w.size:
            raise Violation(f'{n}: not one value per cell ({cmp.config_text(case)})')
        x = a*scale[n]
        miss = np.isnan(x) != np.isnan(w)
        bad = np.where(np.isnan(x) & np.isnan(w), False, np.where(miss, ~onedge, np.abs(x - w) > tol))
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation(f'{n} is {a[i]!r}, expected {w[i]/scale[n]!r} for declination {dec[i]!r} '
                            f'({cmp.where(case, i)})')
        x = x[~np.isnan(x)]
        if x.size and (x.min() < -1e-9 or x.max() > 180 + 1e-9):
            raise Violation(f'{n} out of range: {x.min()}, {x.max()}')
        # the sun is on the horizon at that hour angle
    ok = ~np.isnan(w)
    s = fl['sunrise(deg)']
    up = np.sin(np.radians(dec))*np.sin(np.radians(lat)) + \
        np.cos(np.radians(dec))*np.cos(np.radians(lat))*np.cos(np.radians(s))
    bad = ok & ~onedge & ~(np.abs(up) < 1e-7)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(f'a sun with declination {dec[i]!r} is {np.degrees(np.arcsin(up[i]))} degrees high at the '
                        f'sunrise angle {s[i]!r} ({cmp.where(case, i)})')
    # at the equator, 12 hours
    d = fl['daylight_length']
    eq = lat == 0
    if (np.abs(d[eq] - 12) > 1e-9).any() or np.isnan(d[eq]).any():
        raise Violation(f'daylight at the equator lasts {d[eq][:3]} hours ({cmp.config_text(case)})')
    # grows with latitude in the direction of the declination
    if case['usecase'] == 'regular_grid' and len(case['lon']):
        g = d.reshape(len(case['t']), len(case['lat']), len(case['lon']))[:, :, 0]
        order = np.argsort(case['lat'])
        g = g[:, order]*np.sign(api.raw(sw.declination))[:, None]
        step = np.diff(g, axis=1)
        if (step < -1e-6).any():
            i, j = np.argwhere(step < -1e-6)[0]
            raise Violation(f'daylight shrinks from latitude {np.array(case["lat"])[order][j]} to the next one '
                            f'({cmp.config_text(case)}, {cmp.iso(case["t"][i])})')
    if ok.any():
        ctx.nontrivial(int(ok.sum()))


def _flat_default(case, sw, method):
    views.ALL['tmp'] = lambda s: getattr(s, method)()
    try:
        return views.flat(case, sw, 'tmp')
    finally:
        del views.ALL['tmp']


CHECKS = {'angles': angles}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells, fine=False):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
            if fine:        # a long axis of latitudes or of places
                c['lat'] = [float(x) for x in rng.uniform(-90, 90, int(rng.integers(600, 6000)))]
                c['t'], c['lon'] = c['t'][:2], gen.longitudes(rng, 1 if u == 'regular_grid' else len(c['lat']))
            n = len(c['lat'])
            if rng.random() < .5:
                c['lat'] = [float(x) for x in np.clip(rng.choice([66.56, -66.56, 0., 89., -89., 45.], n) +
                                                      rng.uniform(-1.5, 1.5, n), -90, 90)]
            if rng.random() < .3:
                c['lat'][0] = 0.
            c['tz'] = ZONES[int(rng.integers(0, len(ZONES)))]
            return c
        return g
    ctx.bulk('angles', one(300), ctx.n(10*21), api.axes)
    ctx.bulk('angles', one(12), ctx.n(10*21), api.axes, 'small')
    ctx.bulk('angles', one(12000), ctx.n(21), api.axes, 'large')
    ctx.bulk('angles', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
    ctx.bulk('angles', lambda r, k: one(12, True)(r, 3*k + k % 2), ctx.n(14), api.axes, 'fine')
