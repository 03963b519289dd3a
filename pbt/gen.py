"""Generators of instants, locations and numeric cases.

The distributions are stratified towards what breaks solar code: calendar
boundaries, leap and century years, dates before 1970, poles, tropics, date
line, the sun overhead, underfoot, on the horizon and at the elevations where
refraction formulas change branch or blow up.
"""
import numpy as np

from . import api, ref


def unix(y, m=1, d=1, h=0, mi=0, s=0):
    days = (np.datetime64(y - 1970, 'Y').astype('datetime64[M]') + (m - 1)).astype('datetime64[D]')
    return (int(days.astype(np.int64)) + d - 1)*86400 + h*3600 + mi*60 + s


LO, HI = unix(1700), unix(2250)
# documented period of the SPA (unix time of years -1999 and 6000)
LO_SPA = int(np.datetime64('-1999-01-02', 's').astype(np.int64))
HI_SPA = int(np.datetime64('5999-12-30', 's').astype(np.int64))

SPECIAL_YEARS = [1700, 1800, 1899, 1900, 1904, 1950, 1968, 1969, 1970, 1971, 1972, 1996, 1999,
                 2000, 2001, 2004, 2016, 2019, 2020, 2023, 2024, 2025, 2026, 2027, 2028, 2032, 2036,
                 2037, 2038, 2049, 2050, 2096, 2100, 2104, 2200]
MONTH_DAYS = [(1, 1), (1, 31), (2, 1), (2, 28), (3, 1), (3, 31), (4, 1), (4, 30), (5, 1), (5, 31),
              (6, 1), (6, 30), (7, 1), (7, 31), (8, 1), (8, 31), (9, 1), (9, 30), (10, 1), (10, 31),
              (11, 1), (11, 30), (12, 1), (12, 31)]
# where counters of seconds and days overflow narrow integers, or start
HOT = [2**31, -2**31, 2**32, 2**31 + unix(2000), 2**31 + unix(2000, 1, 1, 12), -2**31 + unix(2000),
       -2**31 + unix(2000, 1, 1, 12), 0, unix(2000, 1, 1, 12), unix(2000), 2**24*86400//1000, -2**15*86400, 2**15*86400,
       2**15*86400 + unix(2000), -2**15*86400 + unix(2000), 10**9, -2**30, 2**30, unix(1858, 11, 17), unix(1900),
       unix(2000) + 2**16*86400, 2**23, 2**24, -2**24]
SEASONS = [(3, 20), (6, 21), (9, 22), (12, 21), (1, 3), (7, 4)]


def instants(rng, n, lo=LO, hi=HI):
    """n instants, unix seconds (python ints)"""
    out = np.empty(n, dtype=np.int64)
    kind = rng.integers(0, 20, n)
    ylo = 1970 + int(lo // 31556952)
    yhi = 1970 + int(hi // 31556952)
    years = [y for y in SPECIAL_YEARS if ylo < y < yhi] or [(ylo + yhi)//2]
    for i in range(n):
        k = kind[i]//2
        if kind[i] == 19:       # around an overflow
            t = int(rng.choice(HOT)) + int(rng.integers(-7200, 7201))
        elif k < 4:
            t = int(rng.integers(lo, hi))
        elif k < 6:             # a modern instant
            a, b = max(lo, unix(1950)), min(hi, unix(2060))
            if a >= b:
                a, b = lo, hi
            t = int(rng.integers(a, b))
        elif k < 8:             # around the boundary of a month
            y = int(rng.choice(years)) if rng.random() < .7 else int(rng.integers(ylo + 1, yhi))
            m, d = MONTH_DAYS[rng.integers(0, len(MONTH_DAYS))]
            t = unix(y, m, d) + int(rng.choice([0, 1, 59, 3600, 43199, 43200, 86398, 86399]))
            if rng.random() < .3:
                t = unix(y, 2, 28) + int(rng.integers(0, 3*86400))
            elif rng.random() < .5:
                t = t + int(rng.integers(-7200, 7200))
        elif k == 8:            # solstices, equinoxes, perihelion, aphelion
            y = int(rng.choice(years))
            m, d = SEASONS[rng.integers(0, len(SEASONS))]
            t = unix(y, m, d) + int(rng.integers(-86400, 2*86400))
        else:                   # whole hours and days
            t = int(rng.integers(lo, hi))
            t -= t % int(rng.choice([60, 3600, 21600, 86400]))
        out[i] = min(max(t, lo), hi - 1)
    return [int(x) for x in out]


def fractions(rng, n):
    """n fractions of a second, nanoseconds"""
    unit = int(rng.choice([1, 1000, 10**6, 10**8]))
    return [int(x)*unit for x in rng.integers(0, 10**9//unit, n)]


def time_grid(rng, n, lo=LO, hi=HI):
    """n regularly spaced instants"""
    start = instants(rng, 1, lo, hi)[0]
    step = int(rng.choice([1, 60, 300, 600, 900, 1800, 3600, 10800, 86400, 86399, 2592000]))
    if rng.random() < .2:
        step = -step
    while abs(step)*(n - 1) > hi - 1 - lo:     # (a long series stays within the period)
        step = int(step/7)
    span = step*(n - 1)
    start = min(max(start, lo + max(0, -span)), hi - 1 - max(0, span))
    return [start + step*i for i in range(n)]


SPECIAL_LATS = [90., -90., 89.999999999, -89.999999999, 89.9999, -89.9999, 89.5, -89.5, 66.5622, -66.5622,
                67., -67., 65., 23.4365, -23.4365, 23.4, -23.4, 0., 1e-9, -1e-9, 45., -45., 36.949]
_MAXLON = float(np.nextafter(180., 0.))
SPECIAL_LONS = [-180., _MAXLON, 179.9999, -179.9999, 0., 1e-9, -1e-9, 90., -90., 15., -15.,
                120., -120., -3.822]


def latitudes(rng, n):
    out = np.where(rng.random(n) < .5, rng.uniform(-90, 90, n),
                   np.degrees(np.arcsin(rng.uniform(-1, 1, n))))
    sp = rng.random(n)
    out = np.where(sp < .25, rng.choice(SPECIAL_LATS, n), out)
    out = np.where((sp > .25) & (sp < .35), np.round(out), out)
    return [float(x) for x in out]


def longitudes(rng, n):
    out = rng.uniform(-180, 180, n)
    sp = rng.random(n)
    out = np.where(sp < .25, rng.choice(SPECIAL_LONS, n), out)
    out = np.where((sp > .25) & (sp < .35), np.round(out/15)*15, out)
    out = np.where(out >= 180, -180., out)
    return [float(x) for x in out]


TARGET_ZENITHS = [0., 1e-6, 1e-3, .01, .1, 1., 30., 60., 85., 88., 89., 89.5, 89.9, 90., 90.1, 90.25, 90.5,
                  90.7, 90.8, 90.83, 90.8333, 90.834, 90.84, 90.9, 91., 92., 93., 94., 95., 95.1, 95.11, 95.15,
                  95.2, 96., 97., 100., 120., 150., 179., 179.9, 179.999, 180.]


def at_zenith(t, zen, bearing):
    """location(s) from which the sun is seen, at unix time(s) t, at about the zenith angle
    `zen` (degrees) when travelling from the sub-solar point along `bearing` (degrees)"""
    q = ref.soltrack(np.asarray(t, dtype=np.float64))
    la0, lo0 = q['dec'], -q['gha']
    d, b = np.asarray(zen)*ref.DEG, np.asarray(bearing)*ref.DEG
    sla = np.sin(la0)*np.cos(d) + np.cos(la0)*np.sin(d)*np.cos(b)
    la = np.arcsin(np.clip(sla, -1, 1))
    lo = lo0 + np.arctan2(np.sin(b)*np.sin(d)*np.cos(la0), np.cos(d) - np.sin(la0)*sla)
    lat, lon = la/ref.DEG, ref.wrap(lo)/ref.DEG
    lon = np.where(lon >= 180, -180., lon)
    return [float(x) for x in np.atleast_1d(lat)], [float(x) for x in np.atleast_1d(lon)]


def targeted(rng, t):
    """locations that see the sun at telling zenith angles at the instants t"""
    n = len(t)
    zen = rng.choice(TARGET_ZENITHS, n) + rng.choice([0., 1e-3, -1e-3, .02, -.02, .3, -.3], n)
    zen = np.where(rng.random(n) < .3, rng.uniform(85, 96, n), zen)
    return at_zenith(t, np.clip(zen, 0, 180), rng.uniform(0, 360, n))


def config(rng, algs=api.ALGS):
    alg = str(rng.choice(list(algs)))
    return dict(alg=alg, eng=str(rng.choice(list(api.ENGINES[alg]))), refr=bool(rng.random() < .5))


def numeric(rng, k=0, algs=api.ALGS, lo=LO, hi=HI, cells=400, usecase=None, refr=None, eng=None, alg=None):
    """a numeric case of any use case with about `cells` cells"""
    c = config(rng, algs)
    if alg is not None:
        c['alg'] = alg
        c['eng'] = str(rng.choice(list(api.ENGINES[alg])))
    if eng is not None:
        c['eng'] = eng
    if refr is not None:
        c['refr'] = refr
    c['usecase'] = usecase or str(rng.choice(api.USECASES))
    size = max(1, int(cells*rng.choice([.02, .2, 1., 1., 1.])))
    if c['usecase'] == 'transect':
        n = size
        t = time_grid(rng, n, lo, hi) if rng.random() < .2 else instants(rng, n, lo, hi)
        lat, lon = latitudes(rng, n), longitudes(rng, n)
        if rng.random() < .6:
            la2, lo2 = targeted(rng, t)
            pick = rng.random(n) < .6
            lat = [b if p else a for a, b, p in zip(lat, la2, pick)]
            lon = [b if p else a for a, b, p in zip(lon, lo2, pick)]
    else:
        m = int(rng.integers(1, max(2, int(2*size**.5))))
        shape = rng.random() if size >= 1000 else 1
        if shape < .3:        # few times
            m = size//int(rng.integers(1, 4))
        elif shape < .4:      # few places
            m = int(rng.integers(1, 4))
        n = max(1, size//m)
        t = time_grid(rng, n, lo, hi) if rng.random() < .4 else instants(rng, n, lo, hi)
        if c['usecase'] == 'sites':
            lat, lon = latitudes(rng, m), longitudes(rng, m)
            if rng.random() < .5:
                i = int(rng.integers(0, n))
                lat[-1:], lon[-1:] = targeted(rng, [t[i]])
        else:
            ny = int(rng.integers(1, max(2, int(2*m**.5))))
            if shape < .3 and rng.random() < .6:       # long axes
                ny = int(rng.choice([1, 2, 3, m//3, m//2, m]))
            nx = max(1, m//ny)
            if rng.random() < .15:      # as many latitudes as longitudes (sometimes, as times)
                nx = ny = max(1, int(m**.5))
                if rng.random() < .3 and nx > 1:
                    t = t[:nx]
                    n = len(t)
            lat, lon = latitudes(rng, ny), longitudes(rng, nx)
            if rng.random() < .5:
                i = int(rng.integers(0, n))
                lat[-1:], lon[-1:] = targeted(rng, [t[i]])
    c.update(t=t, lat=lat, lon=lon)
    return c


def vertical(rng, alg, t, nadir=None):
    """locations from which the sun is exactly (to rounding, give or take a few units in the
    last place) overhead or underfoot at the instants t, for the given algorithm"""
    n = len(t)
    u = np.asarray(t, dtype=np.float64)
    nadir = rng.random(n) < .5 if nadir is None else np.full(n, bool(nadir))
    q = ref.MODELS[alg if alg != 'nrel' else 'soltrack'](u)
    lat = np.where(nadir, -1, 1)*q['dec']/ref.DEG
    lon = ref.wrap(-q['gha'] + np.where(nadir, ref.PI, 0))/ref.DEG
    if alg == 'nrel':
        for _ in range(4):
            r = ref.spa(u, lat, lon)
            d = np.where(nadir, 180 - r['zenith'], r['zenith'])
            s = np.where(nadir, -1, 1)
            d = np.nan_to_num(d)     # (arccos of 1 and a bit)
            a = np.radians(np.nan_to_num(r['azimuth']))
            lat = lat - s*d*np.cos(a)
            lon = lon - s*d*np.sin(a)/np.cos(np.radians(lat))
        lon = ref.wrap(lon*ref.DEG)/ref.DEG
    for _ in range(int(rng.integers(0, 3))):
        lat = np.where(rng.random(n) < .5, np.nextafter(lat, rng.choice([-90, 90])), lat)
        lon = np.where(rng.random(n) < .5, np.nextafter(lon, rng.choice([-180, 179])), lon)
    return ([float(x) for x in np.clip(lat, -90, 90)],
            [float(x) for x in np.where(lon >= 180, -180., np.maximum(lon, -180.))])
