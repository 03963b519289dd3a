"""C13: labels, coordinates, units, aliases and simple views."""
import zoneinfo

import numpy as np
from hypothesis import strategies as st

from pbt import api, gen, views, zones
from pbt.core import Violation

ID = 'C13'
RULE = ('a case is one evaluation (any use case, sizes, order and duplicates of the inputs, time zone), '
        'all of whose views are checked for dimensions, coordinates, name, units and simple relations; '
        'non-trivial: at least one time and one location')
ASSUMPTIONS = ['names and units are those of the documentation: name of a view is that of its property, '
               'wsr and wss for sunrise and sunset']

NAMES = {'sunrise': 'wsr', 'sunset': 'wss', 'dec': 'declination'}
UNITS = {'zenith': 'degrees', 'elevation': 'degrees', 'azimuth': 'degrees', 'declination': 'degrees',
         'eot': 'minutes', 'ecf': '-', 'cosz': '-', 'sunrise(deg)': 'degrees', 'sunrise(rad)': 'radians',
         'sunset(deg)': 'degrees', 'sunset(rad)': 'radians', 'sunrise(tst)': 'TST', 'sunrise(utc)': 'UTC',
         'sunset(tst)': 'TST', 'sunset(utc)': 'UTC', 'daylight_length': 'hour', 'airmass': '-',
         'eth': 'W m-2', 'incidence': '-'}


def labels(case, ctx):
    sw = api.call(case)
    uc = case['usecase']
    text = f'{case["alg"]}/{case["eng"]}, {uc}'
    lat, lon = api.floats(case['lat']), api.floats(case['lon'])
    ns = np.array(case['ns'] or [0]*len(case['t']), dtype='timedelta64[ns]')
    utc = api.dt64(case['t']).astype('datetime64[ns]') + ns
    wall = utc
    if case['tz']:
        tz = zoneinfo.ZoneInfo(case['tz'])
        wall = np.array([np.datetime64(zones.aware(u, tz).replace(tzinfo=None), 'ns') for u in case['t']],
                        dtype='datetime64[ns]') + ns
    coords = {'time': (('time',), wall)}
    if uc == 'sites':
        coords.update(location=(('location',), np.arange(len(lat))), latitude=(('location',), lat),
                      longitude=(('location',), lon))
    elif uc == 'regular_grid':
        coords.update(latitude=(('latitude',), lat), longitude=(('longitude',), lon))
    else:
        coords.update(latitude=(('time',), lat), longitude=(('time',), lon))
    shape = {'time': len(utc), 'location': len(lat), 'latitude': len(lat), 'longitude': len(lon)}

    def check_coords(name, a):
        for d in a.dims:
            if d not in a.coords:
                raise Violation(f'{name} has no coordinate {d} ({text})')
        for k, c in a.coords.items():
            if k not in coords:
                raise Violation(f'{name} has an unexpected coordinate {k} ({text})')
            dims, want = coords[k]
            if c.dims != dims or c.shape != want.shape or not (np.asarray(c.values) == want).all():
                raise Violation(f'coordinate {k} of {name} is {c.dims} {np.asarray(c.values)[:5]}, expected '
                                f'{dims} {want[:5]} ({text})')

    for name in views.ALL:
        a = views.get(sw, name)
        base = name.split('(')[0]
        check_coords(name, a)
        for d, n in zip(a.dims, a.shape):
            if n != shape[d]:
                raise Violation(f'{name} has size {n} along {d}, expected {shape[d]} ({text})')
        if base in ('declination', 'dec', 'eot', 'ecf'):
            dims = ('time',)
        elif base in ('zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz', 'eth', 'airmass', 'incidence'):
            dims = api.DIMS[uc]
        elif base == 'true_solar_time' and uc == 'regular_grid':
            dims = ('time', 'longitude')
        else:
            dims = None
        if dims and a.dims != dims:
            raise Violation(f'{name} has dimensions {a.dims}, expected {dims} ({text})')
        if dims is None and (a.dims[0] != 'time' and set(a.dims) != set(api.DIMS[uc]) or
                             not set(a.dims) <= set(api.DIMS[uc]) or 'time' not in a.dims):
            raise Violation(f'{name} has dimensions {a.dims} ({text})')
        if a.name != NAMES.get(base, base):
            raise Violation(f'the name of {name} is {a.name!r} ({text})')
        unit = UNITS.get(name, UNITS.get(base))
        if base in ('sza', 'saa', 'dec'):
            unit = 'degrees'
        if unit and a.attrs.get('units') != unit:
            raise Violation(f'the units of {name} are {a.attrs.get("units")!r}, expected {unit!r} ({text})')
        if name in ('sunrise(local)', 'sunset(local)') and a.attrs.get('units') != (case['tz'] or 'UTC'):
            raise Violation(f'the units of {name} are {a.attrs.get("units")!r}, expected {case["tz"] or "UTC"!r}')
    # simple relations
    v = {n: api.raw(getattr(sw, n)) for n in ('zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz', 'declination',
                                               'dec', 'eot', 'ecf')}
    def near(a, b, tol, what):
        if not np.allclose(a, b, rtol=0, atol=tol):
            raise Violation(f'{what} ({text}): {a.ravel()[:3]} and {b.ravel()[:3]}')
    near(v['elevation'], 90 - v['zenith'], 1e-9, 'elevation is not 90 - zenith')
    near(v['cosz'], np.cos(np.radians(v['zenith'])), 1e-12, 'cosz is not the cosine of zenith')
    near(v['sza'], v['zenith'], 0, 'sza is not zenith')
    near(v['saa'], v['azimuth'], 0, 'saa is not azimuth')
    near(v['dec'], v['declination'], 0, 'dec is not declination')
    # what was requested
    for name, want in (('algorithm', case['alg']), ('engine', case['eng']), ('usecase', uc),
                       ('has_refraction', case['refr'])):
        if getattr(sw, name) != want:
            raise Violation(f'{name} is {getattr(sw, name)!r}, expected {want!r}')
    dims = {'sites': ('location', 'location'), 'regular_grid': ('latitude', 'longitude'),
            'transect': ('time', 'time')}[uc]
    for name, d, want in (('latitude', dims[0], lat), ('longitude', dims[1], lon)):
        a = getattr(sw, name)
        check_coords(name, a)
        if a.dims != (d,) or not np.array_equal(a.values, want) or a.name != name:
            raise Violation(f'{name} is {a.name} {a.dims} {a.values[:5]}, expected {(d,)} {want[:5]} ({text})')
        if a.attrs.get('units') != ('degrees north' if name == 'latitude' else 'degrees east'):
            raise Violation(f'the units of {name} are {a.attrs.get("units")!r}')
    ctx.nontrivial(v['zenith'].size)


CHECKS = {'labels': labels}


@st.composite
def cases(draw):
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    uc = draw(st.sampled_from(api.USECASES))
    tz = draw(st.sampled_from([None, None] + zones.NAMES))
    near = zones.transitions(tz) if tz else []
    t = st.integers(gen.unix(1950), gen.unix(2037))
    if near:
        t = t | st.tuples(st.sampled_from(near), st.integers(-7200, 7200)).map(sum)
    elif tz is None:
        t = st.integers(gen.LO, gen.HI - 1)
    t = draw(st.lists(t, min_size=1, max_size=6))
    if draw(st.integers(0, 3)) == 0:        # several in the same second
        t = t + [draw(st.sampled_from(t)) for _ in range(3)]
    n = len(t) if uc == 'transect' else draw(st.integers(1, 5))
    m = draw(st.integers(1, 5)) if uc == 'regular_grid' else n
    lat = draw(st.lists(st.integers(-90, 90).map(float) | st.floats(-90, 90), min_size=n, max_size=n))
    lon = draw(st.lists(st.integers(-180, 179).map(float) | st.floats(-180, 179.99), min_size=m, max_size=m))
    if draw(st.integers(0, 3)) == 0:        # repeated places
        lat = [lat[i] for i in draw(st.lists(st.integers(0, n - 1), min_size=n, max_size=n))]
    if draw(st.integers(0, 3)) == 0:
        lon = [lon[i] for i in draw(st.lists(st.integers(0, m - 1), min_size=m, max_size=m))]
    if uc != 'regular_grid' and n > 1 and draw(st.integers(0, 2)) == 0:
        i, k = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        lat[i], lon[i] = lat[k], lon[k]
    return dict(usecase=uc, alg=alg, eng=eng, refr=draw(st.booleans()), t=t, lat=lat, lon=lon, tz=tz,
                ns=draw(st.none() | st.lists(st.integers(0, 999999).map(lambda x: x*1000), min_size=len(t),
                                             max_size=len(t))))


BIG = [(3000, 3), (2, 2500), (60, 300)]
SIZES = [(1, 1), (1, 2), (2, 1), (1, 7), (7, 1), (3, 3), (2, 40), (40, 2)]


def run(ctx):
    ctx.hyp('labels', cases(), ctx.n(170))
    combos = [(a, e, u) for u in api.USECASES for a, e in api.CONFIGS]

    def g(rng, k, sizes=SIZES, big=False):
        a, e, u = combos[k % len(combos)]
        # (one or few times and places, with all their digits)
        n, m = sizes[(k//len(combos)) % len(sizes)]
        c = gen.numeric(rng, k, alg=a, eng=e, usecase=u)
        c['tz'] = [None, *zones.NAMES][int(rng.integers(0, len(zones.NAMES) + 1))] if rng.random() < .6 else None
        lo, hi = (gen.unix(1950), gen.unix(2037)) if c['tz'] else (gen.LO, gen.HI - 1)
        nt = int(rng.choice([1, 1, 1, 2, 6])) if u != 'transect' else n
        if big == 'huge':
            nt, n, m = (1, 70000, 1) if u == 'sites' else (70000, 70000, 1) if u == 'transect' else (1, 1, 70000)
            if u != 'transect' and k % 2:
                nt, n, m = 70000, 1, 1
        elif big and u != 'transect':
            nt, n, m = [(3000, 3, 2), (3, 300, 70 if u == 'regular_grid' else 1), (200, 30, 3)][k//len(combos) % 3]
        c['t'] = [int(x) for x in rng.integers(lo, hi, nt)]
        c['ns'] = gen.fractions(rng, nt) if rng.random() < .4 else None
        c['lat'] = [float(x) for x in rng.uniform(-90, 90, n)]
        c['lon'] = [float(x) for x in rng.uniform(-180, 179.99, m if u == 'regular_grid' else n)]
        return c
    ctx.bulk('labels', g, ctx.n(21*len(SIZES)), api.axes, 'small')
    ctx.bulk('labels', lambda r, k: g(r, k, BIG, True), ctx.n(42), api.axes, 'large')
    ctx.bulk('labels', lambda r, k: g(r, 5*k, BIG, 'huge'), ctx.n(6), api.axes, 'huge')
