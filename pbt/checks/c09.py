"""C09: invalid inputs are refused, valid ones accepted."""
import datetime as dt

import numpy as np
from hypothesis import strategies as st

import sunwhere
from pbt import api, derived
from pbt.core import Violation

ID = 'C09'
RULE = ('a case is a call with one kind of invalid input (a coordinate out of bounds anywhere in the '
        'array, wrong sizes or numbers of dimensions, unknown names) or a valid one at the bounds; all '
        'are non-trivial')
ASSUMPTIONS = ['longitude 180 itself may be accepted or not (the documentation says both)']

T0 = '2024-03-05T08:00'


def call(case):
    if 'n' in case:
        case = spread(case)
    kw = {k: case[k] for k in ('algorithm', 'engine') if k in case}
    t = np.array(case['t'], dtype='datetime64[s]')
    if case.get('tscalar'):
        t = t.ravel()[0]
    lat, lon = (np.array(case[k], dtype=np.float64) for k in ('lat', 'lon'))
    if case.get('scalar'):
        lat, lon = float(lat.ravel()[0]), float(lon.ravel()[0])
    elif case.get('aslist'):
        lat, lon = lat.tolist(), lon.tolist()
    return getattr(sunwhere, case['usecase'])(t, lat, lon, **kw)


def spread(case):
    """a large case: n times, n coordinates, good ones but those in `at` {axis: {position: value}}"""
    rng = np.random.default_rng(case['seed'])
    u, out = case['usecase'], dict(case, aslist=False)
    out['t'] = [T0]*(case['n'] if u == 'transect' else 1)
    if case.get('nat'):
        out['t'] = [NAT if rng.random() < case['nat'] else T0 for _ in out['t']]
    for k, top in (('lat', 90), ('lon', 180)):
        x = rng.uniform(-top, top, case['n'] if u != 'regular_grid' or case['long'] == k else 2)
        x[rng.random(x.size) < case['nan']] = np.nan
        for i, v in case['at'].get(k, {}).items():
            x[int(i)] = v
        out[k] = x
    return out


def rejected(case, ctx):
    ctx.nontrivial()
    try:
        sw = call(case)
    except ValueError:
        return
    except Exception as exc:
        raise Violation(f'{case["why"]}: {type(exc).__name__} instead of ValueError: {exc}')
    raise Violation(f'{case["why"]}: accepted, zenith {api.raw(sw.zenith).ravel()[:6]}')


def accepted(case, ctx):
    ctx.nontrivial()
    try:
        sw = call(case)
    except Exception as exc:
        raise Violation(f'valid input refused: {type(exc).__name__}: {exc}')
    z = api.raw(sw.zenith)
    bad = [x for x in (case.get('lat', []), case.get('lon', []))]
    if not np.isfinite(z).all() and not case.get('nan') and not case.get('nat') and not np.isnan(np.array(bad[0] + bad[1], dtype=float)).any():
        raise Violation(f'zenith {z.ravel()[:6]} for valid input')


METHODS = {'sunrise': ('units', ['deg', 'rad', 'tst', 'utc', 'local']),
           'sunset': ('units', ['deg', 'rad', 'tst', 'utc', 'local']),
           'airmass': ('parameterization', list(derived.AIRMASS)),
           'eth': ('am_correction', list(derived.CORRECTIONS))}


def option(case, ctx):
    """names of units, parameterizations and corrections"""
    ctx.nontrivial()
    n = len(case['t']) if case['usecase'] == 'transect' else 1
    sw = getattr(sunwhere, case['usecase'])(np.array(case['t'], dtype='datetime64[s]'), [case['at'][0]]*n, [case['at'][1]]*n,
                                            case['algorithm'], case['refraction'], case['engine'])
    name, valid = METHODS[case['method']]
    val = case['value']
    try:
        getattr(sw, case['method'])(**{name: val})
        ok = True
    except ValueError:
        ok = False
    except Exception as exc:
        raise Violation(f'{case["method"]}({name}={val!r}): {type(exc).__name__} instead of ValueError: {exc}')
    if ok != (val in valid):
        raise Violation(f'{case["method"]}({name}={val!r}) is {"accepted" if ok else "refused"}')


def unreadable(case, ctx):
    """times that are not times"""
    ctx.nontrivial()
    n = len(case['t']) if case['usecase'] == 'transect' else 1
    times = case['t'][0] if case['tscalar'] else case['t']
    try:
        sw = getattr(sunwhere, case['usecase'])(times, [1.]*n, [2.]*n, case['algorithm'], True, case['engine'])
    except ValueError:
        return
    except Exception as exc:
        raise Violation(f'times {times!r}: {type(exc).__name__} instead of ValueError: {exc}')
    raise Violation(f'times {times!r} are taken for {list(sw.times[:4])}')


CHECKS = {'rejected': rejected, 'unreadable': unreadable, 'accepted': accepted, 'option': option}

good_lat = st.floats(-90, 90) | st.sampled_from([-90., 90., 0.])
good_lon = st.floats(-180, 179.99999) | st.sampled_from([-180., 0., float(np.nextafter(180, 0))])
NAT = 'NaT'
times = st.lists(st.integers(0, 2*10**9), min_size=1, max_size=5).map(
    lambda x: [str(np.datetime64(i, 's')) for i in x])
bad_lat = st.floats(90, 1e4, exclude_min=True) | st.floats(-1e4, -90, exclude_max=True) | st.sampled_from(
    [90.0000001, -90.0000001, 91., -91., 100., -100., 180., -180., np.inf, -np.inf, 1e300,
     float(np.nextafter(90, 91)), float(np.nextafter(-90, -91))])
bad_lon = st.floats(180.0000001, 1e4) | st.floats(-1e4, -180, exclude_max=True) | st.sampled_from(
    [180.0000001, -180.0000001, 181., -181., 200., 270., 359.9, 360., 720., np.inf, -np.inf,
     float(np.nextafter(-180, -181)), float(np.nextafter(180, 181))])


@st.composite
def bounds(draw):
    uc = draw(st.sampled_from(api.USECASES))
    t = draw(times)
    if uc == 'transect':
        n = m = len(t)
    else:
        n = draw(st.integers(1, 6))
        m = n if uc == 'sites' else draw(st.integers(1, 6))
    lat = draw(st.lists(good_lat, min_size=n, max_size=n))
    lon = draw(st.lists(good_lon, min_size=m, max_size=m))
    if draw(st.booleans()) and n > 1:       # missing values around the bad one
        lat[draw(st.integers(0, n - 1))] = float('nan')
    if draw(st.booleans()) and m > 1:
        lon[draw(st.integers(0, m - 1))] = float('nan')
    miss = draw(st.sampled_from(['', '', 'some', 'all', 'none at all', 'there']))
    if miss == 'some':
        t[draw(st.integers(0, len(t) - 1))] = NAT
    elif miss == 'all':
        t = [NAT]*len(t)
    elif miss == 'none at all' and uc != 'transect':
        t = []
    if draw(st.booleans()):
        i, v = draw(st.integers(0, n - 1)), draw(bad_lat)
        lat[i] = v
        why = f'latitude {v!r} at position {i} of {n}'
    else:
        i, v = draw(st.integers(0, m - 1)), draw(bad_lon)
        lon[i] = v
        why = f'longitude {v!r} at position {i} of {m}'
    if miss == 'there' and uc == 'transect':    # (the time of the bad place is missing)
        t[i] = NAT
    why += f', times {t[:5]}'
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    scalar = n == m == 1 and uc != 'transect' and draw(st.booleans())
    return dict(usecase=uc, t=t, lat=lat, lon=lon, algorithm=alg, engine=eng, scalar=scalar,
                aslist=draw(st.booleans()), why=f'{uc}, {why}')


def large(rng, k, bad=True):
    """one invalid value, or a few, in large arrays"""
    u = api.USECASES[k % 3]
    axis = ('lat', 'lon')[k//3 % 2]
    n = int(np.exp(rng.uniform(np.log(20), np.log(150000)))) if k % 4 else int(rng.choice([4096, 10000, 65536, 100000]))
    v = float(rng.choice([1., -1.])*rng.choice([.001, .5, 20., 400., np.inf]))
    v = v + np.copysign({'lat': 90., 'lon': 180.}[axis], v)
    at = [int(x) for x in rng.integers(0, n, 1 if rng.random() < .7 else 3)]
    if rng.random() < .3:
        at[0] = int(rng.choice([0, n - 1, n//2]))
    alg, eng = api.CONFIGS[k % 7]
    return dict(usecase=u, n=n, long=axis, seed=int(rng.integers(1 << 30)), nan=float(rng.choice([0., 0., .3])), nat=float(rng.choice([0., 0., .5, 1.])),
                at={axis: {str(i): v for i in at}} if bad else {}, algorithm=alg, engine=eng,
                why=f'{u} of {n} coordinates, {axis} {v} at {at}')


@st.composite
def valid(draw):
    uc = draw(st.sampled_from(api.USECASES))
    t = draw(times)
    if uc == 'transect':
        n = m = len(t)
    else:
        n = draw(st.integers(1, 4))
        m = n if uc == 'sites' else draw(st.integers(1, 4))
    nan = st.just(float('nan'))
    lat = draw(st.lists(good_lat | nan if n > 1 else good_lat, min_size=n, max_size=n))
    lon = draw(st.lists(good_lon | nan if m > 1 else good_lon, min_size=m, max_size=m))
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    tscalar = len(t) == 1 and draw(st.booleans())
    return dict(usecase=uc, t=t, lat=lat, lon=lon, algorithm=alg, engine=eng, tscalar=tscalar,
                aslist=draw(st.booleans()), scalar=n == m == 1 and draw(st.booleans()))


@st.composite
def sizes(draw):
    """disagreeing sizes, too many dimensions"""
    uc = draw(st.sampled_from(api.USECASES))
    kind = draw(st.sampled_from(['size', 'ndim'])) if uc != 'regular_grid' else 'ndim'
    n = [draw(st.integers(1, 5)) for _ in range(3)]
    if kind == 'size':
        if uc == 'sites':
            if n[1] == n[2]:
                n[2] += draw(st.integers(1, 3))
        elif n[0] == n[1] == n[2]:
            n[draw(st.integers(0, 2))] += draw(st.integers(1, 3))
        why = f'{uc} of {n[0]} times, {n[1]} latitudes and {n[2]} longitudes'
    else:
        n[2] = n[1]
        if uc == 'transect':
            n[0] = n[1]
        why = f'{uc} of {n} with'
    if kind == 'size' and draw(st.integers(0, 4)) == 0:         # no times, or no places of one kind
        k = draw(st.sampled_from([0, 1, 2] if uc == 'transect' else [1, 2]))
        n[k] = 0
        if uc == 'sites':
            n[3 - k] = max(n[3 - k], 1)
        why = f'{uc} of {n[0]} times, {n[1]} latitudes and {n[2]} longitudes'
    t = [T0 if draw(st.integers(0, 9)) else NAT for _ in range(n[0])]
    lat = [draw(good_lat) for _ in range(n[1])]
    lon = [draw(good_lon) for _ in range(n[2])]
    if kind == 'ndim':
        both = draw(st.sampled_from([('lat',), ('lon',), ('lat', 'lon'), ('t',), ('t', 'lat', 'lon')]))
        wrap = draw(st.sampled_from([lambda x: [x], lambda x: [[v] for v in x], lambda x: [[x]]]))
        if 'lat' in both:
            lat = wrap(lat)
        if 'lon' in both:
            lon = wrap(lon)
        if 't' in both:
            t = wrap(t)
        why += f' {np.ndim(t)}-dim times, {np.ndim(lat)}-dim latitudes, {np.ndim(lon)}-dim longitudes'
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    return dict(usecase=uc, t=t, lat=lat, lon=lon, algorithm=alg, engine=eng, aslist=draw(st.booleans()), why=why)


words = st.sampled_from(['', 'PSA', 'Psa', 'nrel ', 'spa', 'numba', 'julia', 'michalsky', 'NREL', 'None', 'default',
                         'numexp', 'NUMPY', 'numpy ', 'deg', 'sites']) | st.text(max_size=6)


@st.composite
def names(draw):
    uc = draw(st.sampled_from(api.USECASES))
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    kind = draw(st.sampled_from(['algorithm', 'engine', 'nrel numpy']))
    if kind == 'algorithm':
        alg = draw(words.filter(lambda w: w not in api.ALGS))
    elif kind == 'engine':
        eng = draw(words.filter(lambda w: w not in ('numpy', 'numexpr')))
    else:
        alg, eng = 'nrel', 'numpy'
    t = draw(st.sampled_from([[T0], [T0], [NAT], [] if uc != 'transect' else [T0], [T0, NAT]]))
    n = len(t) if uc == 'transect' else 1
    return dict(usecase=uc, t=t, lat=[1.]*n, lon=[2.]*n, algorithm=alg, engine=eng,
                why=f'{uc} with algorithm {alg!r} and engine {eng!r}')


@st.composite
def options(draw):
    m = draw(st.sampled_from(sorted(METHODS)))
    allvalid = sorted({v for _, vs in METHODS.values() for v in vs})
    near = st.sampled_from(METHODS[m][1]).flatmap(lambda v: st.sampled_from(
        [v.upper(), v + ' ', v[:-1], ' ' + v, v + 's', v.capitalize()]))
    v = draw(st.sampled_from(METHODS[m][1]) | st.sampled_from(allvalid) | near |
             st.sampled_from(['', 'degrees', 'radians', 'TST', 'UTC', 'Local', 'lst', 'perez', 'kasten', 'gueymard'])
             | st.text(max_size=5))
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    return dict(method=m, value=v, usecase=draw(st.sampled_from(api.USECASES)), algorithm=alg, engine=eng,
                t=draw(st.sampled_from([[T0], [T0], ['2024-03-05T20:00'], [T0, '2024-12-21T03:00', '2023-06-21T12:00'], [NAT],
                                        [T0, NAT], []])),
                at=draw(st.sampled_from([(10., 20.), (-75., 0.), (80., -100.), (float('nan'), 3.), (90., 4.)])),
                refraction=draw(st.booleans()))


@st.composite
def texts(draw):
    bad = st.sampled_from(['2024-02-30', '2023-02-29', '2024-13-01', '2024-01-01T25:00', '2024-01-01T10:61', 'noon', 'not a time',
                           '2024-04-31 10:00', '2024-01-01T10:00:61', '12:00 2024-06-31', '2024-01-32', '2024-00-10'])
    t = [draw(st.dates(dt.date(1971, 1, 1), dt.date(2060, 1, 1))).isoformat() for _ in range(draw(st.integers(0, 3)))]
    t.insert(draw(st.integers(0, len(t))), draw(bad))
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    uc = draw(st.sampled_from(api.USECASES))
    return dict(usecase=uc, t=t, algorithm=alg, engine=eng, tscalar=len(t) == 1 and draw(st.booleans()))


def run(ctx):
    ctx.hyp('unreadable', texts(), ctx.n(100))
    ctx.hyp('rejected', bounds(), ctx.n(1200), 'bounds')
    ctx.hyp('rejected', sizes(), ctx.n(400), 'sizes')
    ctx.hyp('rejected', names(), ctx.n(300), 'names')
    ctx.bulk('rejected', large, ctx.n(168), tag='large')
    ctx.bulk('accepted', lambda rng, k: large(rng, k, False), ctx.n(21), tag='large')
    ctx.hyp('accepted', valid(), ctx.n(500))
    ctx.hyp('option', options(), ctx.n(500))
