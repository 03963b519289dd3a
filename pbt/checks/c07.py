"""C07: the same instants in any container and time zone."""
import datetime as dt
import zoneinfo

import numpy as np
import pandas as pd
import pytz
import xarray as xr
from hypothesis import strategies as st

from pbt import api, cmp, gen, zones
from pbt.core import Violation

ID = 'C07'
RULE = ('a case is a list of instants, a container and time zone to write them in, and a use case; '
        'non-trivial: there is at least one instant and it is compared with the naive datetime64[s] '
        'evaluation and with the wall clock of Python datetimes')
ASSUMPTIONS = ['wall clocks of the oracle are computed by Python datetimes with the caller\'s own tzinfo',
               'times of different UTC offsets written as strings are refused by pandas and not covered',
               'the geometry of instants with a fraction of a second is only required to be that of an instant less '
               'than a second away (the project computes in whole seconds)']

FINDINGS = {
    'outside-ns-range': ('forms', dict(form='dt64[s]', tz=None, usecase='sites', t=[-11676096000],
                                       alg='psa', eng='numexpr', refr=True, lat=[10.], lon=[20.])),
}

NAIVE = ['dt64[s]', 'dt64[ms]', 'dt64[us]', 'dt64[ns]', 'dt64[m]', 'dt64[h]', 'dt64[D]', 'list dt64', 'tuple dt64',
         'list datetime', 'list Timestamp', 'list str', 'list strT', 'array str', 'index', 'index[s]', 'index object',
         'array object', 'dataarray', 'scalar dt64', 'scalar datetime', 'scalar Timestamp', 'scalar str',
         'dt64[W]', 'dt64[M]', 'dt64[Y]', 'list date', 'scalar date', 'index[ms]', 'index[us]', 'index str', 'big-endian[s]',
         'big-endian[ns]', 'strided', 'reversed', 'readonly', 'pandas array', 'list strZ', 'scalar strZ', 'list mixed']
AWARE = ['list datetime', 'tuple datetime', 'list Timestamp', 'index', 'index[s]', 'array object', 'scalar datetime',
         'scalar Timestamp', 'list str', 'scalar str', 'index regular', 'index[ms]', 'index[us]', 'index object',
         'pandas array']
UNIT = {'dt64[m]': 'm', 'dt64[h]': 'h', 'dt64[D]': 'D', 'dt64[W]': 'W', 'dt64[M]': 'M', 'dt64[Y]': 'Y',
        'list date': 'D', 'scalar date': 'D'}


def zone(desc):
    """tzinfo of a description: ['zoneinfo', name], ['pytz', name], ['offset', minutes], ['pytzoffset', min]"""
    if desc is None:
        return None
    kind, arg = desc
    return {'zoneinfo': zoneinfo.ZoneInfo, 'pytz': pytz.timezone,
            'offset': lambda m: dt.timezone(dt.timedelta(minutes=m)), 'utc': lambda _: dt.timezone.utc,
            'pytzoffset': pytz.FixedOffset}[kind](arg)


# what holds nanoseconds
NANO = ['dt64[ns]', 'list dt64', 'tuple dt64', 'list Timestamp', 'scalar Timestamp', 'index', 'dataarray',
        'scalar dt64', 'index object', 'big-endian[ns]', 'strided', 'reversed', 'readonly', 'pandas array']


def write(u, form, tz, us=None, ns=None):
    """the instants u (unix seconds, microseconds us, and nanoseconds ns) in a container"""
    base = np.asarray(u, dtype=np.int64).astype('datetime64[s]')
    if us is not None:
        base = base.astype('datetime64[us]') + np.asarray(us, dtype='timedelta64[us]')
    if ns is not None:
        base = base.astype('datetime64[ns]') + np.asarray(ns, dtype='timedelta64[ns]')
    # (adding a timedelta would lose the fold of ambiguous times)
    py = [zones.aware(x, tz or dt.timezone.utc).replace(microsecond=y) for x, y in zip(u, us or [0]*len(u))]
    if tz is None:
        py = [x.replace(tzinfo=None) for x in py]
    if form == 'index regular':
        form = 'index'
    if form.startswith('index'):
        if form == 'index str':
            return pd.Index([x.isoformat('T', 'seconds' if us is None else 'microseconds') for x in py])
        idx = pd.DatetimeIndex(base.astype('datetime64' + form[5:] if '[' in form else 'datetime64[ns]'))
        if tz is not None:
            idx = idx.tz_localize('UTC').tz_convert(tz)
        return pd.Index(list(idx), dtype=object) if form == 'index object' else idx
    if form.startswith('dt64'):
        return base.astype('datetime64' + form[4:])
    if form.startswith('big-endian'):
        return base.astype('>M8' + form[10:])
    if form == 'strided':
        return np.repeat(base, 3)[1::3]
    if form == 'reversed':
        return base[::-1].copy()[::-1]
    if form == 'readonly':
        base.flags.writeable = False
        return base
    if form == 'pandas array':
        idx = pd.DatetimeIndex(base)
        return (idx if tz is None else idx.tz_localize('UTC').tz_convert(tz)).array
    if form == 'list mixed':
        return [(x, y, pd.Timestamp(x))[i % 3] for i, (x, y) in enumerate(zip(py, base))]
    if form == 'dataarray':
        return xr.DataArray(base.astype('datetime64[ns]'), dims='t')
    kind, what = form.split(' ')
    spec = 'seconds' if us is None else 'microseconds'     # pandas wants the same format in all of them
    text = lambda sep: [x.isoformat(sep, spec) for x in py]      # noqa: E731
    seq = {'dt64': lambda: list(base), 'datetime': lambda: py,
           'Timestamp': lambda: [pd.Timestamp(x).as_unit('ns') + pd.Timedelta(n, 'ns') if ns else pd.Timestamp(x)
                                 for x, n in zip(py, ns or py)],
           'date': lambda: [x.date() for x in py], 'strZ': lambda: [x + 'Z' for x in text('T')],
           'str': lambda: text(' '), 'strT': lambda: text('T'), 'object': lambda: py}
    seq = seq[what]()
    if kind == 'scalar':
        return seq[0]
    if kind == 'array':
        return np.array(seq, dtype=object if what == 'object' else None)
    return tuple(seq) if kind == 'tuple' else seq


def forms(case, ctx):
    form, tz = case['form'], zone(case['tz'])
    u = case['t'][:1] if form.startswith('scalar') else case['t']
    if form in UNIT:
        u = api.dt64(u).astype(f'datetime64[{UNIT[form]}]').astype('datetime64[s]').astype(np.int64).tolist()
    if form == 'index regular':
        u = [u[0] + 900*i for i in range(len(u) + 3)]
    lat, lon = case['lat'], case['lon']
    if case['usecase'] == 'transect':
        lat = [lat[i % len(lat)] for i in range(len(u))]
        lon = [lon[i % len(lon)] for i in range(len(u))]
    elif case['usecase'] == 'sites':
        n = min(len(lat), len(lon))
        lat, lon = lat[:n], lon[:n]
    plain = {**case, 't': u, 'lat': lat, 'lon': lon, 'tz': None}
    us = case.get('us') and (case['us']*len(u))[:len(u)]
    if not us or form in UNIT or form == 'list mixed' or '[s]' in form or form == 'index regular':
        us = None
    elif '[ms]' in form:
        us = [x//1000*1000 for x in us]
    ns = (case.get('nano', [0])*len(u))[:len(u)] if us and form in NANO else None
    times = write(u, form, tz, us, ns)
    import sunwhere
    sw = getattr(sunwhere, case['usecase'])(times, lat, lon, algorithm=case['alg'], engine=case['eng'],
                                            refraction=case['refr'])
    want = api.call(plain)
    text = f'{form} of {[cmp.iso(x) for x in u[:4]]} UTC, time zone {case["tz"]}, {case["usecase"]}'

    cmp.shapes(plain, sw)
    for v in ('zenith', 'azimuth', 'declination', 'eot', 'ecf'):
        a, b = api.raw(getattr(sw, v)), api.raw(getattr(want, v))
        d = np.abs(a - b) if a.shape == b.shape else np.inf
        if us and v == 'azimuth':
            d = np.abs(cmp.angle(a - b))*np.sin(np.radians(api.raw(want.zenith)))
        if not np.all(d <= (.02 if us else 2e-6)):
            raise Violation(f'{v} differs from that of the same instants in UTC ({text}): '
                            f'{a.ravel()[:4]} and {b.ravel()[:4]}')
    # reported times
    add, more = us or [0]*len(u), ns or [0]*len(u)
    utc = [zones.aware(x, dt.timezone.utc).replace(microsecond=y) for x, y in zip(u, add)]
    local = [zones.aware(x, tz or dt.timezone.utc).replace(microsecond=y) for x, y in zip(u, add)]
    for name, got, exp in (('times', sw.times, local), ('times_utc', sw.times_utc, utc),
                           ('local_standard_time', sw.local_standard_time, local)):
        if len(got) != len(exp):
            raise Violation(f'{name} has {len(got)} elements for {len(exp)} times ({text})')
        for g, e, n in zip(got, exp, more):
            g = pd.Timestamp(g)
            if g.nanosecond != n:
                raise Violation(f'{name} reports {g!r} for {e.isoformat()} and {n} ns ({text})')
            g = g - pd.Timedelta(n, 'ns')
            if g.tzinfo is None or g.to_pydatetime() - zones.EPOCH != e - zones.EPOCH or g.utcoffset() != e.utcoffset():
                raise Violation(f'{name} reports {g!r} for {e.isoformat()} ({text})')
    walls = [np.datetime64(x.replace(tzinfo=None), 'ns') + np.timedelta64(n, 'ns') for x, n in zip(local, more)]
    for name in ('zenith', 'azimuth', 'declination', 'eot', 'ecf', 'true_solar_time'):
        c = getattr(sw, name).coords['time'].values
        if list(c.astype('datetime64[ns]')) != walls:
            raise Violation(f'time coordinate of {name} is {c[:4]}, expected the wall clock {walls[:4]} ({text})')
    # name of the time zone
    if tz is None:
        names = {'UTC'}
    elif case['tz'][0] in ('zoneinfo', 'pytz') and 'str' not in form:
        names = {case['tz'][1]}
    else:
        names = None       # several names for the same fixed offset
    if names is not None and sw.timezone not in names:
        raise Violation(f'timezone is {sw.timezone!r}, expected {names} ({text})')
    if not isinstance(sw.timezone, str):
        raise Violation(f'timezone is not a str ({text})')
    if u:
        ctx.nontrivial(len(u))


CHECKS = {'forms': forms}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['naive', 'zoneinfo', 'pytz', 'zoneinfo', 'pytz', 'offset', 'pytzoffset', 'utc']))
    form = draw(st.sampled_from(NAIVE if kind == 'naive' else AWARE))
    near = None
    if kind == 'naive':
        tz = None
    elif kind in ('zoneinfo', 'pytz'):
        name = draw(st.sampled_from(zones.NAMES))
        tz = [kind, name]
        near = zones.transitions(name) or None
    elif kind == 'utc':
        tz = ['utc', 0]
    else:
        tz = [kind, draw(st.sampled_from(zones.OFFSETS))]
    n = draw(st.integers(1, 5))
    if near and draw(st.booleans()):
        base = draw(st.sampled_from(near))
        t = [base + draw(st.integers(-9000, 9000) | st.sampled_from([-3601, -3600, -1800, -1, 0, 1, 1800, 3599, 3600]))
             for _ in range(n)]
    else:
        lo, hi = (gen.LO, gen.HI) if tz is None or tz[0] != 'zoneinfo' else (gen.unix(1850), gen.unix(2100))
        if tz and tz[0] == 'pytz':
            lo, hi = gen.unix(1950), gen.unix(2037)
        t = [draw(st.integers(lo, hi - 1)) for _ in range(n)]
    if 'str' in form and tz and tz[0] in ('zoneinfo', 'pytz'):
        t = [max(x, gen.unix(1975)) for x in t[:1]]     # (no local mean times, with seconds) one offset only: pandas refuses to mix them in strings
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    m = draw(st.integers(1, 3))
    return dict(form=form, tz=tz, usecase=draw(st.sampled_from(api.USECASES)), t=t, alg=alg, eng=eng,
                refr=draw(st.booleans()),
                us=draw(st.none() | st.none() | st.lists(st.integers(0, 999999), min_size=1, max_size=5)),
                nano=draw(st.lists(st.integers(0, 999), min_size=1, max_size=3)),
                lat=[draw(st.integers(-90, 90)) + 0. for _ in range(m)],
                lon=[draw(st.integers(-180, 179)) + 0. for _ in range(m)])


def long(rng, k):
    """many times"""
    naive = k % 2 == 0
    forms = [f for f in (NAIVE if naive else AWARE) if not f.startswith('scalar')]
    form = forms[k//2 % len(forms)]
    n = int(10**rng.uniform(.8, 3.5))
    tz, near, lo, hi = None, None, gen.LO, gen.HI
    if not naive:
        kind = str(rng.choice(['zoneinfo', 'pytz', 'offset', 'utc', 'pytzoffset']))
        if 'str' in form:       # one offset only: pandas refuses to mix them in strings
            kind = 'offset'
        tz = [kind, 0]
        if kind in ('zoneinfo', 'pytz'):
            tz[1] = str(rng.choice(zones.NAMES))
            near = zones.transitions(tz[1])
            lo, hi = gen.unix(1950), gen.unix(2037)
        elif kind != 'utc':
            tz[1] = int(rng.choice(zones.OFFSETS))
    t = rng.integers(lo, hi, n)
    way = int(rng.integers(0, 4))
    if near and rng.random() < .6:
        t = rng.choice(near, n) + rng.integers(-9000, 9000, n)
    elif way < 2:        # a series, or times nearby
        step = int(rng.choice([1, 1, 7, 20, 60, 600, 3600, 86400]))
        t = t[0] - abs(t[0] - lo)//2 + (step*np.arange(n) if rng.random() < .7 else rng.integers(0, 1 + step*n, n))
        t = t[(t >= lo) & (t < hi)]
    elif way == 2:
        t = np.sort(t)
    elif way == 3:      # with repetitions
        t = rng.choice(t[:1 + n//3], n)
    alg, eng = api.CONFIGS[k % len(api.CONFIGS)]
    m = int(rng.integers(1, 4))
    return dict(form=form, tz=tz, usecase=str(rng.choice(api.USECASES)), t=[int(x) for x in t], alg=alg, eng=eng,
                refr=bool(rng.integers(2)), us=[int(x) for x in rng.integers(0, 10**6, 5)] if rng.random() < .3 else None,
                nano=[int(x) for x in rng.integers(0, 1000, 3)],
                lat=[float(x) for x in rng.integers(-90, 91, m)], lon=[float(x) for x in rng.integers(-180, 180, m)])


def run(ctx):
    ctx.hyp('forms', cases(), ctx.n(1700))
    ctx.bulk('forms', long, ctx.n(234), lambda c: [('t',)], 'long')
