"""C20: the command line."""
import datetime as dt
import functools
import os
import re
import time
import zoneinfo

import numpy as np
from hypothesis import strategies as st
from typer.testing import CliRunner

import sunwhere
from sunwhere._cli.main import app
from pbt import gen, ref, zones
from pbt.core import Violation

ID = 'C20'
RULE = ('a case is one command line, run in process; oracle: the library evaluated at the instant that the wall '
        'clock denotes (by Python zoneinfo), each printed number within half a unit of its last digit (times '
        'within 1 s); malformed lines must fail and print no ephemeris; non-trivial: an ephemeris is expected')
ASSUMPTIONS = ['wall clocks skipped or repeated by a change of the UTC offset may be refused',
               'names of days and months are those of the C locale']
RUN = CliRunner()
EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October',
          'November', 'December']


def table(text):
    rows = {}
    for line in text.splitlines():
        cols = [c.strip() for c in re.split('[║│|]', line)]
        if len(cols) == 4 and cols[1]:
            rows[cols[1]] = cols[2]
    return rows


def invoke(argv):
    res = RUN.invoke(app, argv)
    return res.exit_code, res.output, table(res.output)


def number(rows, key, unit, argv):
    if key not in rows:
        raise Violation(f'{key} is not printed ({argv})')
    m = re.fullmatch(r'(-?\d+\.\d{4})' + unit, rows[key])
    if not m:
        raise Violation(f'{key} is printed as {rows[key]!r} ({argv})')
    return float(m.group(1))


def seconds(s):
    h, m, s = s.split(':')
    return int(h)*3600 + int(m)*60 + int(s)


def check_rows(rows, u, lat, lon, alg, refr, tzname, argv):
    """rows of the table of instant u (unix seconds)"""
    tz = zoneinfo.ZoneInfo(tzname)
    sw = sunwhere.sites(np.array([u], dtype='datetime64[s]'), [lat], [lon], algorithm=alg, refraction=refr)
    wall = (EPOCH + dt.timedelta(seconds=u)).astimezone(tz)
    # text
    want = {'Day of week': DAYS[wall.weekday()], 'Date': f'{wall.day:02d} {MONTHS[wall.month-1]} {wall.year}',
            'Time': f'{wall:%H:%M:%S}({wall.tzname()})'}
    for k, v in want.items():
        if rows.get(k) != v:
            raise Violation(f'{k} is printed as {rows.get(k)!r}, expected {v!r} ({argv})')
    # numbers
    one = lambda a: float(np.asarray(a.values).ravel()[0])     # noqa: E731
    for k, unit, v in (('Latitude', '°', lat), ('Longitude', '°', lon), ('Declination', '°', one(sw.declination)),
                       ('Sun-Earth distance', ' AU', one(sw.ecf)**-.5), ('Zenith', '°', one(sw.zenith)),
                       ('Elevation', '°', 90 - one(sw.zenith)), ('Azimuth (0° south)', '°', one(sw.azimuth))):
        got = number(rows, k, unit, argv)
        if not abs(got - v) <= .51e-4:
            raise Violation(f'{k} is printed as {got}, expected {v} ({argv})')
    # equation of time
    m = re.fullmatch(r'(-?)(\d+):(\d+\.\d) min', rows.get('Equation of time', ''))
    if not m or float(m.group(3)) >= 60:
        raise Violation(f'the equation of time is printed as {rows.get("Equation of time")!r} ({argv})')
    got = (int(m.group(2)) + float(m.group(3))/60)*(-1 if m.group(1) else 1)
    if not abs(got - one(sw.eot)) <= .051/60:
        raise Violation(f'the equation of time is printed as {m.group(0)}, expected {one(sw.eot)} minutes ({argv})')
    # sunrise and sunset
    tantan = abs(np.tan(np.radians(lat))*np.tan(np.radians(one(sw.declination))))
    for name, a in (('Sunrise', sw.sunrise('utc')), ('Sunset', sw.sunset('utc'))):
        x = np.asarray(a.values).ravel()[0].astype('datetime64[ns]')
        for zone in ('UTC', tzname):
            text = rows.get(f'{name}({zone})')
            if text is None:
                raise Violation(f'{name}({zone}) is not printed ({argv})')
            if np.isnat(x):
                if re.search(r'\d', text):
                    raise Violation(f'{name}({zone}) is printed as {text!r} but there is none ({argv})')
                continue
            if abs(tantan - 1) < 1e-9 and not re.search(r'\d', text):
                continue
            e = (EPOCH + dt.timedelta(microseconds=int(x.astype(np.int64))//1000)).astimezone(zoneinfo.ZoneInfo(zone))
            if not re.fullmatch(r'\d\d:\d\d:\d\d', text):
                raise Violation(f'{name}({zone}) is printed as {text!r} ({argv})')
            d = (seconds(text) - (e.hour*3600 + e.minute*60 + e.second) + 43200) % 86400 - 43200
            if abs(d) > 1:
                raise Violation(f'{name}({zone}) is printed as {text}, expected {e:%H:%M:%S} ({argv})')


def refused(code, out, rows, argv):
    if code == 0:
        raise Violation(f'exit code 0 ({argv}): {out[:200]!r}')
    if 'Zenith' in out or 'Declination' in out:
        raise Violation(f'an ephemeris is printed together with exit code {code} ({argv})')


def argv_of(case):
    argv = [case['time']]
    for k in ('lat', 'lon'):
        if case[k] is not None:
            argv.append(case[k])
    opts = []
    if case['alg'] is not None:
        opts += [('-a', '--algorithm')[case['short']], case['alg']]
    if case['refr'] is not None:
        opts += ['--refraction' if case['refr'] else '--no-refraction']
    if case['tz'] is not None:
        opts += [('-z', '--timezone')[case['short']], case['tz']]
    return ['at'] + (opts + argv if case['first'] else argv + opts)


def at(case, ctx):
    argv = argv_of(case)
    code, out, rows = invoke(argv)
    tzname = case['tz'] or 'UTC'
    tz = zoneinfo.ZoneInfo(tzname)
    naive = EPOCH.replace(tzinfo=None) + dt.timedelta(seconds=case['wall'])
    both = {naive.replace(tzinfo=tz, fold=f).astimezone(dt.timezone.utc) for f in (0, 1)}
    if len(both) > 1:
        if code:
            return refused(code, out, rows, argv)
        return
    utc = both.pop()
    if utc.astimezone(tz).replace(tzinfo=None) != naive:
        return                                          # skipped wall clock
    if code:
        raise Violation(f'exit code {code} ({argv}): {out[:200]!r}')
    u = int((utc - EPOCH).total_seconds())
    lat, lon = (36.949, -3.822)
    if case['lat'] is not None:
        lat = float(case['lat'][:-1])*(1 if case['lat'][-1] in 'nN' else -1)
    if case['lon'] is not None:
        lon = float(case['lon'][:-1])*(1 if case['lon'][-1] in 'eE' else -1)
    check_rows(rows, u, lat, lon, case['alg'] or 'psa', case['refr'] is not False, tzname, argv)
    ctx.nontrivial()


def bad(case, ctx):
    argv = argv_of(case)
    code, out, rows = invoke(argv)
    if case.get('offset') is not None and code == 0:        # accepted: then, as the instant that it denotes
        d = dt.datetime.fromisoformat(case['time'])
        lat, lon = (float(case[k][:-1])*(1 if case[k][-1] in 'nNeE' else -1) for k in ('lat', 'lon'))
        check_rows(rows, int((d - EPOCH).total_seconds()), lat, lon, case['alg'] or 'psa', case['refr'] is not False,
                   case['tz'] or 'UTC', argv)
        return ctx.nontrivial()
    refused(code, out, rows, argv)
    ctx.nontrivial()


def now(case, ctx):
    """the current instant, whatever the time zone of the machine"""
    argv = ['at'] + (['now'] if case['explicit'] else []) + (['-z', case['tz']] if case['tz'] else [])
    if case.get('change'):          # the clocks of the time zone change now
        with zones.changing(int(time.time()) + case['change'][0], *case['change'][1:]) as tz:
            return now(dict({**case, 'tz': tz}, change=None), ctx)
    old = os.environ.get('TZ')
    try:
        os.environ['TZ'] = case['machine']
        time.tzset()
        lo = time.time()
        code, out, rows = invoke(argv)
        hi = time.time()
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()
    if code:
        raise Violation(f'exit code {code} ({argv}): {out[:200]!r}')
    tzname = case['tz'] or 'UTC'
    cand = range(int(lo) - 1, int(hi) + 2)
    msg = None
    for u in cand:
        try:
            check_rows(rows, u, 36.949, -3.822, 'psa', True, tzname, argv)
            ctx.nontrivial()
            return
        except Violation as exc:
            msg = msg or str(exc)
    raise Violation(f'now, with the machine in {case["machine"]}: {msg}')


CHECKS = {'at': at, 'bad': bad, 'now': now}


@functools.lru_cache(None)
def whole_minutes(alg):
    """instants at which the equation of time is less than 0.05 s short of whole minutes"""
    u = np.arange(gen.unix(2005), gen.unix(2030), 211)
    eot = np.concatenate([np.broadcast_to(ref.MODELS[alg](np.array(x, dtype=np.float64))['eot'], x.shape)
                          for x in np.array_split(u, 40)])
    return [int(x) for x in u[np.abs(eot) % 1 > 1 - .045/60]]


def digits(x, n):
    return f'{x:.{n}f}'


@st.composite
def places(draw):
    lat = draw(st.sampled_from(['90', '0', '66.5622', '36.949', '89.9999', '0.00001', '45.', '.5', '7']) |
               st.floats(0, 90).map(lambda x: digits(x, 6)) | st.floats(0, 1).map(lambda x: digits(x, 4)) | st.integers(0, 90).map(str))
    lon = draw(st.sampled_from(['0', '179.9999', '3.822', '15', '.5', '0.00001']) |
               st.floats(0, 179.99).map(lambda x: digits(x, 6)) | st.floats(0, 1).map(lambda x: digits(x, 4)) | st.integers(0, 179).map(str))
    ns, ew = draw(st.sampled_from('NSns')), draw(st.sampled_from('EWew'))
    if ew in 'Ww' and draw(st.integers(0, 9)) == 0:
        lon = '180'
    return lat + ns, lon + ew


@st.composite
def lines(draw):
    tz = draw(st.sampled_from([None, None] + zones.NAMES))
    near = zones.transitions(tz) if tz else []
    t = st.integers(gen.unix(1900), gen.unix(2100)) | st.integers(gen.unix(2000), gen.unix(2037))
    if near:
        tzi = zoneinfo.ZoneInfo(tz)
        t = t | st.tuples(st.sampled_from(near), st.integers(-86400, 86400)).map(sum)
        off = lambda u: int((EPOCH + dt.timedelta(seconds=u)).astimezone(tzi).utcoffset().total_seconds())  # noqa
    else:
        t = t | st.integers(gen.LO, gen.HI - 1)
        off = lambda u: 0       # noqa: E731
    wall = draw(t)
    wall += off(wall)
    form = draw(st.integers(0, 5))
    if form == 0:
        wall -= wall % 86400
    elif form == 1:
        wall -= wall % 60
    d = EPOCH + dt.timedelta(seconds=wall)
    text = [f'{d:%Y-%m-%d}', f'{d:%Y-%m-%d %H:%M}', f'{d:%Y-%m-%dT%H:%M:%S}', f'{d:%Y-%m-%d %H:%M:%S}',
            f'{d:%Y%m%dT%H%M%S}', f'{d:%Y-%m-%d %H:%M:%S}.000'][form]
    lat, lon = draw(places())
    if draw(st.integers(0, 7)) == 0:
        lon = None
        if draw(st.booleans()):
            lat = None
    return dict(time=text, wall=wall, lat=lat, lon=lon, alg=draw(st.sampled_from([None, 'psa', 'nrel', 'soltrack', 'iqbal'])),
                refr=draw(st.sampled_from([None, True, False])), tz=tz, short=draw(st.integers(0, 1)),
                first=draw(st.booleans()))


@st.composite
def carries(draw):
    c = draw(lines())
    alg = draw(st.sampled_from(['psa', 'soltrack', 'iqbal']))
    c.update(alg=alg, tz=None, wall=draw(st.sampled_from(whole_minutes(alg))))
    c['time'] = f'{EPOCH + dt.timedelta(seconds=c["wall"]):%Y-%m-%dT%H:%M:%S}'
    return c


@st.composite
def bad_lines(draw):
    c = draw(lines())
    lat, lon = draw(places())
    c['lat'], c['lon'] = lat, lon
    c['time'] = f'{EPOCH + dt.timedelta(seconds=draw(st.integers(gen.unix(1980), gen.unix(2030)))//86400*86400):%Y-%m-%d}'
    c['time'] += 'T12:00:00'
    kind = draw(st.sampled_from(['lat', 'lon', 'hemi', 'alg', 'tz', 'time', 'offset']))
    if kind == 'lat':
        c['lat'] = draw(st.sampled_from(['90.0001', '91', '100', '180', 'abc', '', '12,5', '1e3', 'inf', 'nan'])) + \
            draw(st.sampled_from('NSns'))
    elif kind == 'lon':
        c['lon'] = draw(st.sampled_from(['180.0001', '181', '360', '200', 'abc', '', '12,5', '1e3', 'inf', 'nan'])) + \
            draw(st.sampled_from('EWew'))
    elif kind == 'hemi':
        k = draw(st.sampled_from(['lat', 'lon']))
        c[k] = c[k][:-1] + draw(st.sampled_from(['', 'x', 'Q', 'EW'[0] if k == 'lat' else 'N', 'W' if k == 'lat' else 's',
                                                 '°', '5']))
    elif kind == 'alg':
        c['alg'] = draw(st.sampled_from(['PSA', 'spa', 'foo', '', 'nrel ', 'numpy']))
    elif kind == 'tz':
        c['tz'] = draw(st.sampled_from(['Mars/Olympus', 'foo', 'Europe/Nowhere', 'UTC+25:99']))
    elif kind == 'offset':
        c['offset'] = draw(st.sampled_from(['+02:00', '-09:30', '+00:00']))
        c['time'] += c['offset']
    else:
        c['time'] = draw(st.sampled_from(['xx', '2024-13-01', '2023-02-29', '2024-02-30T12:00', 'yesterdayish',
                                          '2024-01-01T25:00:00', '2024-01-01 12:61:00', 'noon?']))
    return c


def run(ctx):
    # every hemisphere, at every distance from the equator and Greenwich
    for lat, lon in [('0.25', '0.75'), ('.0625', '.03125'), ('5.5', '8.5'), ('12.125', '12.875'),
                     ('66.5', '123.4'), ('89.75', '179.875')]:
        for ns, ew in ('NE', 'SW', 'nw', 'se'):
            ctx.one('at', dict(time='2023-03-05 15:12', wall=gen.unix(2023) + 63*86400 + 54720, lat=lat + ns, lon=lon + ew,
                               alg=None, refr=None, tz=None, short=0, first=False))
    ctx.hyp('at', lines(), ctx.n(200))
    ctx.hyp('at', carries(), ctx.n(30), 'eot')
    ctx.hyp('bad', bad_lines(), ctx.n(60))
    for machine in ['UTC', 'Asia/Tokyo', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Kiritimati', 'Pacific/Honolulu']:
        for tz in [None, 'UTC', 'Europe/Madrid', 'Asia/Kolkata', 'Pacific/Honolulu']:
            if tz is None or ctx.thorough or (len(machine) + len(tz)) % 2:
                ctx.one('now', dict(machine=machine, tz=tz, explicit=tz is None and len(machine) % 2 == 0 or tz is not None))
    for change in ((-600, 3600, 0), (600, 3600, 0), (-600, 0, 3600), (600, 0, 3600), (-900, 5400, 3600), (900, -3600, -5400)):
        ctx.one('now', dict(machine='UTC', tz=None, explicit=True, change=change))
