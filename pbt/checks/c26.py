"""C26: the curves of solar charts."""
import datetime as dt
import io
import logging
import os
import tempfile
import re
import time
import zoneinfo

os.environ['MPLBACKEND'] = 'Agg'
logging.getLogger('matplotlib').setLevel(logging.CRITICAL)

import numpy as np                                          # noqa: E402
import pandas as pd                                         # noqa: E402
from hypothesis import strategies as st                     # noqa: E402

import sunwhere                                             # noqa: E402
from sunwhere._cli import solar_chart as sc                 # noqa: E402
from pbt import zones                                       # noqa: E402
from pbt.core import Violation                              # noqa: E402

ID = 'C26'
RULE = ('a case is one chart (site, date, time zone, projection, days and hours of the grid), drawn without a '
        'display; every curve drawn must be one of the expected ones and every expected one be drawn; oracle: the '
        'library (sites, with refraction) at the instants that the wall clocks denote (by Python zoneinfo); '
        'non-trivial: at least one curve is compared')
ASSUMPTIONS = ['wall clocks skipped or repeated by a change of the UTC offset are left out of the curves',
               'the module is not reachable from the command line yet: its classes and functions are called']
UTC = dt.timezone.utc


def instants(walls, tz):
    """UTC instants (datetime64[s]) of the wall clocks, without those skipped or repeated"""
    z = zoneinfo.ZoneInfo(tz)
    out = []
    for w in walls:
        a, b = (w.replace(tzinfo=z, fold=f).astimezone(UTC).replace(tzinfo=None) for f in (0, 1))
        if a == b:
            out.append(np.datetime64(a, 's'))
    return np.array(out, dtype='datetime64[s]')


def days_of(year):
    return 366 if pd.Timestamp(year, 1, 1).is_leap_year else 365


def daily(year, month, day, step, tz):
    d = dt.datetime(year, month, day)
    return instants([d + dt.timedelta(minutes=step*i) for i in range(1440//step)], tz)


def expected(case):
    tz, ts = case['tz'], dt.datetime.fromisoformat(case['time'])
    y, out = ts.year, {}
    for m in case.get('outlines', (6, 12)):
        out[f'outline of 21/{m}'] = daily(y, m, 21, 2, tz)
    days = [(d, m) for d in case['days'] or (15,) for m in case['months'] or (1, 2, 3, 4, 5, 7, 8, 9, 10, 11)]
    for d, m in sorted(set(days) | {(21, 6), (21, 12)}):
        out[f'path of {d}/{m}'] = daily(y, m, d, 5, tz)
    for h in case['hours'] or range(24):
        for mi in case['minutes'] or (0,):
            out[f'curve of {h}:{mi:02d}'] = instants(
                [dt.datetime(y, 1, 1, h, mi) + dt.timedelta(days=i) for i in range(days_of(y))], tz)
    if case['user']:
        u = ts.replace(tzinfo=zoneinfo.ZoneInfo(tz)).astimezone(UTC).replace(tzinfo=None)
        out['path of the day'] = daily(y, ts.month, ts.day, 5, tz)
        out['position'] = np.array([u], dtype='datetime64[s]')
        out['curve of the time'] = np.array(
            [u.replace(month=1, day=1) + dt.timedelta(days=i) for i in range(days_of(y))], dtype='datetime64[s]')
    return out


def chart(case, ctx):
    if case.get('change'):          # the clocks of the time zone change now
        with zones.changing(int(time.time()) + case['change'][0], *case['change'][1:]) as tz:
            return chart(dict(case, tz=tz, change=None), ctx)
    lat, lon = case['lat'], case['lon']
    kw = {k: case[k] for k in ('days', 'months', 'hours', 'minutes') if case[k]}
    made = []
    if not kw:                  # the default grid: through the function
        old = sc.SolarChart

        class Recorded(old):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                made.append(self)
        sc.SolarChart = Recorded
        try:
            with tempfile.TemporaryDirectory(prefix='verif-c26-') as d:
                more = {}
                if case.get('file'):
                    more = dict(filename=os.path.join(d, 'a chart.png'), transparent=case['file'] == 'transparent')
                sc.make_solar_chart(lat, lon, case['time'] if case['user'] else None, case['tz'], case['polar'], **more)
                if more:
                    written(case, more['filename'])
                if os.listdir(d) != ['a chart.png']*len(more and [1]):
                    raise Violation(f'files {os.listdir(d)} are written')
        finally:
            sc.SolarChart = old
        c = made[0]
        if not case['user']:    # the year is the present one
            case = {**case, 'time': f'{dt.datetime.now(zoneinfo.ZoneInfo(case["tz"])):%Y-%m-%dT%H:%M:%S}'}
    else:
        when = {'str': str, 'datetime': dt.datetime.fromisoformat, 'pandas': pd.Timestamp}[case.get('form', 'str')](case['time'])
        c = sc.SolarChart(lat, lon, when, case['tz'], case['polar'])
        for m, name in ((6, 'include_solstice'), (12, 'include_equinox')):
            if m not in case.get('outlines', (6, 12)):
                kw[name] = False
        c.draw_solar_grid(**kw)
        if case.get('other'):       # another chart meanwhile
            o = sc.SolarChart(-lat, min(-lon, 179.), '2001-02-03T12:00', 'UTC', not case['polar'])
            o.draw_background_grid()
            sc.pl.close(o.fig)
        if case['user']:
            c.draw_solar_path(case['time'])
    try:
        check(case, c, ctx)
    finally:
        sc.pl.close(c.fig)


def written(case, name):
    """the chart in a file: 150 dots per inch, with some ink, over a white or a transparent background"""
    image = sc.pl.imread(name)
    if image.shape[:2] != ((1500, 1500) if case['polar'] else (1350, 1800)):
        raise Violation(f'the chart in the file has {image.shape[:2]} dots')
    alpha = image[..., 3] if image.shape[2] > 3 else np.ones(image.shape[:2])
    if (alpha[0, 0] == 0) != (case['file'] == 'transparent') or (alpha[0, 0] and image[0, 0, :3].min() < 1):
        raise Violation(f'the corner of the chart in the file is {image[0, 0]} ({case["file"]})')
    if (np.ptp(image[..., :3], axis=2) > .2).mean() < 1e-3:
        raise Violation('the chart in the file has no curves')


def check(case, c, ctx):
    lat, lon = case['lat'], case['lon']
    text = f'lat {lat!r}, lon {lon!r}, {case["time"]}, {case["tz"]}, polar={case["polar"]}'
    want = expected(case)
    t = np.concatenate(list(want.values()))
    sw = sunwhere.sites(t, [lat], [lon])
    az, el = np.asarray(sw.azimuth.values).ravel(), np.asarray(sw.elevation.values).ravel()
    if case['polar']:
        az = np.radians(az)
    lines = [(np.asarray(x.get_xdata(), dtype=float), np.asarray(x.get_ydata(), dtype=float)) for x in c.ax.lines]
    used = set()

    def same(a, b, x, y):
        return a.shape == x.shape and np.all(np.abs(a - x) <= 1e-6) and np.all(np.abs(b - y) <= 1e-6)
    k = 0
    for name, w in want.items():
        x, y = az[k:k + len(w)], el[k:k + len(w)]
        k += len(w)
        if name == 'curve of the time':     # (some days may be left out)
            hits = [i for i, (a, b) in enumerate(lines) if len(x) - 3 <= len(a) <= len(x) and all(
                np.min(np.abs(x - p) + np.abs(y - q)) < 1e-6 for p, q in zip(a, b))]
        else:
            hits = [i for i, (a, b) in enumerate(lines) if same(a, b, x, y)]
        if not hits:
            raise Violation(f'the {name} is not drawn ({text})')
        used.update(hits)
    rest = set(range(len(lines))) - used
    if rest:
        x, y = lines[min(rest)]
        raise Violation(f'an unexpected curve is drawn: {len(x)} points, from {x[:2]}, {y[:2]} ({text})')
    # cardinal points
    if case['render']:
        buf = io.BytesIO()
        c.savefig(buf, dpi=40, format='png')
        if not buf.getvalue().startswith(b'\x89PNG'):
            raise Violation(f'the chart is not written ({text})')
    for label in c.ax.texts:
        word = label.get_text()
        if label.get_transform() is not c.ax.transAxes and word[:1] in 'NSEW' and word.strip().lower() not in (
                'n', 's', 'e', 'w', 'north', 'south', 'east', 'west'):
            continue
        if word.lower() in ('s', 'south', 'e', 'east', 'w', 'west') or word == 'N':
            where = {'s': 0., 'e': -90., 'w': 90., 'n': 180.}[word[0].lower()]
            px, py = c.ax.transAxes.transform(label.get_position())
            if case['polar']:       # direction from the centre of the chart
                cx, cy = c.ax.transAxes.transform((.5, .5))
                a = np.degrees(np.arctan2(py - cy, px - cx)) - np.degrees(c.ax.get_theta_offset())
                a *= c.ax.get_theta_direction()
            else:
                a = c.ax.transData.inverted().transform((px, py))[0]
            if abs((a - where + 180) % 360 - 180) > 25:
                raise Violation(f'the label {word} is at azimuth {a:.1f} ({text})')
    # what is written
    z = zoneinfo.ZoneInfo(case['tz'])
    ts = dt.datetime.fromisoformat(case['time'])
    words = [x.get_text() for x in c.ax.texts]
    for word in words:
        for name, value in (('Latitude', lat), ('Longitude', lon)):
            if word.startswith(name):
                number = float(re.search(r'[-+]?[0-9.]+', word).group())
                if abs(number - value) > .00501:
                    raise Violation(f'{name} {value} is written as {word} ({text})')
        if word.startswith('User path:'):
            got = dt.datetime.fromisoformat(word.split(':', 1)[1].strip())
            if got.tzinfo is None or got.astimezone(UTC) != ts.replace(tzinfo=z).astimezone(UTC):
                raise Violation(f'the time of the path is written as {word!r} ({text})')
    if not any(w.startswith('Latitude') for w in words) or not any(w.startswith('Longitude') for w in words):
        raise Violation(f'the place is not written ({text})')
    if any(w.startswith('User path:') for w in words) != case['user']:
        raise Violation(f'the path of the user is {"not " if case["user"] else ""}announced ({text})')
    # ticks
    for axis, scale in ((c.ax.xaxis, 180/np.pi if case['polar'] else 1.), (c.ax.yaxis, 1.)):
        for where, label in zip(axis.get_ticklocs(), axis.get_ticklabels()):
            number = re.search(r'[-+]?[0-9.]+', label.get_text().replace('\u2212', '-'))
            if number and abs((where*scale - float(number.group()) + 180) % 360 - 180) > .5:
                raise Violation(f'the tick at {where*scale} is labelled {label.get_text()} ({text})')
    # days
    for d, m in sorted(set((d, m) for d in case['days'] or (15,) for m in case['months'] or (1, 2, 3, 4, 5, 7, 8, 9, 10, 11))
                       | {(21, 6), (21, 12)}):
        at = [x.get_position() for x in c.ax.texts if x.get_text() == f'{d:02d}/{m:02d}'
              and x.get_transform() is not c.ax.transAxes]
        if not at:
            raise Violation(f'the path of {d}/{m} has no label ({text})')
        w = want[f'path of {d}/{m}']
        sw = sunwhere.sites(w, [lat], [lon])
        x, y = np.asarray(sw.azimuth.values).ravel(), np.asarray(sw.elevation.values).ravel()
        left, right = np.argsort((x - 1e-9) % -360)[-1], np.argsort((x + 1e-9) % 360)[0]
        lo, hi = sorted((y[left], y[right]))
        for p, q in at:
            if abs(float(np.ravel(p)[0])) > 1e-6 or not lo - 1e-3 <= float(np.ravel(q)[0]) <= hi + 1e-3:
                raise Violation(f'the label of {d}/{m} is at azimuth {p}, elevation {q}; the sun is south at {lo} to {hi} ({text})')
    # hours
    z = zoneinfo.ZoneInfo(case['tz'])
    ts = dt.datetime.fromisoformat(case['time'])
    labels = {}
    for x in c.ax.texts:
        if x.get_transform() is not c.ax.transAxes:
            labels.setdefault(x.get_text().split(' ')[0], []).append(x.get_position())
    hm = [(h, m) for h in case['hours'] or range(24) for m in case['minutes'] or (0,)]
    u = [dt.datetime(ts.year, 6, 21, h, m, tzinfo=z).astimezone(UTC).replace(tzinfo=None) for h, m in hm]
    sw = sunwhere.sites(np.array(u, dtype='datetime64[s]'), [lat], [lon])
    az, el = np.asarray(sw.azimuth.values).ravel(), np.asarray(sw.elevation.values).ravel()
    for (h, m), a, e in zip(hm, az, el):
        word = f'{h}' if m == 0 else f'{h}:{m:02d}'
        if abs(e) < 1e-6:
            continue
        if (word in labels) != (e > 0):
            raise Violation(f'the label of {word} is {"" if word in labels else "not "}drawn for an elevation of {e} ({text})')
        for p, q in labels.get(word, []):
            p = np.degrees(float(np.ravel(p)[0])) if case['polar'] else float(np.ravel(p)[0])
            if abs((p - a + 180) % 360 - 180) > 2.5 or abs(float(np.ravel(q)[0]) - e) > 2.5:
                raise Violation(f'the label of {word} is at azimuth {p}, elevation {q}; the sun is at {a}, {e} ({text})')
    ctx.nontrivial(len(lines))


CHECKS = {'chart': chart}


@st.composite
def cases(draw):
    lat = draw(st.sampled_from([36.949, 0., -33.9, 78.2, -70., 23.4, 10.]) | st.floats(-89.9, 89.9).map(lambda x: round(x, 3)))
    lon = draw(st.sampled_from([-3.822, 0., 151.2, -180., 179.]) | st.floats(-180, 179.9).map(lambda x: round(x, 3)))
    tz = draw(st.sampled_from(zones.NAMES + ['UTC', 'Europe/Madrid', 'Europe/Madrid']))
    y = draw(st.integers(1996, 2035) | st.sampled_from([2000, 2020, 2023, 2024, 1700, 1800, 1900, 2100, 2200])
             | st.integers(1700, 2249))
    # (no clock changes at midday)
    ts = dt.datetime(y, 1, 1) + dt.timedelta(days=draw(st.integers(0, 364)))
    ts = ts.replace(hour=draw(st.integers(0, 23) | st.sampled_from([0, 9, 21, 23])), minute=draw(st.integers(0, 59)))
    z = zoneinfo.ZoneInfo(tz)
    if len({(ts + dt.timedelta(hours=h)).replace(tzinfo=z, fold=f).utcoffset() for h in (-4, 4) for f in (0, 1)}) > 1:
        ts = ts.replace(hour=12)
    default = draw(st.integers(0, 7)) == 7
    opt = lambda s, n: [] if default else draw(st.lists(s, max_size=n, unique=True))     # noqa: E731
    c = dict(lat=lat, lon=lon, tz=tz, time=ts.isoformat(), polar=draw(st.booleans()), user=draw(st.integers(0, 3)) > 0,
             days=opt(st.integers(1, 28), 3), months=opt(st.integers(1, 12), 3), hours=opt(st.integers(0, 23), 3),
             minutes=opt(st.sampled_from([0, 1, 15, 30, 59]) | st.integers(0, 59), 4), render=draw(st.integers(0, 9)) == 9,
             form=draw(st.sampled_from(['str', 'datetime', 'pandas'])), other=draw(st.integers(0, 5)) == 5)
    if default:
        c['file'] = draw(st.sampled_from([None, 'white', 'transparent']))
    if not default:
        c['outlines'] = draw(st.sampled_from([[6, 12], [6, 12], [6], [12], []]))
    if default and not c['user']:       # the present date: not one that may be skipped or repeated
        c['tz'] = 'Asia/Kolkata'
    if not default and not c['hours']:
        c['hours'] = [draw(st.integers(0, 23))]
    return c


def run(ctx):
    ctx.hyp('chart', cases(), ctx.n(110, 1500))
    for change in ((-600, 1800, -1800), (600, 1800, -1800), (-600, -1800, 1800), (600, -1800, 1800)):
        ctx.one('chart', dict(lat=40., lon=3., tz=None, time=None, polar=True, user=False, days=[], months=[], hours=[], minutes=[],
                              render=False, change=change))
    for k, kind in enumerate(('white', 'transparent')):
        ctx.one('chart', dict(lat=-33.5, lon=150., tz='Australia/Sydney', time='2023-11-05T09:30:00', polar=bool(k), user=True, days=[],
                              months=[], hours=[], minutes=[], render=False, file=kind))
