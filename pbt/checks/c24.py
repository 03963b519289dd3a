"""C24: JPL Horizons requests and files."""
import contextlib
import datetime as dt
import io
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile
import urllib.parse
import zoneinfo

import numpy as np
import pandas as pd
import urllib3
from hypothesis import strategies as st
from loguru import logger

from sunwhere.utils import jpl_horizons as jpl
from pbt import cmp, gen
from pbt.core import Violation

ID = 'C24'
RULE = ('a case is a generated Horizons table, a request against a stand-in for the network, or the load of a '
        'year (with injected failures) against a stand-in for the server and for parquet files, in a scratch '
        'folder; oracle: the generated values, the decoded request and the simulated server; non-trivial: at '
        'least one data line is read or one request is answered or refused')
ASSUMPTIONS = ['tables have the fixed columns of Horizons for the requested options; times of whole seconds',
               'no parquet engine is installed here: parquet files are replaced by pickles']
EPOCH = dt.datetime(1970, 1, 1)
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
MAX = 90024
ZONES = ['Europe/Madrid', 'America/St_Johns', 'Asia/Kolkata', 'Pacific/Auckland', 'Asia/Kathmandu']


def line(u, mark, az, el, r):
    d = EPOCH + dt.timedelta(seconds=u)
    jd = u/86400 + 2440587.5
    s = f' {d.year:04d}-{MON[d.month-1]}-{d:%d %H:%M:%S} {jd:17.9f} {mark:2s} {az:>11s} {el:>11s} {r:>17s}\n'
    return s


HEAD = ['*' * 79 + '\n', ' Revised: July 31, 2013                  Sun                                 10\n',
        ' Start time      : A.D. 2024-Jan-01 00:00:00.0000 UT      \n', ' Date__(UT)__HR:MM:SS Date_________JDUT\n',
        '\n', ' $$SOE is the marker of start of ephemeris\n', 'R.T.S. meridian: none (airless)\n']


def table_text(case):
    rows = [line(*x) for x in zip(case['t'], case['mark'], case['az'], case['el'], case['r'])]
    return ''.join(case['head'] + ['$$SOE\n'] + rows + ['$$EOE\n'] + case['foot'])


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-c24-')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield pathlib.Path(d)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def check_table(df, t, az, el, r, text):
    if len(df) != len(t):
        raise Violation(f'{len(df)} rows for {len(t)} data lines ({text})')
    if str(getattr(df.index, 'tz', None)) not in ('UTC', 'utc'):
        raise Violation(f'the index is not in UTC but {getattr(df.index, "tz", None)} ({text})')
    got = df.index.tz_localize(None).to_numpy().astype('datetime64[ns]').astype(np.int64)
    want = np.array(t, dtype=np.int64)*10**9
    if (np.abs(got - want) > 1000).any():
        i = int(np.argmax(np.abs(got - want)))
        raise Violation(f'time of row {i} is {df.index[i]}, expected {cmp.iso(t[i])} UTC ({text})')
    for name, x, tol in (('azimuth', np.array(az) - 180, 1e-9), ('zenith', 90 - np.array(el), 1e-9),
                         ('ecf', 1/np.array(r)**2, 1e-12)):
        if name not in df.columns:
            raise Violation(f'no column {name} but {list(df.columns)} ({text})')
        bad = ~(np.abs(df[name].to_numpy() - x) <= tol)
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation(f'{name} of row {i} is {df[name].to_numpy()[i]!r}, expected {x[i]!r} ({text})')


def read(case, ctx):
    with scratch() as d:
        f = d/'x.txt'
        f.write_text(table_text(case))
        df = jpl.read_jpl_ephemeris_file(str(f) if case['str'] else f)
        check_table(df, case['t'], [float(x) for x in case['az']], [float(x) for x in case['el']],
                    [float(x) for x in case['r']], f'first line {line(*[case[k][0] for k in ("t", "mark", "az", "el", "r")])!r}')
    ctx.nontrivial(len(case['t']))


# -- requests ---------------------------------------------------------------------

@contextlib.contextmanager
def room(size):
    """files cannot grow beyond `size` bytes, as in a full disk"""
    if size is None:
        yield
        return
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    hook = sys.unraisablehook
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    sys.unraisablehook = lambda *args: None
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        sys.unraisablehook = hook


class Network:
    """stands for urllib3's connections: records the requests, replies with `reply(query)`"""

    def __init__(self, reply):
        self.reply, self.queries = reply, []

    def __enter__(self):
        net = self

        def urlopen(self, method, url, *args, **kw):
            parts = urllib.parse.urlsplit(url)
            q = {k: v[0].strip("'") for k, v in urllib.parse.parse_qs(parts.query, keep_blank_values=True).items()}
            net.queries.append((method, f'{parts.scheme}://{parts.hostname}', parts.path, q))
            body = net.reply(q)
            return urllib3.HTTPResponse(body=io.BytesIO(body), status=200, preload_content=kw.get('preload_content', True))
        self.old = urllib3.PoolManager.urlopen
        urllib3.PoolManager.urlopen = urlopen
        return self

    def __exit__(self, *exc):
        urllib3.PoolManager.urlopen = self.old


FIXED = {'format': 'text', 'COMMAND': '10', 'MAKE_EPHEM': 'YES', 'EPHEM_TYPE': 'OBSERVER', 'CENTER': 'coord@399',
         'QUANTITIES': '4,20', 'COORD_TYPE': 'GEODETIC', 'CAL_FORMAT': 'BOTH', 'TIME_DIGITS': 'SECONDS',
         'ANG_FORMAT': 'DEG', 'APPARENT': 'AIRLESS', 'RANGE_UNITS': 'AU', 'SUPPRESS_RANGE_RATE': 'YES',
         'SKIP_DAYLT': 'NO', 'CSV_FORMAT': 'NO', 'R_T_S_ONLY': 'NO', 'SOLAR_ELONG': '0,180', 'EXTRA_PREC': 'NO', 'REF_SYSTEM': 'ICRF',
         'CAL_TYPE': 'M'}


def minutes(s):
    return int((dt.datetime.strptime(s.strip(), '%Y-%m-%d %H:%M') - EPOCH).total_seconds())//60


def check_query(query, start, stop, step, lon, lat, elev, text):
    method, host, path, q = query
    if (method, host, path) != ('GET', 'https://ssd.jpl.nasa.gov', '/api/horizons.api'):
        raise Violation(f'{method} {host}{path} is requested ({text})')
    for k, v in FIXED.items():
        if q.get(k) != v:
            raise Violation(f'{k} is requested as {q.get(k)!r}, expected {v!r} ({text})')
    xyz = [float(x) for x in q.get('SITE_COORD', '').split(',')]
    if len(xyz) != 3 or not np.allclose(xyz, [lon, lat, elev], rtol=0, atol=[5.1e-7, 5.1e-7, 5.1e-4]):
        raise Violation(f'the site is requested as {q.get("SITE_COORD")!r}, expected {(lon, lat, elev)} ({text})')
    for k, v in (('START_TIME', start), ('STOP_TIME', stop)):
        if minutes(q.get(k, '')) != v:
            raise Violation(f'{k} is requested as {q.get(k)!r}, expected {cmp.iso(60*v)} ({text})')
    if q.get('STEP_SIZE', '').upper().split() not in ([str(step), 'MINUTES'], [str(step), 'M'], [str(step), 'MINUTE']):
        raise Violation(f'the step is requested as {q.get("STEP_SIZE")!r}, expected {step} minutes ({text})')


def when(minute, form):
    d = EPOCH + dt.timedelta(minutes=minute)
    zone = ZONES[minute % len(ZONES)]
    aware = d.replace(tzinfo=dt.timezone.utc).astimezone(zoneinfo.ZoneInfo(zone))
    return [d, f'{d:%Y-%m-%d %H:%M}', f'{d:%Y-%m-%dT%H:%M:%S}', np.datetime64(d), pd.Timestamp(d), f'{d:%Y-%m-%d %H:%MZ}',
            aware, pd.Timestamp(aware), pd.Timestamp(d, tz='UTC'), aware.isoformat()][form]


def request(case, ctx):
    start, step = case['start'], case['step']
    stop = start + case['lines']*step - 1 - case['slack'] % step     # minutes
    text = f'{case["lines"]} lines of {step} minutes from {cmp.iso(60*start)}'
    body = case['body'].encode()
    with scratch() as d, Network(lambda q: body) as net:
        out = d.joinpath(*case['path'])
        name = str(out) if case['str'] else out
        if case['already'] is not None:         # from another request
            out.parent.mkdir(parents=True, exist_ok=True)
            out.write_bytes(case['already'].encode())
        kw = {}
        if case['elev'] is not None:
            kw['site_elev'] = case['elev']
        if step != 1 or case['explicit']:
            kw['step_size'] = step
        def files():
            return {str(x): x.read_bytes() for x in d.rglob('*') if x.is_file()}
        before = files(), sorted(os.listdir(d))
        try:
            with room(case['room']):
                got = jpl.get_jpl_ephemeris(name, when(start, case['form']), when(stop, case['form']), case['lon'],
                                            case['lat'], **kw)
        except Exception as e:
            if isinstance(e, OSError) and case['room'] is not None and case['room'] < len(body):
                ctx.nontrivial()
                return          # the disk is full
            if case['lines'] <= MAX and '$$EOE' not in case['body']:
                # no ephemeris in the reply
                if files() != before[0]:
                    raise Violation(f'files are written for the reply {case["body"]!r} ({text})') from None
                ctx.nontrivial()
                return
            if case['lines'] <= MAX or not isinstance(e, ValueError):
                raise
            if net.queries or (files(), sorted(os.listdir(d))) != before:
                raise Violation(f'refused, but only after a request or writing a file ({text})') from None
            ctx.nontrivial()
            return
        if case['lines'] > MAX:
            raise Violation(f'a request of {case["lines"]} lines is not refused ({text})')
        if '$$EOE' not in case['body']:
            raise Violation(f'the reply {case["body"]!r} is taken for an ephemeris ({text})')
        if len(net.queries) != 1:
            raise Violation(f'{len(net.queries)} requests ({text})')
        check_query(net.queries[0], start, stop, step, case['lon'], case['lat'], case['elev'] or 0., text)
        if pathlib.Path(got) != out:
            raise Violation(f'returns {got}, expected {out}')
        if not out.exists() or out.read_bytes() != body:
            raise Violation(f'the file is not the response, verbatim ({text}, file that was there: {case["already"]!r}, '
                            f'room in the disk: {case["room"]})')
        if [x for x in d.rglob('*') if x.is_file()] != [out]:
            raise Violation(f'other files are written: {[str(x) for x in d.rglob("*")]}')
        ctx.nontrivial()


# -- a whole year -----------------------------------------------------------------

ERRORS = ['', 'API VERSION: 1.2\nServer is busy. Try again later.\n', '<html>\n<h1>503</h1>\n</html>\n']


def sun(u, lon, lat):
    """made-up, but different at every instant and site; with as many digits as Horizons gives"""
    u = np.asarray(u, dtype=np.float64)
    az = np.round((u/240 + lon) % 360, 6)
    el = np.round(80*np.sin(u/13750.98 + lat), 6)
    r = np.round(1 + .016*np.sin(u/5022000. + lon), 14)
    return az, el, r


def serve(thin, fail, how=0):
    """a server of Horizons tables (every `thin`-th line only), failing at the request number `fail`: it breaks the
    connection (how = 0), replies with a text of error (1...), with a cut table, is interrupted or ends the process"""
    count = [0]

    def reply(q):
        count[0] += 1
        if count[0] == fail and how == 'exit':
            os._exit(5)
        if count[0] == fail and how == 'int':
            raise KeyboardInterrupt
        if count[0] == fail and how not in (0, 'cut'):
            return ERRORS[how - 1].encode()
        if count[0] == fail and how != 'cut':
            raise urllib3.exceptions.HTTPError('connection lost')
        lon, lat, _ = [float(x) for x in q['SITE_COORD'].split(',')]
        a, b, s = minutes(q['START_TIME']), minutes(q['STOP_TIME']), int(q['STEP_SIZE'].split()[0])
        u = np.arange(a, b + 1, s*thin)*60
        rows = [line(int(x), '*m', f'{az:.6f}', f'{el:.6f}', f'{r:.14f}') for x, az, el, r in
                zip(u, *sun(u, lon, lat))]
        if count[0] == fail:
            return ''.join(HEAD + ['$$SOE\n'] + rows)[:-40*(fail % 3)].encode()
        return ''.join(HEAD + ['$$SOE\n'] + rows + ['$$EOE\n', '*'*79 + '\n']).encode()
    return reply


@contextlib.contextmanager
def parquet():
    """pickles instead of parquet files"""
    old = pd.DataFrame.to_parquet, pd.read_parquet
    pd.DataFrame.to_parquet = lambda self, path=None, *a, **k: self.to_pickle(path)
    pd.read_parquet = lambda path, *a, **k: pd.read_pickle(path)
    try:
        yield
    finally:
        pd.DataFrame.to_parquet, pd.read_parquet = old


def check_year(df, net, year, lon, lat, thin, text):
    # the requests are months of that year, without overlaps, of that site
    for method, host, path, q in net.queries:
        a, b = minutes(q['START_TIME']), minutes(q['STOP_TIME'])
        s = int(q['STEP_SIZE'].split()[0])
        check_query((method, host, path, q), a, b, s, lon, lat, 0., text)
    t = df.index.tz_localize(None).to_numpy().astype('datetime64[s]').astype(np.int64)
    if (np.diff(t) <= 0).any():
        i = int(np.argmax(np.diff(t) <= 0))
        raise Violation(f'times are not increasing: {df.index[i]}, {df.index[i+1]} ({text})')
    lo, hi = gen.unix(year), gen.unix(year + 1)
    if len(t) == 0 or t[0] != lo or t[-1] >= hi or t[-1] < hi - 86400:
        raise Violation(f'the table covers {df.index[:1]} to {df.index[-1:]} ({text})')
    gap = np.diff(t).max()
    if thin == 1 and (gap != t[1] - t[0]):
        raise Violation(f'there is a gap of {gap} s in the year ({text})')
    if gap > 86400 or set(df.index.month) != set(range(1, 13)):
        raise Violation(f'some months are missing ({text})')
    check_table(df, t.tolist(), *sun(t, round(lon, 6), round(lat, 6)), text)
    for name, v in (('site_lon', lon), ('site_lat', lat)):
        if name not in df.columns or (df[name] != v).any():
            raise Violation(f'{name} is {df.get(name)}, expected {v} ({text})')


def load(case, ctx):
    logger.disable('sunwhere')
    with scratch(), parquet():
        for year, lon, lat, fail, how in case['loads']:
            text = f'year {year}, site {lon}, {lat}'
            with Network(serve(case['thin'], fail, how)) as net:
                args = [year, lon, lat] if case['pos'] else []
                kw = {} if case['pos'] else dict(year=year, site_lon=lon, site_lat=lat)
                try:
                    df = jpl.load_jpl_ephemeris(*args, **kw)
                except Exception:
                    if not 0 < fail <= len(net.queries):
                        raise
                    continue
            if 0 < fail <= len(net.queries):
                raise Violation(f'loaded, but the request number {fail} failed ({text})')
            check_year(df, net, year, lon, lat, case['thin'], text)
            ctx.nontrivial(len(df))


def interrupted(case, ctx):
    """loads of a year that fail or die at some point, each in a process of its own; the next one is as good as new"""
    logger.disable('sunwhere')
    year, lon, lat, thin = case['year'], case['lon'], case['lat'], case['thin']
    text = f'year {year}, site {lon}, {lat}, after loads interrupted by {case["how"]}'
    with scratch(), parquet():
        for kind, n in case['how']:
            pid = os.fork()
            if pid == 0:
                code = 9
                try:
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    if kind == 'killed while writing':
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    reply = serve(thin, n, {'killed at a request': 'exit', 'interrupted at a request': 'int',
                                            'reply cut': 'cut'}.get(kind)) if 'writing' not in kind else serve(thin, 0)
                    with Network(reply) as net, room(n if 'writing' in kind else None):
                        df = jpl.load_jpl_ephemeris(year, lon, lat)
                    check_year(df, net, year, lon, lat, thin, text)
                    code = 0 if kind != 'reply cut' or len(net.queries) < n else 4
                except Violation:
                    code = 4
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            status = os.waitpid(pid, 0)[1]
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 4:
                raise Violation(f'the load is not of the year, or does not fail ({text}, at {kind} {n})')
            ctx.nontrivial(1)
        with Network(serve(thin, 0)) as net:
            df = jpl.load_jpl_ephemeris(year, lon, lat)
        check_year(df, net, year, lon, lat, thin, text)


CHECKS = {'read': read, 'request': request, 'load': load, 'interrupted': interrupted}


def axes(case):
    return [('t', 'mark', 'az', 'el', 'r')]


def tables(rng, k):
    n = int(rng.choice([1, 2, 5, 30]))
    t = gen.instants(rng, n, gen.unix(1800), gen.unix(2200)) if rng.random() < .5 else \
        gen.time_grid(rng, n, gen.unix(1800), gen.unix(2200))
    if rng.random() < .3:
        t = [x - x % 60 for x in t]
    az = rng.uniform(0, 360, n)
    el = rng.uniform(-90, 90, n)
    az = np.where(rng.random(n) < .2, rng.choice([0., 180., 359.999999, 1e-6, 90.], n), az)
    el = np.where(rng.random(n) < .2, rng.choice([0., 90., -90., 1e-6, -1e-6], n), el)
    r = rng.uniform(.98, 1.02, n)
    return dict(t=t, mark=[str(x) for x in rng.choice(['*m', ' m', '  ', 'Cm', 'N ', 'A ', '* ', '*r', 'Ns', 't '], n)],
                az=[f'{x:.6f}' for x in az], el=[f'{x:.6f}' for x in el], r=[f'{x:.14f}' for x in r],
                head=[HEAD[i] for i in rng.integers(0, len(HEAD), int(rng.integers(0, 60)))],
                foot=[HEAD[i] for i in rng.integers(0, len(HEAD), int(rng.integers(0, 30)))],
                str=bool(rng.random() < .5))


BODIES = [a + '$$SOE\n' + b + '$$EOE\n' + c for a in ('', 'header\n', 'línea °\n', '\x0c a\n')
          for b in ('', 'a\n\nb\n', ' x\t\n') for c in ('', 'foot', '\n\n', 'a\x0bb')] + [
    'a\r\n$$SOE\r\n$$EOE\r\n', '$$SOE\n$$EOE',
    '', 'hello\n', 'API VERSION: 1.2\nServer is busy. Try again later.\n', '{"message": "too many requests"}',
    'Cannot interpret date. Type "?!" or try YYYY-MMM-DD\n', '<html>\n<h1>503</h1>\n</html>\n']


@st.composite
def requests(draw):
    lines = draw(st.integers(1, 2000) | st.sampled_from([1, 2, MAX - 1, MAX, MAX + 1, MAX + 2, 200000]) |
                 st.integers(MAX - 50, MAX + 50))
    step = draw(st.sampled_from([1, 1, 1, 2, 5, 7, 10, 12, 15, 60, 1440 if lines < 3000 else 1]))
    path = draw(st.lists(st.sampled_from(['a', 'b', 'data', 'año']), max_size=3)) + [draw(st.sampled_from(['x.txt', 'y']))]
    coord = lambda lo, hi: (st.floats(lo, hi) | st.integers(int(lo), int(hi)).map(float) |      # noqa: E731
                            st.sampled_from([-3.822, 36.949, 0., -1e-5]))
    lon, lat = draw(coord(-180, 180)), draw(coord(-90, 90))
    return dict(start=draw(st.integers(gen.unix(1950)//60, gen.unix(2050)//60)), lines=lines, step=step,
                slack=draw(st.integers(0, 2000)), path=path, lon=lon, lat=lat,
                elev=draw(st.sampled_from([None, 0., .05, 1.2345, 8.8, -.4])), str=draw(st.booleans()),
                already=draw(st.sampled_from([None, None, '', 'x', '$$SOE\n$$EOE\n', 'of another site\n'*500])),
                room=draw(st.none() | st.none() | st.integers(0, 40)), form=draw(st.integers(0, 9)), explicit=draw(st.booleans()),
                body=draw(st.sampled_from(BODIES)))


def loads(rng, k):
    sites = [(-3.822, 36.949), (0., 0.), (-3.822, -36.949), (float(np.round(rng.uniform(-180, 180), 4)),
             float(np.round(rng.uniform(-90, 90), 4)))]
    y = int(rng.choice([1999, 2000, 2023, 2024, 2036, 1980, 2100]))
    seq = []
    for _ in range(int(rng.integers(1, 5))):
        lon, lat = sites[int(rng.integers(0, len(sites)))]
        seq.append([y if rng.random() < .7 else y + 1, lon, lat, int(rng.integers(1, 13)) if rng.random() < .35 else 0,
                    int(rng.integers(0, 4))])
        if seq[-1][3]:
            seq.append(seq[-1][:3] + [0, 0])
    return dict(loads=seq, thin=100, pos=bool(rng.random() < .5))


KINDS = ['killed at a request', 'interrupted at a request', 'reply cut', 'killed while writing', 'error writing']


def interruptions(rng, k):
    def one():
        kind = KINDS[int(rng.integers(0, len(KINDS)))]
        return [kind, int(rng.integers(1, 13)) if 'writing' not in kind else
                int(rng.integers(0, 4000) if rng.random() < .6 else rng.integers(4000, 60000))]
    return dict(year=int(rng.choice([1999, 2024, 2023])), lon=float(np.round(rng.uniform(-180, 180), 4)),
                lat=float(np.round(rng.uniform(-90, 90), 4)), thin=100, how=[one() for _ in range(int(rng.integers(1, 4)))])


def run(ctx):
    ctx.bulk('read', tables, ctx.n(300), axes)
    ctx.hyp('request', requests(), ctx.n(200))
    ctx.one('load', dict(loads=[[2024, -3.822, 36.949, 0, 0], [2024, -3.822, 36.949, 1, 0]], thin=1, pos=True))
    ctx.bulk('load', loads, ctx.n(20), lambda c: [('loads',)])
    ctx.bulk('interrupted', interruptions, ctx.n(16), lambda c: [('how',)])
