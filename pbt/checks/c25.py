"""C25: the statistics of the benchmark."""
import contextlib
import inspect
import io
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import types

os.environ['MPLBACKEND'] = 'Agg'
import pvlib.solarposition                                  # noqa: E402

THIRD = {}      # what stands for the functions of third parties, by name


def _stand(module, name, other=None):
    def call(*args, **kw):
        fn = THIRD.get(name, other)
        if fn is None:
            raise RuntimeError(f'{name} is not installed')
        return fn(*args, **kw)
    setattr(module, name, call)


for _pkg, _name in (('soltrack', 'SolTrack'), ('sg2', 'sun_position'), ('pysparta', 'SPARTA')):
    sys.modules[_pkg] = types.ModuleType(_pkg)
    _stand(sys.modules[_pkg], _name)
real_pvlib = pvlib.solarposition.get_solarposition
_stand(pvlib.solarposition, 'get_solarposition', real_pvlib)

import numpy as np                                          # noqa: E402
import pandas as pd                                         # noqa: E402
from hypothesis import strategies as st                     # noqa: E402
from loguru import logger                                   # noqa: E402

import sunwhere                                             # noqa: E402
from sunwhere._cli import benchmark as bm                   # noqa: E402
from pbt import api, cmp, gen                               # noqa: E402
from pbt.checks import c24                                  # noqa: E402
from pbt.core import Violation                              # noqa: E402

logger.remove()
ID = 'C25'
RULE = ('a case is a table of ephemerides (random numbers with azimuths on both sides of north, missing values and '
        'night rows; or computed), passed through the functions of the benchmark; oracle: the statistics computed '
        'with numpy from their definitions, and direct calls of the library; non-trivial: at least one row is used')
ASSUMPTIONS = ['SolTrack, SG2 and SPARTA are not installed here: stand-ins take their place, as does the JPL server',
               'scores follow the usual definitions: std of n-1, linear quantiles of |r - mean(r)|, missing values '
               'left out']
VARS = ('zenith', 'azimuth', 'ecf')
SCORES = ('mbe', 'std', 'mae', 'rmse', 'p66', 'p90')


def like_pvlib(fn):
    """fn(time, latitude, longitude, method), called as pvlib's function is"""
    sign = inspect.signature(real_pvlib)

    def call(*args, **kw):
        if len(args) == 3 and list(kw) == ['method']:       # (soon)
            return fn(*args, kw['method'])
        b = sign.bind(*args, **kw)
        b.apply_defaults()
        return fn(*(b.arguments[k] for k in ('time', 'latitude', 'longitude', 'method')))
    return call


@contextlib.contextmanager
def standing(**fns):
    THIRD.update(fns)
    try:
        yield
    finally:
        THIRD.clear()


def cyc(d):
    return (d + 180.) % 360. - 180.


def table(case):
    """columns (method, variable) of random numbers"""
    rng = np.random.default_rng(case['seed'])
    n = case['n']
    lo = pd.Timestamp('2024-01-01', tz='UTC')
    index = pd.DatetimeIndex([lo + pd.Timedelta(12*i, 'min') for i in range(n)], name='time_utc')
    base = {'zenith': rng.uniform(0, 180, n), 'azimuth': rng.uniform(-180, 180, n), 'ecf': rng.uniform(.96, 1.04, n)}
    north = rng.random(n) < case['north']
    base['azimuth'] = np.where(north, rng.choice([-180, 180], n)*(1 - 1e-4*rng.random(n)), base['azimuth'])
    base['zenith'] = np.where(rng.random(n) < .05, 180., base['zenith'])
    cols = {}
    for k, m in enumerate(case['methods']):
        for v in VARS:
            if v in case['drop']:
                continue
            x = base[v]
            if m != case['ref']:
                x = x + rng.normal(case['bias']*(k + 1), case['noise'], n)*(1e-3 if v == 'ecf' else 1)
                if v == 'azimuth':
                    x = cyc(x)
                x = np.where(rng.random(n) < case['nan'], np.nan, x)
            elif v == 'zenith':
                x = np.where(rng.random(n) < case['nan']/2, np.nan, x)
            cols[m, v] = x
    df = pd.DataFrame(cols, index=index)
    df.columns = pd.MultiIndex.from_tuples(list(cols), names=['method', 'variable'])
    return df


def residue(df, m, ref, v):
    d = df[m, v].to_numpy() - df[ref, v].to_numpy()
    return cyc(d) if v == 'azimuth' else d


def equal(what, got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f'{what} has shape {got.shape}, expected {want.shape}')
    d = np.abs(got - want)
    d = np.where(np.isnan(got) & np.isnan(want) | (got == want), 0, np.where(np.isnan(d), np.inf, d))
    if not np.all(d <= tol*np.maximum(1, np.nan_to_num(np.abs(want), posinf=1))):
        i = int(np.argmax(d))
        raise Violation(f'{what} is {got.flat[i]!r}, expected {want.flat[i]!r}')


def residues(case, ctx):
    df = table(case)
    keep = df.copy()
    got = bm.calc_residues(df, case['ref'], relative=case['rel']) if case['rel'] else bm.calc_residues(df, case['ref'])
    if not df.equals(keep):
        raise Violation('the table of ephemerides is modified')
    others = [m for m in case['methods'] if m != case['ref']]
    have = [v for v in VARS if v not in case['drop']]
    if sorted(got.columns) != sorted((m, v) for m in others for v in have) or not got.index.equals(df.index):
        raise Violation(f'residues have columns {list(got.columns)}')
    for m in others:
        for v in have:
            want = residue(df, m, case['ref'], v)
            d = got[m, v].to_numpy()
            if v == 'azimuth' and not case['rel']:      # 180 and -180 are the same
                want, d = np.where(np.abs(np.abs(want) - 180) < 1e-9, 180, want), np.where(
                    np.abs(np.abs(d) - 180) < 1e-9, 180, d)
            if case['rel']:
                with np.errstate(all='ignore'):
                    want = want/df[case['ref'], v].to_numpy()
            equal(f'residue of {v} of {m} against {case["ref"]} (azimuths of {df[m].get("azimuth", [None])[:3]})', d, want, 1e-9)
    ctx.nontrivial(len(df))


def score(r, name):
    r = r[~np.isnan(r)]
    if not len(r) or name == 'std' and len(r) < 2:
        return np.nan
    c = np.abs(r - r.mean())
    return {'mbe': lambda: r.mean(), 'std': lambda: r.std(ddof=1), 'mae': lambda: np.abs(r).mean(),
            'rmse': lambda: (r**2).mean()**.5, 'p66': lambda: np.quantile(c, .66), 'p90': lambda: np.quantile(c, .9)}[name]()


def check_scores(got, want, what):
    """got: table of (variable, algorithm) x score; want: {(variable, method): residues}"""
    for (v, m), r in want.items():
        if not len(r[~np.isnan(r)]):
            continue
        if (v, m) not in got.index:
            raise Violation(f'there are no scores of {v} of {m} ({what})')
        for s in SCORES:
            equal(f'{s} of {v} of {m} ({what})', got.loc[(v, m), s], score(r, s), 1e-7)
    extra = set(got.index) - set(want)
    if extra:
        raise Violation(f'there are scores of {extra} ({what})')


def scores(case, ctx):
    df = table(case)
    got = bm.get_bulk_ephemeris_errors(df)
    used = df['jpl', 'zenith'].to_numpy() < 180
    want = {(v, m): residue(df, m, 'jpl', v)[used] for m in case['methods'] if m != 'jpl' for v in VARS}
    check_scores(got, want, f'{int(used.sum())} rows')
    if used.any():
        ctx.nontrivial(int(used.sum()))


# a simple clear sky takes the place of SPARTA
def clear(cosz, ecf, as_dict=False, tau=.3, **kw):
    cosz, ecf = np.asarray(cosz, dtype=float), np.asarray(ecf, dtype=float)
    dni = 1361.1*ecf*np.exp(-tau/np.maximum(cosz, .01))
    dif = .1*1361.1*ecf*cosz
    return {'dni': dni, 'dif': dif, 'ghi': dni*cosz + dif, 'dhi': dif}


NAMES = {'sunwhere.nrel_numexpr': 'nrel', 'sunwhere.psa_numexpr': 'psa', 'sunwhere.iqbal_numexpr': 'iqbal',
         'sunwhere.soltrack_numexpr': 'soltrack', 'sg2.sg2_c++': 'sg2'}


def want_clear(df, tau):
    used = df['jpl', 'zenith'].to_numpy() < 90

    def sky(m):
        return clear(np.cos(np.radians(df[m, 'zenith'].to_numpy()[used])), df[m, 'ecf'].to_numpy()[used], tau=tau)
    ref = sky('jpl')
    have = df.columns.get_level_values('method').unique()
    return {(v, short): sky(m)[v] - ref[v] for m, short in NAMES.items() if m in have for v in ('ghi', 'dni', 'dif')}


def clearsky(case, ctx):
    df = table(case)
    with standing(SPARTA=clear):
        got = bm.get_bulk_clearsky_errors(df, **({'tau': case['tau']} if case['tau'] else {}))
    want = want_clear(df, case['tau'] or .3)
    check_scores(got, want, 'irradiance')
    ctx.nontrivial(len(df))


def printed(text):
    """{title: {row: [numbers]}} of the tables printed"""
    out, cur = {}, None
    for line in text.splitlines():
        cols = [c.strip() for c in re.split('[│|]', line)][1:-1]
        if len(cols) != 7:
            continue
        if 'mbe' in cols:
            out[cols[0]] = cur = {'_head': cols[1:]}
        elif cur is not None:
            cur[cols[0]] = [float(x) for x in cols[1:]]
    return out


COLS = {'mbe': 'mbe', 'std': 'std', 'p66': '±CI66', 'p90': '±CI90', 'mae': 'mae', 'rmse': 'rmse'}


def check_printed(out, title, want, scale, rename):
    """want: {method: residues}"""
    if title not in out:
        raise Violation(f'there is no table of {title} but {list(out)}')
    tab = out[title]
    for m, r in want.items():
        if not len(r[~np.isnan(r)]):
            continue
        name = rename(m)
        if name not in tab:
            raise Violation(f'{name} is not in the table of {title}: {list(tab)}')
        for s, label in COLS.items():
            x = tab[name][tab['_head'].index(label)]
            w = score(r*scale, s)
            if not (abs(x - w) <= .00051 + 1e-6*abs(w) or np.isnan(x) and np.isnan(w)):
                raise Violation(f'{label} of {title} of {name} is printed as {x}, expected {w}')
    order = [v[tab['_head'].index('rmse')] for k, v in tab.items() if k != '_head']
    order = [x for x in order if x == x]
    if order != sorted(order):
        raise Violation(f'the table of {title} is not sorted by rmse: {order}')


def pretty(m):
    package, method = m.split('.')
    algorithm, _, engine = method.partition('_')
    return f"{package}'s {algorithm.upper()}" + (f' ({engine})' if engine else '')


def capture(fn, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = fn(*args, **kw)
    return res, buf.getvalue()


# -- computed ephemerides -----------------------------------------------------------

def times_of(case):
    return pd.DatetimeIndex(api.dt64(case['t']).astype('datetime64[ns]'), tz='UTC', name='time_utc')


# sunwhere's nrel takes the place of SG2
def sg2(points, when, outputs):
    r = sunwhere.sites(when, points[:, 1], points[:, 0], algorithm='nrel', refraction=False)
    ns = types.SimpleNamespace
    one = lambda a: np.asarray(a.values).T        # noqa: E731
    return ns(geoc=ns(EOT=np.asarray(r.eot.values), R=np.asarray(r.ecf.values)**-.5), topoc=ns(
        delta=np.radians(one(r.dec)), gamma_S0=np.radians(one(r.elevation)), alpha_S=np.radians(one(r.azimuth) + 180)))


def ephemeris(case, ctx):
    t = times_of(case)
    lat, lon = case['lat'], case['lon']
    kw = {'methods': case['methods']} if case['methods'] else {}
    if case['refr']:
        kw['refraction'] = True
    got = bm.sunwhere_ephemeris(t, lat, lon, **kw)
    methods = case['methods'] or [f'{a}_{e}' for a, e in api.CONFIGS]
    text = f'{cmp.iso(case["t"][0])}..., lat {lat!r}, lon {lon!r}, {case["methods"]}'
    if sorted(got.columns) != sorted((f'sunwhere.{m}', v) for m in methods for v in VARS):
        raise Violation(f'columns are {list(got.columns)} ({text})')
    if not got.index.equals(t):
        raise Violation(f'index is {got.index[:3]}, expected {t[:3]} ({text})')
    for m in methods:
        a, e = m.split('_')
        sw = sunwhere.sites(t, [lat], [lon], algorithm=a, engine=e, refraction=case['refr'])
        for v in VARS:
            want = np.asarray(getattr(sw, v).values).reshape(len(t), -1)[:, 0]
            equal(f'{v} of {m} ({text})', got[f'sunwhere.{m}', v], want, 1e-9)
    # pvlib
    names = ['nrel_numpy', 'ephemeris']
    got = bm.pvlib_ephemeris(t, lat, lon, methods=names)
    for m in names:
        p = real_pvlib(t, lat, lon, method=m)
        equal(f'zenith of pvlib.{m} ({text})', got[f'pvlib.{m}', 'zenith'], p['zenith'], 1e-9)
        d = cyc(got[f'pvlib.{m}', 'azimuth'].to_numpy() - (p['azimuth'].to_numpy() - 180))
        equal(f'azimuth of pvlib.{m} ({text})', d, 0*d, 1e-9)
    # SG2 and SolTrack, stood for by nrel and soltrack
    with standing(sun_position=sg2):
        got = bm.sg2_ephemeris(t, lat, lon)
    want = sunwhere.sites(t, [lat], [lon], algorithm='nrel', refraction=False)
    if not got.index.equals(t) or sorted(got.columns) != sorted(VARS):
        raise Violation(f'SG2 table is {got.columns} by {got.index[:3]} ({text})')
    for v in VARS:
        equal(f'{v} of SG2 ({text})', got[v], np.asarray(getattr(want, v).values).ravel(), 1e-9)

    class SolTrack:
        def __init__(self, lon, lat, use_degrees=False, with_refraction=True, **kw):
            self.lon, self.lat, self.deg, self.refr = lon, lat, use_degrees, with_refraction

        def set_date_time(self, when):
            self.t = when

        def compute_position(self):
            r = sunwhere.sites(self.t, [self.lat], [self.lon], algorithm='soltrack', refraction=self.refr)
            k = 1. if self.deg else np.pi/180
            self.altitude = np.asarray(r.elevation.values).ravel()*k
            self.azimuth = np.asarray(r.azimuth.values).ravel()*k
            self.distance = np.asarray(r.ecf.values)**-.5
    with standing(SolTrack=SolTrack):
        got = bm.soltrack_ephemeris(t, lat, lon)
    want = sunwhere.sites(t, [lat], [lon], algorithm='soltrack', refraction=False)
    for v in VARS:
        equal(f'{v} of SolTrack ({text})', got['soltrack.SolTrack', v], np.asarray(getattr(want, v).values).ravel(), 1e-9)
    ctx.nontrivial(len(t))


# -- the figure ---------------------------------------------------------------------

SHOWN = {'pvlib.nrel_numba': "pvlib's NREL", 'sunwhere.nrel_numexpr': "sunwhere's NREL", 'pvlib.pyephem': "pvlib's PYEPHEM",
         'pvlib.ephemeris': "pvlib's EPHEMERIS", 'sunwhere.iqbal_numexpr': "sunwhere's IQBAL", 'sg2.sg2_c++': 'SG2',
         'sunwhere.psa_numexpr': "sunwhere's PSA", 'sunwhere.soltrack_numexpr': "sunwhere's SOLTRACK"}


def centre(path):
    """mean of a density drawn along a logarithmic axis"""
    from matplotlib.path import Path
    v = path.vertices[path.codes != Path.CLOSEPOLY] if path.codes is not None else path.vertices
    x, y = np.log10(v[:, 0]), v[:, 1]
    up = y > 0
    x, y = x[up], y[up]
    o = np.argsort(x)
    return np.trapezoid(x[o]*y[o], x[o])/np.trapezoid(y[o], x[o])


def figure(case, ctx):
    """rows of the figure of accuracy: densities of the absolute residues of each method"""
    df = table(case)
    mae = {m: np.nanmean(np.abs(residue(df, m, 'jpl', 'zenith'))) for m in case['methods'] if m != 'jpl'}
    try:
        with capture_figures() as made:
            bm.plot_accuracy(df.copy(), **({'sort_by': pd.Series(mae)} if case['sorted'] else {}))
            fig = made()
            rows = []
            for ax in fig.axes:
                dens = sorted(centre(p) for c in ax.collections for p in c.get_paths())
                rows.append(([x.get_text() for x in ax.texts], dens))
            title = fig.get_suptitle()
    finally:
        bm.pl.close('all')
    shown = [m for m in case['methods'] if m in SHOWN]
    names = [SHOWN[m] for m in (sorted(shown, key=mae.get) if case['sorted'] else shown)]
    got = [x[0] for x, _ in rows if x]
    if (got if case['sorted'] else sorted(got)) != (names if case['sorted'] else sorted(names)):
        raise Violation(f'the figure has rows of {got}, expected {names}')
    if not re.search(rf'\b{len(df)*len(shown)} samples', title):
        raise Violation(f'the title of the figure is {title!r} ({len(df)} times, {len(shown)} methods)')
    back = {v: k for k, v in SHOWN.items()}
    for (name,), dens in rows:
        r = [np.abs(residue(df, back[name], 'jpl', v)) for v in ('zenith', 'azimuth')]
        r = sorted((np.log10(x[x > 0]) for x in r), key=np.mean)
        if len(dens) != 2 or not all(abs(d - x.mean()) < .03 + .03*x.std() for d, x in zip(dens, r)):
            raise Violation(f'densities of {name} are around {dens}, expected {[x.mean() for x in r]} (log10 of degrees)')
    ctx.nontrivial(len(df))


@contextlib.contextmanager
def capture_figures():
    bm.pl.close('all')
    params = dict(bm.pl.rcParams)
    try:
        yield lambda: bm.pl.figure(bm.pl.get_fignums()[-1])
    finally:
        bm.pl.rcParams.update({k: v for k, v in params.items() if not k.startswith('backend')})


# -- the whole benchmark --------------------------------------------------------------

def interrupted(fn, body, size):
    """calls `fn` in a process that ends when a file grows beyond `size` bytes"""
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            with c24.Network(lambda q: body), c24.room(size):
                capture(fn)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def whole(case, ctx):
    year, lat, lon = case['year'], case['lat'], case['lon']
    rng = np.random.default_rng(case['seed'])
    u = sorted({int(x) - int(x) % 720 for x in rng.integers(gen.unix(year), gen.unix(year + 1), case['n'])})
    true = sunwhere.sites(api.dt64(u), [lat], [lon], algorithm='nrel', refraction=False)
    zen = np.asarray(true.zenith.values).ravel() + rng.normal(0, 2e-3, len(u))
    az = (np.asarray(true.azimuth.values).ravel() + 180 + rng.normal(0, 2e-3, len(u))) % 360
    r = np.asarray(true.ecf.values)**-.5*(1 + rng.normal(0, 1e-4, len(u)))
    zen = np.clip(zen, 0, 180)
    tab = dict(t=u, mark=['  ']*len(u), az=[f'{min(x, 359.999999):.6f}' for x in az], el=[f'{90 - x:.6f}' for x in zen],
               r=[f'{x:.14f}' for x in r], head=list(c24.HEAD), foot=['\n'])
    body = c24.table_text(tab).encode()

    def pv(when, la, lo, method='nrel_numpy', **kw):
        kw.pop('numthreads', None)
        return real_pvlib(when, la, lo, method='ephemeris' if method in ('ephemeris', 'pyephem') else 'nrel_numpy', **kw)

    d = tempfile.mkdtemp(prefix='verif-c25-')
    oldtmp, tempfile.tempdir = tempfile.tempdir, d
    try:
        if case['cut'] is not None:
            interrupted(lambda: bm.run_benchmark(year, lat, lon), body, int(case['cut']*len(body)))
        with c24.Network(lambda q: body) as net, standing(sun_position=sg2, SPARTA=clear, get_solarposition=like_pvlib(pv)):
            _, text = capture(bm.run_benchmark, year, lat, lon)
            _, again = capture(bm.run_benchmark, year, lat, lon)
            if len(net.queries) == 1:
                for y, la, lo in case['others']:
                    capture(bm.run_benchmark, year + y, lat + la, lon + lo)
    finally:
        tempfile.tempdir = oldtmp
        shutil.rmtree(d, ignore_errors=True)
    what = f'{year}, lat {lat!r}, lon {lon!r}'
    asked = [q for *_, q in net.queries]
    if text != again or len(asked) != 1 + len(case['others']):
        raise Violation(f'ephemerides of JPL are requested for {asked} ({what})')
    c24.check_query(net.queries[0], gen.unix(year)//60, gen.unix(year + 1)//60, 12, lon, lat, 0., what)
    for query, (y, la, lo) in zip(net.queries[1:], case['others']):
        y, la, lo = year + y, lat + la, lon + lo
        c24.check_query(query, gen.unix(y)//60, gen.unix(y + 1)//60, 12, lo, la, 0., what)

    # the errors
    jpl = pd.DataFrame({('jpl', 'zenith'): 90 - np.array(list(map(float, tab['el']))),
                        ('jpl', 'azimuth'): np.array(list(map(float, tab['az']))) - 180,
                        ('jpl', 'ecf'): np.array(list(map(float, tab['r'])))**-2})
    df = {k: v.to_numpy() for k, v in jpl.items()}
    for a, e in api.CONFIGS:
        w = sunwhere.sites(api.dt64(u), [lat], [lon], algorithm=a, engine=e, refraction=False)
        for v in VARS:
            df[f'sunwhere.{a}_{e}', v] = np.asarray(getattr(w, v).values).ravel()
    df = pd.DataFrame(df)
    df.columns = pd.MultiIndex.from_tuples(df.columns, names=['method', 'variable'])
    out = printed(text)
    used = df['jpl', 'zenith'].to_numpy() < 180
    mine = [m for m in df.columns.get_level_values(0).unique() if m != 'jpl']
    for v, title, scale in (('zenith', 'zenith', 3600), ('azimuth', 'azimuth', 3600), ('ecf', 'ecf (x10⁻³)', 1e3)):
        check_printed(out, title, {m: residue(df, m, 'jpl', v)[used] for m in mine}, scale, pretty)
    clear_want = want_clear(df, .3)
    for v in ('ghi', 'dni', 'dif'):
        check_printed(out, v, {m: r for (x, m), r in clear_want.items() if x == v}, 1, lambda m: m)
    ctx.nontrivial(len(u))


CHECKS = {'residues': residues, 'scores': scores, 'clearsky': clearsky, 'ephemeris': ephemeris, 'whole': whole,
          'figure': figure}
METHODS = list(NAMES) + ['pvlib.nrel_numpy', 'soltrack.SolTrack', 'sunwhere.psa_numpy']


@st.composite
def tables(draw, ref=None, drop=True):
    methods = draw(st.lists(st.sampled_from(METHODS), min_size=1, max_size=6, unique=True))
    methods.insert(draw(st.integers(0, len(methods))), 'jpl')
    return dict(seed=draw(st.integers(0, 10**6)), n=draw(st.integers(1, 200) | st.integers(1, 8)), methods=methods,
                ref=ref or draw(st.sampled_from(methods)), north=draw(st.sampled_from([0., .2, 1.])),
                bias=draw(st.sampled_from([0., .01, -.01, .5, 30.])), noise=draw(st.sampled_from([0., 1e-4, .1, 20., 200.])),
                nan=draw(st.sampled_from([0., 0., .1])), rel=draw(st.booleans()) if drop else False,
                drop=draw(st.sampled_from([[], [], ['azimuth'], ['ecf']])) if drop else [], tau=None)


@st.composite
def figures(draw):
    c = draw(tables('jpl', False))
    shown = draw(st.lists(st.sampled_from(sorted(SHOWN)), min_size=2, max_size=4, unique=True))
    rest = draw(st.lists(st.sampled_from(['sunwhere.psa_numpy', 'sunwhere.nrel_numpy', 'soltrack.SolTrack', 'pvlib.nrel_numpy',
                                          'sunwhere.iqbal_numpy', 'sunwhere.soltrack_numpy']), max_size=2, unique=True))
    # (of distinct errors)
    return {**c, 'methods': ['jpl'] + draw(st.permutations(shown + rest)), 'n': draw(st.integers(60, 300)), 'nan': draw(
        st.sampled_from([0., .1])), 'bias': draw(st.sampled_from([.01, -.001, .5])), 'noise': draw(st.sampled_from([1e-4, 1e-3])),
        'sorted': draw(st.booleans())}


@st.composite
def clears(draw):
    c = draw(tables('jpl', False))
    c['methods'] = [m for m in c['methods'] if m in NAMES or m == 'jpl']
    if len(c['methods']) < 2:
        c['methods'] = ['jpl', 'sunwhere.psa_numexpr']
    # (irradiances of missing positions are not specified)
    return {**c, 'nan': 0., 'n': max(c['n'], 40), 'noise': min(c['noise'], .1), 'bias': min(c['bias'], .5),
            'tau': draw(st.sampled_from([None, .1, .7]))}


@st.composite
def sites(draw):
    lat = draw(st.sampled_from([36.949, -33.9, 0., 70., -85.]) | st.floats(-89, 89).map(lambda x: round(x, 4)))
    lon = draw(st.sampled_from([-3.822, 0., 151., -180., 179.5]) | st.floats(-180, 179.9).map(lambda x: round(x, 4)))
    return lat, lon


@st.composite
def ephemerides(draw):
    lat, lon = draw(sites())
    lo = draw(st.integers(gen.unix(1990), gen.unix(2049)))
    n = draw(st.integers(1, 60))
    step = draw(st.sampled_from([60, 720, 3600, 86400]))
    return dict(lat=lat, lon=lon, t=[lo + step*i for i in range(n)], refr=draw(st.booleans()),
                methods=draw(st.none() | st.lists(st.sampled_from([f'{a}_{e}' for a, e in api.CONFIGS]), min_size=1,
                                                  max_size=4, unique=True)))


def benchmarks(rng, k):
    # (few cases: drawn independently)
    lat = float(rng.choice([36.949, 0., -0., 70., -85., np.round(rng.uniform(-89, 89), 4), float(rng.integers(-89, 90))]))
    lon = float(rng.choice([-3.822, 0., -180., 151., np.round(rng.uniform(-180, 179.99), 4), float(rng.integers(-180, 180))]))
    near = others(lat, lon)
    return dict(year=int(rng.integers(2000, 2050)), lat=lat, lon=lon, seed=int(rng.integers(0, 10**6)), n=int(rng.integers(5, 80)),
                cut=float(rng.choice([0., .3, .95, rng.uniform(0, .999)])) if k % 2 == 0 else None,
                others=[near[i] for i in rng.permutation(len(near))[:int(rng.integers(1, 4))]])


def others(lat, lon):
    """(year, latitude, longitude) relative to those of the benchmark: other ephemerides"""
    a, o = (-1 if lat > 0 else 1), (-1 if lon > 0 else 1)
    out = [[1, 0, 0], [-1, 0, 0], [0, 1.25*a, 0], [0, 0, .5*o]]
    for d in (2e-6, 1e-5, 4e-5, 1e-4, 1e-3, 1e-2, .1, 10.):
        out += [[0, d*a, 0], [0, 0, d*o]]
    if abs(lat) > .01:
        out.append([0, -2*lat, 0])
    if .01 < abs(lon) < 180:
        out.append([0, 0, -2*lon])
    return out


def run(ctx):
    ctx.hyp('residues', tables(), ctx.n(150))
    ctx.hyp('scores', tables('jpl', False), ctx.n(60))
    ctx.hyp('clearsky', clears(), ctx.n(40))
    ctx.hyp('ephemeris', ephemerides(), ctx.n(40))
    ctx.bulk('whole', benchmarks, ctx.n(12), lambda c: [('others',)])
    ctx.hyp('figure', figures(), ctx.n(12))
