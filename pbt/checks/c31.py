"""C31: results are values: copied, pickled, combined and selected by label."""
import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from pbt import api, boot, cmp, gen, views, zones
from pbt.checks import c13
from pbt.core import VERIF, Violation

ID = 'C31'
RULE = ('a case is one evaluation, copied in some way or combined with others or with itself by label; oracle: the '
        'original result (identical values, names, dimensions, coordinates, attributes and times), the whole evaluation '
        'for its parts (rounding); non-trivial: at least one view is compared')
ASSUMPTIONS = ['combinations by label are those of xarray and pandas, as installed']
FORMS = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
         **{f'pickle{p}': (lambda q: lambda x: pickle.loads(pickle.dumps(x, protocol=q)))(p)
            for p in range(2, pickle.HIGHEST_PROTOCOL + 1)}}     # (xarray needs 2)
PLAIN = ('latitude', 'longitude', 'algorithm', 'engine', 'has_refraction', 'usecase', 'timezone', 'times', 'times_utc',
         'local_standard_time')


def call(case):
    t = pd.DatetimeIndex(api.dt64(case['t']).astype('datetime64[ns]'))
    if case.get('ns'):
        t = t + pd.to_timedelta(case['ns'], unit='ns')
    if case['tz']:
        t = t.tz_localize('UTC').tz_convert(zone(case['tz'], case['lib']))
    return getattr(api.sunwhere, case['usecase'])(t, case['lat'], case['lon'], algorithm=case['alg'], engine=case['eng'],
                                                  refraction=case['refr'])


def zone(name, lib):
    if lib == 'pytz':
        import pytz
        return pytz.timezone(name)
    if lib == 'offset':
        import datetime as dt
        return dt.timezone(dt.timedelta(minutes=330))
    import zoneinfo
    return zoneinfo.ZoneInfo(name)


def plain(sw):
    out = {}
    for name in PLAIN:
        v = getattr(sw, name)
        if isinstance(v, pd.DatetimeIndex):
            v = (v.asi8.tolist(), str(v.dtype))
        elif isinstance(v, xr.DataArray):
            v = (v.name, v.dims, v.values.tolist(), dict(v.attrs))
        out[name] = v
    return out


def identical(a, b):
    return (a.name == b.name and a.identical(b) and a.dtype == b.dtype
            and {k: v.dtype for k, v in a.coords.items()} == {k: v.dtype for k, v in b.coords.items()})


def same(sw, other, names, what):
    a, b = plain(sw), plain(other)
    for k in PLAIN:
        if a[k] != b[k]:
            raise Violation(f'{k} of {what} is {b[k]!r}, of the original {a[k]!r}')
    for n in names:
        if not identical(views.get(sw, n), views.get(other, n)):
            raise Violation(f'{n} of {what} is {views.get(other, n)}, of the original {views.get(sw, n)}')


def copies(case, ctx):
    sw = call(case)
    text = f'({cmp.config_text(case)})'
    for form in case['forms']:
        other = FORMS[form](sw)
        if type(other) is not type(sw):
            raise Violation(f'the {form} of a result is a {type(other).__name__} {text}')
        same(sw, other, case['views'], f'the {form} {text}')
        if case['twice']:
            same(sw, FORMS[form](other), case['views'], f'the {form} of the {form} {text}')
        for n in case['views']:
            a = views.get(sw, n)
            if not identical(a, FORMS[form](a)):
                raise Violation(f'the {form} of {n} is not {n} {text}')
        if form == 'copy':
            continue
        # a copy has its own values
        keep = {n: views.get(sw, n).copy(deep=True) for n in ('eot', 'ecf', 'zenith', 'azimuth', 'declination')}
        for n in keep:
            a = views.get(other, n)
            if a.values.flags.writeable:
                a.values[...] = -7.
        for n in ('latitude', 'longitude'):
            a = getattr(other, n)
            if a.values.flags.writeable:
                a.values[...] = -7.
        for n, a in keep.items():
            if not identical(a, views.get(sw, n)):
                raise Violation(f'writing on the {form} modified {n} of the original {text}')
    ctx.nontrivial(views.get(sw, 'zenith').size)


def aligned(name, a, b, text):
    """the same labels and, up to rounding, the same values"""
    if a.dims != b.dims or a.name != b.name or sorted(a.coords) != sorted(b.coords):
        raise Violation(f'{name}: {b} expected {a} {text}')
    for k in a.coords:
        if a[k].dims != b[k].dims or not np.array_equal(a[k].values, b[k].values):
            raise Violation(f'{name}: {k} is {b[k].values[:5]}, expected {a[k].values[:5]} {text}')
    x, y = a.values, b.values
    if x.dtype.kind == 'M':
        miss = np.isnat(x) != np.isnat(y)
        off = ~(np.abs((x - y)/np.timedelta64(1, 'ms')) < 10) & ~np.isnat(x)
    else:
        miss = np.isnan(x) != np.isnan(y)
        off = ~(np.abs(x - y) <= 1e-6*(1 + np.abs(x))) & ~np.isnan(x)
        if name.split('(')[0] in ('azimuth', 'saa'):
            off &= ~(np.abs((x - y + 180) % 360 - 180) <= 1e-3)
    if (miss | off).any():
        i = np.argwhere(miss | off)[0]
        raise Violation(f'{name} at {i.tolist()} is {y[tuple(i)]!r}, expected {x[tuple(i)]!r} {text}')


def combine(case, ctx):
    sw = call(case)
    text = f'({cmp.config_text(case)})'
    names = case['views']
    # one dataset, aligned exactly
    parts, seen = {}, set()
    for n in names:
        parts[n] = views.get(sw, n)
    ds = xr.Dataset(parts)
    for n, a in parts.items():
        if not np.array_equal(ds[n].values, a.values, equal_nan=a.dtype.kind == 'f') and not (
                a.dtype.kind == 'M' and np.array_equal(ds[n].values.astype('int64'), a.values.astype('int64'))):
            raise Violation(f'{n} of the dataset is {ds[n].values}, of the result {a.values} {text}')
        if ds[n].dims != a.dims or ds[n].dtype != a.dtype:
            raise Violation(f'{n} of the dataset is {ds[n].dims}, {ds[n].dtype}; of the result {a.dims}, {a.dtype} {text}')
    unique = {a.name: a for a in parts.values() if a.name not in seen and not seen.add(a.name)}
    xr.merge(list(unique.values()), join='exact', compat='no_conflicts', combine_attrs='drop_conflicts')
    # data frames
    for n, a in parts.items():
        df = a.to_dataframe()
        got = df[a.name].to_numpy()
        want = a.values.ravel()
        if want.dtype.kind == 'M':
            got, want = got.astype('datetime64[ns]').astype('int64'), want.astype('datetime64[ns]').astype('int64')
        if list(df.index.names) != list(a.dims) or not np.array_equal(got, want, equal_nan=want.dtype.kind == 'f'):
            raise Violation(f'{n} as a data frame is {df} {text}')
    # selection by label
    z = sw.zenith
    pick = {}
    for d in z.dims:
        labels = z[d].values
        i = case['pick'] % len(labels)
        if np.sum(labels == labels[i]) == 1:
            pick[d] = i
    for n, a in parts.items():
        p = {d: i for d, i in pick.items() if d in a.dims}
        x = a.sel({d: z[d].values[i] for d, i in p.items()})
        if not x.identical(a.isel(p)):
            raise Violation(f'{n} at {p} is {a.isel(p)}, at its labels {x} {text}')
    ctx.nontrivial(z.size)


def parts(case, ctx):
    """evaluated in two parts and put together by label"""
    k = case['cut'] % (len(case['t']) + 1)
    a, b = dict(case, t=case['t'][:k]), dict(case, t=case['t'][k:])
    if case.get('ns'):
        a['ns'], b['ns'] = case['ns'][:k], case['ns'][k:]
    if case['usecase'] == 'transect':
        for key in ('lat', 'lon'):
            a[key], b[key] = case[key][:k], case[key][k:]
    sw = call(case)
    text = f'({cmp.config_text(case)})'
    halves = [call(c) for c in (a, b) if c['t']]
    for n in views.ALL:
        whole = views.get(sw, n)
        for h, first in zip(halves, [0, k] if len(halves) == 2 else [0]):
            piece = views.get(h, n)
            if piece.dims != whole.dims or sorted(piece.coords) != sorted(whole.coords) or piece.name != whole.name or \
                    piece.dtype != whole.dtype:
                raise Violation(f'{n} of a part of the times is {piece}, of all of them {whole} {text}')
            for d in whole.coords:
                want = whole[d].values
                if 'time' in whole[d].dims:
                    want = want.take(range(first, first + piece.sizes['time']), whole[d].dims.index('time'))
                if piece[d].dims != whole[d].dims or not np.array_equal(piece[d].values, want):
                    raise Violation(f'{n} of a part of the times has {d} {piece[d].values}, expected {want} {text}')
    for n in case['views']:
        if case['alg'] == 'iqbal' and n.startswith(('azimuth', 'saa')) or n.startswith('airmass'):
            continue            # (rounding is amplified: C06)
        whole = views.get(sw, n)
        edge = abs(abs(np.tan(np.radians(sw.latitude))*np.tan(np.radians(sw.declination))) - 1)
        if n.startswith(('sun', 'day')) and (float(edge.min()) < 1e-4):
            continue
        if n.startswith(('azimuth', 'saa')) and float(np.sin(np.radians(sw.zenith)).min()) < 1e-4:
            continue
        if n.startswith(('sun', 'day')) and n.endswith(('(tst)', '(utc)', '(local)')):
            tst = sw.true_solar_time.values.astype('int64') % (86400*10**9)
            if np.any((tst < 10**7) | (tst > 86400*10**9 - 10**7)):
                continue
        pieces = [views.get(h, n) for h in halves]
        got = xr.concat(pieces, 'time', data_vars='all', coords='minimal', join='exact', compat='override') \
            if case['usecase'] != 'transect' else xr.concat(pieces, 'time', data_vars='all', coords='different',
                                                            join='exact', compat='equals')
        aligned(n, whole, got.transpose(*whole.dims), f'in two parts {text}')
        if whole.dtype.kind == 'f' and len(np.unique(whole['time'].values)) == whole['time'].size and \
                all(len(np.unique(whole[d].values)) == whole[d].size for d in whole.dims):
            d = whole - pieces[0]
            want = pieces[0]
            if d.sizes != want.sizes or not np.array_equal(np.isnan(d.values), np.isnan(want.values)):
                raise Violation(f'{n} minus its first part is {d} {text}')
    ctx.nontrivial(sw.zenith.size)


CHILD = '''
import sys, pickle
sys.path.insert(0, sys.argv[3])
sys.dont_write_bytecode = True
from pbt import boot, views
out = []
for sw, names in pickle.load(open(sys.argv[1], 'rb')):
    out.append((sw, {n: views.get(sw, n) for n in names}))
pickle.dump(out, open(sys.argv[2], 'wb'))
'''


def process(case, ctx):
    """sent to another process and back"""
    items = [(call(c), c['views']) for c in case['cases']]
    d = tempfile.mkdtemp(prefix='verif-c31-')
    try:
        a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
        with open(a, 'wb') as f:
            pickle.dump(items, f)
        p = subprocess.run([sys.executable, '-c', CHILD, a, b, VERIF], capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, VERIF_REPO=os.path.dirname(boot.SRC)))
        if p.returncode:
            raise Violation(f'another process cannot read the results: {p.stderr[-600:]}')
        with open(b, 'rb') as f:
            back = pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for c, (sw, names), (other, read) in zip(case['cases'], items, back):
        text = f'({cmp.config_text(c)})'
        same(sw, other, names, f'the result sent to another process and back {text}')
        for n in names:
            if not identical(views.get(sw, n), read[n]):
                raise Violation(f'{n} read in another process is {read[n]}, here {views.get(sw, n)} {text}')
        ctx.nontrivial(sw.zenith.size)


CHECKS = {'copies': copies, 'combine': combine, 'parts': parts, 'process': process}
some = st.lists(st.sampled_from(list(views.ALL)), min_size=1, max_size=8, unique=True)


@st.composite
def cases(draw, **kw):
    c = draw(c13.cases())
    c['lib'] = draw(st.sampled_from(['zoneinfo', 'zoneinfo', 'pytz', 'offset']))
    c['views'] = draw(some)
    for k, s in kw.items():
        c[k] = draw(s)
    return c


def run(ctx):
    ctx.hyp('copies', cases(forms=st.lists(st.sampled_from(list(FORMS)), min_size=1, max_size=2, unique=True),
                            twice=st.booleans()), ctx.n(100))
    ctx.hyp('combine', cases(pick=st.integers(0, 5)), ctx.n(60))
    ctx.hyp('parts', cases(cut=st.integers(0, 6)), ctx.n(80))

    def small(rng, k):      # parts of a single time, of every size of the places, time zones
        uc = api.USECASES[k % 3]
        n = int(rng.integers(2, 5))
        nlat, nlon = (int(x) for x in rng.integers(1, 4, 2))
        nlon = nlat if uc == 'sites' else nlon
        if uc == 'transect':
            nlat = nlon = n
        alg, eng = api.CONFIGS[int(rng.integers(len(api.CONFIGS)))]
        t0 = int(rng.integers(gen.unix(1970), gen.unix(2037)))
        return dict(t=[t0 + 86413*i for i in range(n)], lat=gen.latitudes(rng, nlat), lon=gen.longitudes(rng, nlon),
                    usecase=uc, alg=alg, eng=eng, refr=bool(rng.integers(2)), ns=None, lib='zoneinfo',
                    tz=[None, 'Asia/Kolkata', 'America/St_Johns'][k//3 % 3], cut=(1, n - 1)[k//9 % 2],
                    views=[str(x) for x in rng.choice(list(views.ALL), 4, replace=False)])
    ctx.bulk('parts', small, ctx.n(54), lambda c: [], 'small')

    def large(rng, k):
        uc = api.USECASES[k % 3]
        n, ny, nx = [(2000, 2, 3), (3, 40, 50), (150, 12, 9)][k//3 % 3]
        if uc == 'transect':
            n = ny = nx = (3000, 700, 1500)[k//3 % 3]
        ny = ny*nx if uc == 'sites' else ny
        nx = ny if uc == 'sites' else nx
        alg, eng = api.CONFIGS[int(rng.integers(len(api.CONFIGS)))]
        t = gen.unix(1970) + int(rng.integers(0, 86400*20000)) + 60*np.cumsum(rng.integers(1, 60, n))
        if rng.random() < .3:
            rng.shuffle(t)
        return dict(t=[int(x) for x in t], lat=gen.latitudes(rng, ny), lon=gen.longitudes(rng, nx), usecase=uc, alg=alg,
                    eng=eng, refr=bool(rng.integers(2)), ns=None, lib=['zoneinfo', 'zoneinfo', 'pytz', 'offset'][k % 4],
                    tz=[None, 'Asia/Kolkata', 'America/St_Johns', 'Europe/Madrid'][k//9 % 4],
                    cut=int(rng.integers(1, n)), pick=int(rng.integers(0, 10**6)), twice=False,
                    forms=[str(rng.choice(list(FORMS)))],
                    views=[str(x) for x in rng.choice(list(views.ALL), 5, replace=False)])
    for name in ('copies', 'combine', 'parts'):
        ctx.bulk(name, large, ctx.n(12), lambda c: [], 'large')
    ctx.hyp('process', st.lists(cases(), min_size=1, max_size=12).map(lambda x: dict(cases=x)), ctx.n(4))
