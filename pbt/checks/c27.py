"""C27: coordinates are numbers, whatever holds them."""
import array
import collections
import decimal
import fractions

import numpy as np
import pandas as pd
import sunwhere
import xarray as xr

from pbt import api, cmp, derived, gen, same, views
from pbt.core import Violation

ID = 'C27'
RULE = ('a case is one evaluation whose latitudes and longitudes are passed in two containers out of 42 (with values '
        'that these hold exactly) and a few views of its result; oracle: the same evaluation with arrays of double '
        'precision; non-trivial: at least one cell is compared')


def strided(x):
    return np.repeat(np.asarray(x, dtype=float), 3)[1::3]


def frozen(x):
    a = np.array(x, dtype=float)
    a.setflags(write=False)
    return a


def series(x):
    return pd.Series(x, index=[7*(i % 3) - i for i in range(len(x))], dtype=float, name='x')


def shuffled(x):
    return pd.Series(x, index=range(len(x), 0, -1), dtype=float, name='x')


def dated(x):
    return pd.Series(x, index=pd.date_range('2023-01-01', periods=len(x)), dtype=float)


def dataarray(x):
    return xr.DataArray(np.array(x, dtype=float), dims=['location'], coords={'location': [f's{i}' for i in range(len(x))]})


INT = {'int list': lambda x: [int(v) for v in x], 'int tuple': lambda x: tuple(int(v) for v in x),
       'int8/int16': lambda x: np.array(x, dtype=np.int8 if max(map(abs, x)) < 128 else np.int16),
       'int32': lambda x: np.array(x, dtype=np.int32), 'int64': lambda x: np.array(x, dtype=np.int64),
       'big-endian int': lambda x: np.array(x, dtype='>i4'), 'int series': lambda x: pd.Series([int(v) for v in x]),
       'nullable int': lambda x: pd.Series([int(v) for v in x], dtype='Int64'),
       'mixed list': lambda x: [int(v) if i % 2 else float(v) for i, v in enumerate(x)]}
HALF = {'float16': lambda x: np.array(x, dtype=np.float16)}
SINGLE = {'float32': lambda x: np.array(x, dtype=np.float32), 'float32 list': lambda x: [np.float32(v) for v in x],
          'float32 series': lambda x: pd.Series(np.array(x, dtype=np.float32)), 'array f': lambda x: array.array('f', x),
          'big-endian float32': lambda x: np.array(x, dtype='>f4')}
DOUBLE = {'list': list, 'tuple': tuple, 'float64': lambda x: np.array(x, dtype=float),
          'big-endian': lambda x: np.array(x, dtype='>f8'), 'longdouble': lambda x: np.array(x, dtype=np.longdouble),
          'strided': strided, 'reversed': lambda x: np.array(x[::-1], dtype=float)[::-1], 'read-only': frozen,
          'list of float64': lambda x: [np.float64(v) for v in x], 'list of 0-dim': lambda x: [np.array(v) for v in x],
          'object': lambda x: np.array(x, dtype=object), 'series': series, 'shuffled series': shuffled, 'dated series': dated, 'index': lambda x: pd.Index(x, dtype=float),
          'nullable': lambda x: pd.array(x, dtype='Float64'), 'dataarray': dataarray,
          'column': lambda x: pd.DataFrame({'a': x, 'b': 0.})['a'], 'matrix row': lambda x: np.array([x, x], dtype=float)[1],
          'matrix column': lambda x: np.array([x, x], dtype=float).T[:, 0], 'array d': lambda x: array.array('d', x),
          'memoryview': lambda x: memoryview(array.array('d', x)), 'decimal': lambda x: [decimal.Decimal(v) for v in x],
          'fraction': lambda x: [fractions.Fraction(v) for v in x],
          'subclass': lambda x: np.array(x, dtype=float).view(type('Sub', (np.ndarray,), {}))}
ONE = {'float': float, 'numpy float': np.float64, '0-dim': np.array, 'numpy float32': np.float32}
ONEINT = {'int': int, 'numpy int': np.int16, '0-dim int': lambda v: np.array(int(v))}
LABELLED = ['series', 'shuffled series', 'dated series', 'int series', 'dataarray', 'column', 'float32 series', 'index']
ALL = {**INT, **HALF, **SINGLE, **DOUBLE, **ONE, **ONEINT}


def exactly(form, x):
    """values that the container holds"""
    if form in INT or form in ONEINT:
        return [float(int(v)) for v in x]
    if form in HALF:
        return [float(np.float16(v)) for v in x]
    if form in SINGLE or form == 'numpy float32':
        return [float(np.float32(v)) for v in x]
    return list(x)


def form(case, ctx):
    flat = dict(case)
    put = {}
    for k in ('lat', 'lon'):
        f = case['form_' + k]
        flat[k] = exactly(f, case[k])
        put[k] = ALL[f](flat[k][0] if f in ONE or f in ONEINT else flat[k])
    keep = {k: np.array(v, dtype=float) for k, v in put.items()}
    got = getattr(sunwhere, case['usecase'])(api.dt64(case['t']), put['lat'], put['lon'], algorithm=case['alg'],
                                             engine=case['eng'], refraction=case['refr'])
    want = api.call(flat)
    text = f'latitudes as {case["form_lat"]}, longitudes as {case["form_lon"]}, {cmp.config_text(case)}'
    for k, name in (('lat', 'latitude'), ('lon', 'longitude')):
        if not np.array_equal(keep[k], np.array(put[k], dtype=float)):
            raise Violation(f'{name} is modified ({text})')
        a = np.asarray(getattr(got, name).values)
        if a.shape != (len(flat[k]),) or not np.array_equal(a, np.array(flat[k])):
            raise Violation(f'{name} is reported as {a[:4]}, expected {flat[k][:4]} ({text})')
        a = np.asarray(got.zenith[name].values)
        if not np.array_equal(a, np.array(flat[k])):
            raise Violation(f'the coordinate {name} is {a[:4]}, expected {flat[k][:4]} ({text})')
    cmp.shapes(flat, got)
    zen = views.flat(flat, want, 'zenith')
    dec = views.flat(flat, want, 'declination')
    _, edge = derived.sunrise_deg(dec, api.floats(flat['lat'])[api.cells(flat)[1]])
    edge = np.where(np.isnan(edge), 1., edge)
    for name in ['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + case['views']:
        a, b = views.flat(flat, got, name), views.flat(flat, want, name)
        same.check(name, a, b, zen, edge, lambda i: f'{text}, and in double precision: ' + cmp.where(flat, i), 1e-8)
    ctx.nontrivial(len(zen))


CHECKS = {'form': form}


def axes(case):
    return api.axes(case)


def run(ctx):
    names = [n for n in views.ALL]

    shift = int(ctx.rng('shift').integers(1, 30))

    def g(single, labels=False, cells=40):
        def one(rng, k):
            forms = list(ALL) if single else [f for f in ALL if f not in ONE and f not in ONEINT]
            j = k % (3*len(forms))      # every container in every use case, for both coordinates
            c = gen.numeric(rng, k, cells=1 if single else cells, usecase=api.USECASES[j//len(forms)])
            if c['usecase'] == 'regular_grid' and not single and cells == 40 and rng.random() < .8:
                c['lat'], c['lon'] = gen.latitudes(rng, int(rng.integers(2, 7))), gen.longitudes(rng, int(rng.integers(2, 7)))
            if single:
                c['t'] = c['t'][:1] if c['usecase'] == 'transect' else c['t']
                c['lat'], c['lon'] = c['lat'][:1], c['lon'][:1]
            c['form_lat'], c['form_lon'] = forms[j % len(forms)], forms[(j + shift) % len(forms)]
            if labels:      # both with labels, which do not agree
                c['form_lat'], c['form_lon'] = (str(x) for x in rng.choice(LABELLED, 2, replace=False))
                if k % 2 == 0:
                    c = dict(gen.numeric(rng, k, cells=cells, usecase='transect'), form_lat=c['form_lat'], form_lon=c['form_lon'])
            for f, key, top in ((c['form_lat'], 'lat', 90.), (c['form_lon'], 'lon', 179.)):
                if f in HALF or f in SINGLE or f == 'numpy float32':    # (rounding may go beyond the bounds)
                    c[key] = [min(max(v, -top), top) for v in c[key]]
            c['views'] = [str(x) for x in rng.choice(names, 4, replace=False)]
            return c
        return one
    n = 3*(len(ALL) - len(ONE) - len(ONEINT))
    ctx.bulk('form', g(False), ctx.n(6*n), axes)
    ctx.bulk('form', g(False, True), ctx.n(40), axes, 'labels')
    ctx.bulk('form', g(False, cells=8000), ctx.n(n), axes, 'large')
    ctx.bulk('form', lambda r, k: g(False, cells=150000)(r, 11*k + 1), ctx.n(9), axes, 'vast')
    ctx.bulk('form', g(True), ctx.n(3*len(ALL)), None, 'one')
