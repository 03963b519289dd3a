"""Calls of the library under test and views of its results as flat arrays."""
import numpy as np
import pandas as pd
import sunwhere

ALGS = ('psa', 'soltrack', 'iqbal', 'nrel')
ENGINES = {'psa': ('numexpr', 'numpy'), 'soltrack': ('numexpr', 'numpy'),
           'iqbal': ('numexpr', 'numpy'), 'nrel': ('numexpr',)}
CONFIGS = [(a, e) for a in ALGS for e in ENGINES[a]]
USECASES = ('sites', 'regular_grid', 'transect')
DIMS = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'),
        'transect': ('time',)}


def dt64(u):
    """unix seconds (None: NaT) to naive datetime64[s]"""
    if any(x is None for x in u):
        return np.array([np.datetime64('NaT', 's') if x is None else np.datetime64(int(x), 's')
                         for x in u], dtype='datetime64[s]')
    return np.asarray(u).astype(np.int64).astype('datetime64[s]')


def floats(x):
    return np.array([np.nan if v is None else v for v in x], dtype=np.float64)


def call(case, **over):
    """runs the use case of a numeric case {usecase, alg, eng, refr, t, lat, lon}"""
    c = {**case, **over}
    fn = getattr(sunwhere, c['usecase'])
    times = c['times'] if 'times' in c else dt64(c['t'])
    if c.get('ns'):         # fractions of a second, nanoseconds
        times = times.astype('datetime64[ns]') + np.array(c['ns'], dtype='timedelta64[ns]')
    if c.get('tz'):
        times = pd.DatetimeIndex(times).tz_localize('UTC').tz_convert(c['tz'])
    return fn(times, floats(c['lat']), floats(c['lon']), algorithm=c['alg'],
              engine=c['eng'], refraction=c['refr'])


def raw(arr):
    return np.asarray(arr.values)


def cells(case):
    """(it, ilat, ilon): indices of the inputs of every cell, flattened in the order of
    the use case's dimensions"""
    nt, na, no = len(case['t']), len(case['lat']), len(case['lon'])
    uc = case['usecase']
    if uc == 'transect':
        i = np.arange(nt)
        return i, i, i
    if uc == 'sites':
        it, il = np.meshgrid(np.arange(nt), np.arange(na), indexing='ij')
        return it.ravel(), il.ravel(), il.ravel()
    it, ia, io = np.meshgrid(np.arange(nt), np.arange(na), np.arange(no), indexing='ij')
    return it.ravel(), ia.ravel(), io.ravel()


def flat(case, sw, views=('zenith', 'azimuth')):
    """values of the location-dependent views, one per cell"""
    n = len(cells(case)[0])
    out = []
    for v in views:
        a = getattr(sw, v)
        a = raw(a() if callable(a) else a)
        out.append(a.reshape(n) if a.size == n else a)
    return out


def axes(case):
    t = ('t', 'ns') if case.get('ns') else ('t',)
    if case['usecase'] == 'transect':
        return [t + ('lat', 'lon')]
    if case['usecase'] == 'sites':
        return [t, ('lat', 'lon')]
    return [t, ('lat',), ('lon',)]
