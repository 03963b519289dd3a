"""All views of a result, flattened to one value per cell."""
import numpy as np

from . import api, derived

PER_TIME = ('declination', 'dec', 'eot', 'ecf')
SIMPLE = ('zenith', 'sza', 'elevation', 'azimuth', 'saa', 'cosz')
UNITS = ('deg', 'rad', 'tst', 'utc', 'local')
ISTIME = {'tst', 'utc', 'local'}

# name -> function of the result
ALL = {}
for _v in PER_TIME + SIMPLE + ('true_solar_time',):
    ALL[_v] = (lambda v: lambda sw: getattr(sw, v))(_v)
for _u in UNITS:
    ALL[f'sunrise({_u})'] = (lambda u: lambda sw: sw.sunrise(u))(_u)
    ALL[f'sunset({_u})'] = (lambda u: lambda sw: sw.sunset(units=u))(_u)
ALL['daylight_length'] = lambda sw: sw.daylight_length()
for _p in derived.AIRMASS:
    ALL[f'airmass({_p})'] = (lambda p: lambda sw: sw.airmass(p))(_p)
for _c in derived.CORRECTIONS:
    ALL[f'eth({_c})'] = (lambda c: lambda sw: sw.eth(am_correction=c))(_c)
ALL['eth(1000)'] = lambda sw: sw.eth(ISC=1000.)
ALL['incidence(30,20)'] = lambda sw: sw.incidence(30., 20.)
ALL['incidence(0,0)'] = lambda sw: sw.incidence(0., 0.)
ALL['incidence(90,-135)'] = lambda sw: sw.incidence(90., -135.)


def get(sw, name):
    return ALL[name](sw)


def flat(case, sw, name):
    """the view with one value per cell, in the order of api.cells; times as int64 ns"""
    a = get(sw, name)
    dims = [d for d in api.DIMS[case['usecase']]]
    it, ia, io = api.cells(case)
    vals = np.asarray(a.values)
    if vals.dtype.kind == 'M':
        vals = derived.ns(vals)
    have = [d for d in a.dims]
    shape = {'time': len(case['t'])}
    if case['usecase'] == 'sites':
        shape['location'] = len(case['lat'])
    elif case['usecase'] == 'regular_grid':
        shape['latitude'], shape['longitude'] = len(case['lat']), len(case['lon'])
    if not set(have) <= set(dims):
        return None
    # order the axes of the view as those of the use case, then repeat along the missing ones
    order = [have.index(d) for d in dims if d in have]
    vals = vals.transpose(order)
    index = tuple(slice(None) if d in have else None for d in dims)
    vals = np.broadcast_to(vals[index], tuple(shape[d] for d in dims))
    return vals.ravel()


def is_time(name):
    return name == 'true_solar_time' or name[-4:-1] in ('tst', 'utc') or name.endswith('(local)')
