"""C05: the same cells evaluated as a regular grid, as sites and as a transect."""
import numpy as np

from pbt import api, cmp, derived, gen, same, views
from pbt.core import Violation

ID = 'C05'
RULE = ('a case is a vector of times, one of latitudes and one of longitudes, evaluated as a grid, as '
        'the sites of all its nodes and as the transect of all its cells, and views of the three '
        'results (a random dozen of them per case) compared cell by cell; non-trivial: at least two cells are compared')


def agree(case, ctx):
    nt, ny, nx = len(case['t']), len(case['lat']), len(case['lon'])
    grid_case = dict(case, usecase='regular_grid')
    it, ia, io = api.cells(grid_case)
    pa, po = (g.ravel() for g in np.meshgrid(np.arange(ny), np.arange(nx), indexing='ij'))
    lat, lon = np.array(case['lat']), np.array(case['lon'])
    sites_case = dict(case, usecase='sites', lat=lat[pa].tolist(), lon=lon[po].tolist())
    tran_case = dict(case, usecase='transect', t=[case['t'][i] for i in it], lat=lat[ia].tolist(),
                     lon=lon[io].tolist())
    cases = [grid_case, sites_case, tran_case]
    res = [api.call(c) for c in cases]
    for c, sw in zip(cases, res):
        cmp.shapes(c, sw)
    zen = views.flat(tran_case, res[2], 'zenith')
    dec = views.flat(tran_case, res[2], 'declination')
    _, edge = derived.sunrise_deg(dec, lat[ia])
    geom = zen
    if case['refr']:
        geom = views.flat(tran_case, api.call(tran_case, refr=False), 'zenith')
    tie = cmp.refr_tie(90. - geom, 1e-5) if case['refr'] else np.zeros(len(zen), bool)
    for name in case['views']:
        fl = [views.flat(c, sw, name) for c, sw in zip(cases, res)]
        for c, f in zip(cases, fl):
            if f is None or f.size != len(zen):
                raise Violation(f'{name}: not one value per cell in {cmp.config_text(c)}')
        for c, f in zip(cases[:2], fl[:2]):
            a, b = np.array(f), np.array(fl[2])
            if name.split('(')[0] in ('zenith', 'sza', 'elevation', 'cosz', 'airmass', 'eth'):
                a, b, z, e = a[~tie], b[~tie], zen[~tie], edge[~tie]
                idx = np.flatnonzero(~tie)
            else:
                z, e, idx = zen, edge, np.arange(len(zen))
            same.check(name, a, b, z, e, lambda i: cmp.where(tran_case, int(idx[i])) +
                       f'; {c["usecase"]} and transect, refraction={case["refr"]}')
    if nt*ny*nx > 1:
        ctx.nontrivial(nt*ny*nx)


CHECKS = {'agree': agree}

ZONES = [None, None, None, 'Europe/Madrid', 'America/St_Johns', 'Asia/Kathmandu', 'Pacific/Apia', 'Europe/London',
         'America/New_York']


NAMES = list(views.ALL)


def axes(case):
    return [('t',), ('lat',), ('lon',)]


def run(ctx):
    def one(maxcells):
        def g(rng, k):
            alg, eng = api.CONFIGS[k % len(api.CONFIGS)]
            nt, ny, nx = 1 + rng.integers(0, int(maxcells**(1/3)*2), 3)
            if rng.random() < .15:
                nx = ny
            if rng.random() < .1:
                nt = ny = nx
            t = gen.instants(rng, nt) if rng.random() < .6 else gen.time_grid(rng, nt)
            lat, lon = gen.latitudes(rng, ny), gen.longitudes(rng, nx)
            if rng.random() < .5:
                lat[-1:], lon[-1:] = gen.targeted(rng, [t[int(rng.integers(0, nt))]])
            if rng.random() < .2:
                lat, lon = sorted(lat), sorted(lon)
            if rng.random() < .1:
                t[-1], lat[-1], lon[-1] = t[0], lat[0], lon[0]
            return dict(alg=alg, eng=eng, refr=bool((k // 7) % 2), t=t, lat=lat, lon=lon,
                        usecase='regular_grid', tz=ZONES[int(rng.integers(0, len(ZONES)))],
                        views=['zenith', 'azimuth'] + [str(v) for v in rng.choice(NAMES, 11, replace=False)])
        return g
    ctx.bulk('agree', one(60), ctx.n(84), axes)
    ctx.bulk('agree', one(6), ctx.n(42), axes, 'small')

    def big(rng, k):
        c = one(8000)(rng, k)
        return dict(c, views=['zenith', 'azimuth', 'declination', 'eot', 'ecf'])
    ctx.bulk('agree', big, ctx.n(28), axes, 'large')

    def long(rng, k):
        c = one(6)(rng, k)
        n = int(10**rng.uniform(1.7, 3.6))
        axis = ['lat', 'lon', 't'][k // 7 % 3]
        c[axis] = {'lat': gen.latitudes, 'lon': gen.longitudes, 't': gen.instants}[axis](rng, n)
        return dict(c, views=['zenith', 'azimuth', 'declination', 'eot', 'ecf'])
    ctx.bulk('agree', long, ctx.n(42), axes, 'long')
