"""C01: nrel against pvlib's independent implementation of NREL's SPA."""
import numpy as np

from pbt import api, cmp, gen, ref

ID = 'C01'
RULE = ('a case is one evaluation of nrel (times x locations in one use case); non-trivial: at least '
        'one cell is compared, every one of its outputs against the reference')
ASSUMPTIONS = ['pvlib.spa (delta T 67 s, 1013.25 hPa, 12 C, sea level) is a faithful implementation '
               'of the SPA', 'cells within 0.0001 degrees of the refraction cut-off may be on either '
               'side of it']


def compare(case, ctx, always=True):
    tol = 1e-4 if case['refr'] else 1e-5
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    u = np.array(case['t'], dtype=np.float64)
    lat, lon = api.floats(case['lat']), api.floats(case['lon'])
    r = ref.spa(u[it], lat[ia], lon[io])
    zen, az = api.flat(case, sw)
    geom = r['zenith']
    want = r['zenith_refr'] if case['refr'] else geom
    tie = cmp.refr_tie(90. - geom) if case['refr'] else None
    cmp.check_direction(case, zen, az, want, r['azimuth'], tol, geom=geom, skip_zen=tie, ctx=ctx)
    if always:
        t0 = ref.spa(u, 0*u, 0*u)
        cmp.check_abs(case, 'declination', api.raw(sw.declination), t0['declination'], 1e-5, 'time', ctx=ctx)
        eot = api.raw(sw.eot)
        cmp.check_abs(case, 'eot', eot, t0['eot'], 1e-4, 'time', ctx=ctx)
        cmp.check_abs(case, 'ecf', api.raw(sw.ecf), t0['ecf'], 1e-8, 'time', ctx=ctx)
    ctx.nontrivial(len(zen))


def spa(case, ctx):
    compare(case, ctx)


def spa_period(case, ctx):
    compare(case, ctx, always=False)


CHECKS = {'spa': spa, 'spa_period': spa_period}


def run(ctx):
    ctx.bulk('spa', lambda rng, k: gen.numeric(rng, k, algs=('nrel',)), ctx.n(110), api.axes)
    ctx.bulk('spa', lambda rng, k: gen.numeric(rng, k, algs=('nrel',), cells=25), ctx.n(250), api.axes, 'small')
    ctx.bulk('spa', lambda rng, k: gen.numeric(
        rng, k, algs=('nrel',), cells=12000, usecase=api.USECASES[k % 3]), ctx.n(9), api.axes, 'large')
    ctx.bulk('spa', lambda rng, k: gen.numeric(
        rng, k, algs=('nrel',), cells=150000, usecase=api.USECASES[k % 3]), ctx.n(6), api.axes, 'vast')
    ctx.bulk('spa_period', lambda rng, k: gen.numeric(
        rng, k, algs=('nrel',), lo=gen.LO_SPA, hi=gen.HI_SPA, refr=False), ctx.n(60), api.axes)
