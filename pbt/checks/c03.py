"""C03: the fast algorithms against reference models of their published equations."""
import numpy as np

from pbt import api, cmp, gen, ref

ID = 'C03'
RULE = ('a case is one evaluation of psa, soltrack or iqbal (times x locations in one use case); '
        'non-trivial: at least one cell is compared, every one of its outputs against the model')
ASSUMPTIONS = ['pbt/ref.py transcribes the published equations', 'cells within 0.0001 degrees of the '
               'refraction cut-off may be on either side of it']
FAST = ('psa', 'soltrack', 'iqbal')


def published(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    u = np.array(case['t'], dtype=np.float64)
    lat, lon = api.floats(case['lat']), api.floats(case['lon'])
    r = ref.model(case['alg'], u[it], lat[ia], lon[io])
    zen, az = api.flat(case, sw)
    geom, want, tie = r['zenith'], r['zenith'], None
    if case['refr']:
        up = 90. - geom >= ref.REFR_CUTOFF/ref.DEG
        want = np.where(up, geom - ref.refraction(case['alg'], 90. - geom), geom)
        want = np.clip(want, 0., None) if case['alg'] == 'iqbal' else np.abs(want)
        tie = cmp.refr_tie(90. - geom)
    # near the zenith, refraction formulas change sign: the sign of the zenith is rounding there
    tol = np.where(geom < .02, 1e-4, 1e-5) if case['refr'] else 1e-5
    cmp.check_direction(case, zen, az, want, r['azimuth'], tol, geom=geom, skip_zen=tie, ctx=ctx,
                        stat=case['alg'])
    t0 = ref.MODELS[case['alg']](u)
    cmp.check_abs(case, 'declination', api.raw(sw.declination), t0['dec']/ref.DEG, 1e-5, 'time', ctx=ctx)
    cmp.check_abs(case, 'eot', api.raw(sw.eot), t0['eot'], 1e-4, 'time', ctx=ctx)
    cmp.check_abs(case, 'ecf', api.raw(sw.ecf), t0['ecf'], 1e-7, 'time', ctx=ctx)
    ctx.nontrivial(len(zen))


CHECKS = {'published': published}


def run(ctx):
    combos = [(a, e, u) for a in FAST for e in api.ENGINES[a] for u in api.USECASES]

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            return gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
        return g
    ctx.bulk('published', one(400), ctx.n(12*18), api.axes)
    ctx.bulk('published', one(20), ctx.n(20*18), api.axes, 'small')
    def long(rng, k):
        a, e, u = combos[k % len(combos)]
        c = gen.numeric(rng, k, alg=a, eng=e, usecase='transect', cells=100)
        n = int(rng.integers(2**13, 2**15))
        t = np.array(gen.time_grid(rng, n))
        m = n if u == 'transect' else 2
        return {**c, 'usecase': u, 't': [int(x) for x in t], 'lat': gen.latitudes(rng, m), 'lon': gen.longitudes(rng, m)}
    ctx.bulk('published', long, ctx.n(18), api.axes, 'long')
    ctx.bulk('published', one(15000), ctx.n(18), api.axes, 'large')
    ctx.bulk('published', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
