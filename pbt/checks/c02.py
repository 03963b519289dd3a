"""C02: the fast algorithms against NREL's SPA (pvlib's), in their accuracy classes."""
import numpy as np

from pbt import api, cmp, gen, ref
from pbt.core import Violation

ID = 'C02'
RULE = ('a case is one evaluation of a fast algorithm without refraction; non-trivial: at least one '
        'cell is compared with the SPA')
ASSUMPTIONS = ['pvlib.spa (delta T 67 s) is a faithful implementation of the SPA']

# (algorithm, first year, last year): direction, declination, eot, ecf
CLASSES = {
    ('psa', 2020, 2051): (.01, .005, .065, 2e-4),
    ('soltrack', 1900, 2101): (.01, .005, .065, 2e-4),
    ('iqbal', 2020, 2051): (.5, .8, .8, 1.5e-3),
    ('iqbal', 1900, 2101): (.85, .8, .8, 1.5e-3),
}
MEAN = {'psa': .003, 'soltrack': .003}


def errors(case):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    u = np.array(case['t'], dtype=np.float64)
    lat, lon = api.floats(case['lat']), api.floats(case['lon'])
    r = ref.spa(u[it], lat[ia], lon[io])
    zen, az = api.flat(case, sw)
    sep = ref.separation(ref.vector(zen, az), ref.vector(r['zenith'], r['azimuth']))
    return sw, u, zen, az, r, sep


def accuracy(case, ctx):
    ddir, ddec, deot, decf = CLASSES[case['alg'], case['years'][0], case['years'][1]]
    sw, u, zen, az, r, sep = errors(case)
    cmp.check_abs(case, 'error of direction', sep, np.zeros(len(sep)), ddir, ctx=ctx,
                  stat=f'{case["alg"]} {case["years"][0]} direction')
    t0 = ref.spa(u, 0*u, 0*u)
    for name, tol in (('declination', ddec), ('eot', deot), ('ecf', decf)):
        cmp.check_abs(case, name, api.raw(getattr(sw, name)), t0[name], tol, 'time', ctx=ctx,
                      stat=f'{case["alg"]} {case["years"][0]} {name}')
    ctx.nontrivial(len(sep))


def average(case, ctx):
    *_, sep = errors(case)
    m = sep.mean()
    ctx.stat(f'{case["alg"]} mean error', m)
    if not m <= MEAN[case['alg']]:
        raise Violation(f'average error of {case["alg"]}/{case["eng"]} is {m:.5f} degrees over '
                        f'{len(sep)} uniform cells, expected at most {MEAN[case["alg"]]}')
    ctx.nontrivial(len(sep))


CHECKS = {'accuracy': accuracy, 'average': average}


def run(ctx):
    keys = list(CLASSES)

    def one(rng, k, cells=400):
        alg, a, b = keys[k % len(keys)]
        c = k//len(keys)       # every use case and engine
        c = gen.numeric(rng, k, alg=alg, lo=gen.unix(a), hi=gen.unix(b), refr=False, cells=cells,
                        usecase=api.USECASES[c % 3], eng=api.ENGINES[alg][c//3 % 2])
        return dict(c, years=[a, b])

    def uniform(rng, k):
        alg, a, b = [q for q in keys if q[0] in MEAN][k % 2]
        n = 4000
        return dict(usecase='transect', alg=alg, eng=api.ENGINES[alg][(k//2) % 2], refr=False, years=[a, b],
                    t=[int(x) for x in rng.integers(gen.unix(a), gen.unix(b), n)],
                    lat=[float(x) for x in np.degrees(np.arcsin(rng.uniform(-1, 1, n)))],
                    lon=[float(x) for x in rng.uniform(-180, 180, n)])

    ctx.bulk('accuracy', one, ctx.n(160), api.axes)
    ctx.bulk('accuracy', lambda r, k: one(r, k, 8000), ctx.n(24), api.axes, 'large')
    ctx.bulk('accuracy', lambda r, k: one(r, 5*k + 1, 150000), ctx.n(6), api.axes, 'vast')
    ctx.bulk('average', uniform, ctx.n(4))
