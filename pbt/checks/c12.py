"""C12: zenith and azimuth are the spherical-triangle solution of declination and hour angle."""
import numpy as np

from pbt import api, cmp, gen, ref
from pbt.core import Violation

ID = 'C12'
RULE = ('a case is one evaluation without refraction; oracle: the direction rebuilt with vector algebra '
        'from the reported declination and equation of time, the longitude and the latitude; '
        'non-trivial: it has at least one cell more than 0.1 degrees away from the meridian')

# between 1700 and 2250 (the drift of mean longitude against sidereal time is up to .023, .0036, .0036 and 0 there)
TOL = {'psa': .025, 'soltrack': .005, 'nrel': .005, 'iqbal': 1e-5}


def triangle(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    sod = (np.array(case['t'], dtype=np.int64) % 86400)[it].astype(np.float64)
    lat, lon = api.floats(case['lat'])[ia], api.floats(case['lon'])[io]
    dec, eot = api.raw(sw.declination)[it], api.raw(sw.eot)[it]
    ha = (sod/240 + eot/4 + lon - 180.)           # degrees, positive in the afternoon
    v = ref.hour_vector(np.radians(dec), np.radians(ha), np.radians(lat))
    rzen, raz = ref.zen_az(v)
    zen, az = api.flat(case, sw)
    tol = TOL[case['alg']]
    # parallax: 8.8 arc seconds on the horizon
    sep = ref.separation(v, ref.vector(zen, az))
    bad = ~(sep <= tol)
    ctx.stat(f'{case["alg"]} separation', sep.max())
    if bad.any():
        i = int(np.argmax(np.where(np.isnan(sep), np.inf, sep)))
        raise Violation(f'zenith {zen[i]!r} and azimuth {az[i]!r} are {sep[i]:.4g} degrees away from {rzen[i]!r} '
                        f'and {raz[i]!r}, rebuilt from declination and equation of time; expected at most {tol} '
                        f'({cmp.where(case, i)})')
    # sides of the meridian
    w = cmp.angle(ha)
    side = (np.abs(w) > .1) & (np.abs(w) < 179.9) & (np.abs(np.sin(np.radians(zen))) > 1e-3) & (np.abs(lat) < 89.99)
    bad = side & (np.sign(az) != np.sign(w))
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(f'azimuth is {az[i]!r} with the sun {"west" if w[i] > 0 else "east"} of the '
                        f'meridian ({cmp.where(case, i)})')
    if side.any():
        ctx.nontrivial(int(side.sum()))


CHECKS = {'triangle': triangle}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, refr=False, cells=cells)
            if u == 'transect' and rng.random() < .3:      # around the meridian, both sides
                n = len(c['t'])
                c['lon'] = gen.longitudes(rng, n)
                q = ref.soltrack(np.array(c['t'], dtype=np.float64))
                off = rng.choice([0., .2, -.2, 1., -1., 179., 179.9, 180.], n) + rng.uniform(-.05, .05, n)
                lon = cmp.angle(-q['gha']/ref.DEG + off)
                c['lon'] = [float(x) if x < 180 else -180. for x in lon]
            return c
        return g
    ctx.bulk('triangle', one(400), ctx.n(13*21), api.axes)
    ctx.bulk('triangle', one(25), ctx.n(20*21), api.axes, 'small')
    ctx.bulk('triangle', one(12000), ctx.n(42), api.axes, 'large')
    ctx.bulk('triangle', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
