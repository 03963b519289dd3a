"""C19: incidence on tilted surfaces."""
import numpy as np

from pbt import api, cmp, derived, gen
from pbt.core import Violation

ID = 'C19'
RULE = ('a case is one evaluation and one surface; oracle: dot product of the normal with the sun given by the '
        'reported declination and true solar time, and with the direction given by zenith and azimuth of the '
        'same evaluation without refraction; opposite and horizontal surfaces; non-trivial: the surface is '
        'neither horizontal nor vertical, in any orientation')


def flat(case, a):
    dims, n = api.DIMS[case['usecase']], len(api.cells(case)[0])
    if a.dims != dims or a.size != n:
        raise Violation(f'incidence has dimensions {a.dims} and {a.size} values, expected {dims} and {n} '
                        f'({cmp.config_text(case)})')
    return np.asarray(a.values).ravel()


TYPES = [float, np.float64, np.float32, np.float16, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, int,
         np.array, np.float128]


def as_type(x, k):
    """`x` in type `k`, if it holds it exactly"""
    try:
        y = TYPES[k](x)
        return y if float(y) == x else x
    except OverflowError:
        return x


def surface(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    lat, lon = api.floats(case['lat'])[ia], api.floats(case['lon'])[io]
    s, g = case['slope'], case['az']
    what = f'incidence({s}, {g})'
    got = flat(case, sw.incidence(s, g))
    tst = derived.tst_ns(np.array(case['t'], dtype=np.int64)[it], api.raw(sw.eot)[it], lon)
    want = derived.incidence(api.raw(sw.declination)[it], tst, lat, s, g)
    cmp.check_abs(case, what, got, want, 1e-6, ctx=ctx, stat='formula')
    if not (np.abs(got) <= 1 + 1e-9).all():
        i = int(np.argmax(np.abs(got)))
        raise Violation(f'{what} is {got[i]!r} ({cmp.where(case, i)})')
    ts, tg = as_type(s, case['types'][0]), as_type(g, case['types'][1])
    typed = flat(case, sw.incidence(ts, tg))
    cmp.check_abs(case, f'{what}, as {type(ts).__name__} and {type(tg).__name__},', typed, got, 1e-12)
    kw = flat(case, sw.incidence(sfc_azimuth=g, sfc_slope=s))
    cmp.check_abs(case, what + ' by keyword', kw, got, 0)
    opp = flat(case, sw.incidence(180 - s, g + 180))
    cmp.check_abs(case, what + ' of the opposite normal', -opp, got, 1e-9)
    # direction of the sun, without refraction
    geo = api.call(case, refr=False) if case['refr'] else sw
    z, a = (np.radians(api.raw(x).ravel()) for x in (geo.zenith, geo.azimuth))
    b, r = np.radians(s), np.radians(g)
    # azimuth of the sun is positive to the west; that of the surface, to the east
    dot = np.sin(z)*np.cos(a)*np.sin(b)*np.cos(r) - np.sin(z)*np.sin(a)*np.sin(b)*np.sin(r) + np.cos(z)*np.cos(b)
    cmp.check_abs(case, what + ', from the direction of the sun,', got, dot, 1e-3, ctx=ctx,
                  stat=f'{case["alg"]}: direction')
    flatsfc = flat(case, sw.incidence(0., g))
    cmp.check_abs(case, f'incidence(0, {g})', flatsfc, np.cos(z), 1e-3)
    if s % 90:
        ctx.nontrivial(got.size)


CHECKS = {'surface': surface}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
            c['slope'] = [0., 90., 30, 180., 1e-6, float(rng.uniform(0, 180)), float(rng.uniform(0, 90)),
                          float(rng.uniform(0, 90))][int(rng.integers(0, 8))]
            c['az'] = [0., 90, -90., 180., -180., float(rng.uniform(-180, 180)), float(rng.uniform(-180, 180)),
                       float(rng.uniform(-360, 360))][int(rng.integers(0, 8))]
            if k % 3 == 0:      # numbers that small types hold
                c['slope'] = float(rng.integers(0, 181))
                c['az'] = float(rng.integers(-127, 128) if rng.random() < .6 else rng.integers(-360, 361))
            c['types'] = [int(x) for x in rng.integers(0, len(TYPES), 2)]
            return c
        return g
    ctx.bulk('surface', one(60), ctx.n(21*15), api.axes)
    ctx.bulk('surface', one(2000), ctx.n(21), api.axes, 'large')
    ctx.bulk('surface', one(25000), ctx.n(21), api.axes, 'huge')
    ctx.bulk('surface', lambda r, k: one(200000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
