"""C14: true solar time."""
import numpy as np

from pbt import api, cmp, derived, gen, ref, views
from pbt.core import Violation
from pbt.checks.c05 import ZONES

ID = 'C14'
RULE = ('a case is one evaluation, with times in some time zone; oracle: integer arithmetic on the '
        'reported equation of time, and the hour angle rebuilt from the reported direction; non-trivial: '
        'at least one cell')

DIMS = {'sites': ('time', 'location'), 'regular_grid': ('time', 'longitude'), 'transect': ('time',)}


def tst(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    u = np.array(case['t'], dtype=np.int64)[it]
    lat, lon = api.floats(case['lat'])[ia], api.floats(case['lon'])[io]
    a = sw.true_solar_time
    if a.dims != DIMS[case['usecase']] or a.dtype.kind != 'M':
        raise Violation(f'true_solar_time is {a.dtype}{a.dims}, expected times along {DIMS[case["usecase"]]} '
                        f'({cmp.config_text(case)})')
    for d in a.dims + tuple(sw.zenith.dims):
        # (what is found under an index of zenith is found there, too)
        if d in a.coords and d in sw.zenith.coords and not np.array_equal(a[d].values, sw.zenith[d].values):
            raise Violation(f'true_solar_time is labelled with other values of {d} than zenith: {a[d].values[:2]}, '
                            f'{sw.zenith[d].values[:2]} ({cmp.config_text(case)}, time zone {case["tz"]})')
    got = views.flat(case, sw, 'true_solar_time')
    eot = api.raw(sw.eot)[it]
    ns = np.array(case.get('ns') or [0]*len(case['t']), dtype=np.int64)[it]
    want = derived.tst_ns(u, eot, lon, ns)
    err = np.abs(got - want)
    if (err > 1_000_000).any():
        i = int(np.argmax(err))
        raise Violation(f'true solar time is {np.datetime64(int(got[i]), "ns")}, expected '
                        f'{np.datetime64(int(want[i]), "ns")} ({cmp.where(case, i)}, time zone {case["tz"]})')
    ctx.stat('error of true solar time, ns', err.max(initial=0))
    # hour angle of the sun from where it is seen
    geo = sw if not case['refr'] else api.call(case, refr=False)
    zen, az = api.flat(case, geo)
    v = ref.vector(zen, az)
    la = np.radians(lat)
    ha = np.degrees(np.arctan2(v[1], v[2]*np.cos(la) + v[0]*np.sin(la)))
    # (parallax moves the sun in hour angle, too)
    w = (got % derived.DAY)/derived.NS_H*15 - 180
    diff = np.abs(cmp.angle(ha - w))
    if (diff > .05).any():
        i = int(np.argmax(diff))
        raise Violation(f'at true solar time {np.datetime64(int(got[i]), "ns")}, the hour angle is {ha[i]:.4f} '
                        f'({cmp.where(case, i)}, time zone {case["tz"]})')
    ctx.stat('hour angle at true solar time', diff.max(initial=0))
    ctx.nontrivial(len(got))


CHECKS = {'tst': tst}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
            if rng.random() < .3:       # fractions of a second
                c['ns'] = gen.fractions(rng, len(c['t']))
            c['tz'] = ZONES[int(rng.integers(0, len(ZONES)))]
            if u == 'transect' and rng.random() < .4:      # around noon and midnight
                n = len(c['t'])
                q = ref.soltrack(np.array(c['t'], dtype=np.float64))
                off = rng.choice([0., 180.], n) + rng.uniform(-.2, .2, n)
                lon = cmp.angle(-q['gha']/ref.DEG + off)
                c['lon'] = [float(x) if x < 180 else -180. for x in lon]
            return c
        return g
    ctx.bulk('tst', one(300), ctx.n(14*21), api.axes)
    ctx.bulk('tst', one(12), ctx.n(14*21), api.axes, 'small')
    ctx.bulk('tst', one(12000), ctx.n(21), api.axes, 'large')
    ctx.bulk('tst', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
