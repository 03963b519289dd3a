"""C10: valid inputs give finite values in range."""
import numpy as np

from pbt import api, cmp, gen
from pbt.core import Violation

ID = 'C10'
RULE = ('a case is one evaluation (times x locations in one use case), many of whose cells have the sun '
        'exactly overhead or underfoot, on the horizon, or are at the poles or the date line; '
        'non-trivial: it has at least one cell')

RANGES = {'zenith': (0, 180), 'sza': (0, 180), 'elevation': (-90, 90), 'azimuth': (-180, 180), 'saa': (-180, 180),
          'cosz': (-1, 1)}
TIME_RANGES = {'declination': (-24, 24), 'dec': (-24, 24), 'eot': (-18, 18), 'ecf': (.95, 1.05)}
ROUND = 1e-9        # 180 degrees may be written as 180.00000000000003


def ranges(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    n = len(api.cells(case)[0])
    for rng, per in ((RANGES, 'cell'), (TIME_RANGES, 'time')):
        for v, (lo, hi) in rng.items():
            a = api.raw(getattr(sw, v)).ravel()
            bad = ~np.isfinite(a) | (a < lo - ROUND) | (a > hi + ROUND)
            if a.size != (n if per == 'cell' else len(case['t'])):
                raise Violation(f'{v} has {a.size} values')
            if bad.any():
                i = int(np.argmax(bad))
                place = cmp.where(case, i) if per == 'cell' else f'{cmp.config_text(case)}, {cmp.iso(case["t"][i])}'
                raise Violation(f'{v} is {a[i]!r} ({place})')
    z = api.raw(sw.zenith)
    if z.size:
        ctx.stat('largest zenith', z.max())
        ctx.stat('minus smallest zenith', -z.min())
        ctx.nontrivial(n)


CHECKS = {'ranges': ranges}


def run(ctx):
    combos = [(a, e, u, r) for a, e in api.CONFIGS for u in api.USECASES for r in (True, False)]

    def one(cells):
        def g(rng, k):
            a, e, u, r = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, refr=r, cells=cells)
            if u == 'transect':
                lat, lon = gen.vertical(rng, a, c['t'])
                pick = rng.random(len(c['t'])) < .6
                c['lat'] = [x if p else y for x, y, p in zip(lat, c['lat'], pick)]
                c['lon'] = [x if p else y for x, y, p in zip(lon, c['lon'], pick)]
            else:
                n = min(len(c['t']), len(c['lat']), len(c['lon']))
                if rng.random() < .7:
                    c['lat'][:n], c['lon'][:n] = gen.vertical(rng, a, c['t'][:n])
            return c
        return g
    ctx.bulk('ranges', one(400), ctx.n(9*42), api.axes)
    ctx.bulk('ranges', one(25), ctx.n(12*42), api.axes, 'small')
    ctx.bulk('ranges', one(12000), ctx.n(42), api.axes, 'large')
    ctx.bulk('ranges', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
