"""C04: engine numpy against engine numexpr."""
import numpy as np

from pbt import api, cmp, gen
from pbt.core import Violation

ID = 'C04'
RULE = ('a case is one evaluation with both engines, possibly with missing times and coordinates; '
        'non-trivial: at least one finite cell is compared, every one of its outputs')
FAST = ('psa', 'soltrack', 'iqbal')


def engines(case, ctx):
    a, b = (api.call(case, eng=e) for e in ('numpy', 'numexpr'))
    for sw in (a, b):
        cmp.shapes(case, sw)
    for v in ('declination', 'eot', 'ecf', 'zenith', 'azimuth'):
        x, y = api.raw(getattr(a, v)), api.raw(getattr(b, v))
        if x.shape != y.shape or x.dtype != y.dtype:
            raise Violation(f'{v}: numpy gives {x.dtype}{x.shape}, numexpr {y.dtype}{y.shape} '
                            f'({cmp.config_text(case)})')
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            raise Violation(f'{v}: missing values in different places ({cmp.config_text(case)})')
    (za, aa), (zb, ab) = api.flat(case, a), api.flat(case, b)
    # geometric zenith, for the branch of refraction
    geom = api.flat(case, api.call(case, eng='numpy', refr=False), ('zenith',))[0]
    tie = cmp.refr_tie(90. - geom) if case['refr'] else None
    cmp.check_direction(case, zb, ab, za, aa, 1e-5, geom=geom, skip_zen=tie, ctx=ctx, missing=True)
    for v, tol in (('declination', 1e-5), ('eot', 1e-4), ('ecf', 1e-7)):
        cmp.check_abs(case, v, api.raw(getattr(b, v)), api.raw(getattr(a, v)), tol, 'time', ctx=ctx,
                      missing=True)
    n = int(np.isfinite(za).sum())
    if n:
        ctx.nontrivial(n)


CHECKS = {'engines': engines}


def holes(rng, case, p=.35):
    """the case with some of its values missing"""
    if rng.random() < p:
        f = rng.choice([.05, .3, 1.])
        case['t'] = [None if rng.random() < f else x for x in case['t']]
    if rng.random() < p*.6:
        f = rng.choice([.05, .3, 1.])
        case['lat'] = [None if rng.random() < f else x for x in case['lat']]
        case['lon'] = [None if rng.random() < f else x for x in case['lon']]
    return case


def run(ctx):
    combos = [(a, u, r) for a in FAST for u in api.USECASES for r in (True, False)]

    def one(cells):
        def g(rng, k):
            a, u, r = combos[k % len(combos)]
            return holes(rng, gen.numeric(rng, k, alg=a, usecase=u, refr=r, cells=cells))
        return g
    ctx.bulk('engines', one(400), ctx.n(15*18), api.axes)
    ctx.bulk('engines', one(15), ctx.n(30*18), api.axes, 'small')
    ctx.bulk('engines', one(40000), ctx.n(18), api.axes, 'large')
    ctx.bulk('engines', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
    for a in FAST:
        for u in api.USECASES:
            ctx.one('engines', dict(usecase=u, alg=a, eng='numpy', refr=True, t=[], lat=[], lon=[]))
            if u != 'transect':
                ctx.one('engines', dict(usecase=u, alg=a, eng='numpy', refr=True, t=[], lat=[1.], lon=[2.]))
                ctx.one('engines', dict(usecase=u, alg=a, eng='numpy', refr=True, t=[0, 3600], lat=[], lon=[]))
