"""C23: options select what they name."""
import os
import sys

import numexpr
import numpy as np
import sunwhere

from pbt import api, cmp, gen, model
from pbt.core import Violation

ID = 'C23'
RULE = ('a case is one evaluation and the way its options are given (by position, by keyword or omitted); oracle: '
        'the reference model of the named algorithm with the named refraction, in all cells or in a sample of some 70 of a large '
        'evaluation; non-trivial: large, or the models of all other algorithms, or of the other refraction, are told apart by at '
        'least 10 times the tolerance')
ASSUMPTIONS = ['pbt/ref.py and pvlib as in C01 and C03',
               'an engine is in use if functions of the numexpr package are called, or not, by the evaluation']
NE = os.path.dirname(numexpr.__file__) + os.sep
OPTIONS = [('algorithm', 'psa', 'alg'), ('refraction', True, 'refr'), ('engine', 'numexpr', 'eng')]


def watched(fn):
    """result of fn(), and whether it uses numexpr"""
    used = [False]

    def spy(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(NE):
            used[0] = True
    sys.setprofile(spy)
    try:
        return fn(), used
    finally:
        sys.setprofile(None)


def select(case, ctx):
    fn = getattr(sunwhere, case['usecase'])
    args = [('times', api.dt64(case['t'])), ('latitude', api.floats(case['lat'])),
            ('longitude', api.floats(case['lon']))]
    opts = [(name, case[key]) for name, _, key in OPTIONS]
    npos = case['npos']
    pos = [v for _, v in (args + opts)[:npos]]
    kw = {k: v for (k, v), (_, default, _) in list(zip(args + opts, [(0, 0, 0)]*3 + OPTIONS))[npos:]}
    for (name, default, key) in OPTIONS:
        if name in kw and kw[name] == default and name in case['omit']:
            del kw[name]
    text = f'{case["usecase"]} with {npos} positional arguments and {sorted(kw)}'
    sw, used = watched(lambda: fn(*pos, **kw))
    try:
        model.check_base(case, sw)
    except Violation as exc:
        raise Violation(f'{exc}; {text}') from None
    got = (sw.algorithm, bool(sw.has_refraction), sw.engine, sw.usecase)
    if got != (case['alg'], case['refr'], case['eng'], case['usecase']):
        raise Violation(f'algorithm, refraction, engine and use case are reported as {got}, expected '
                        f'{(case["alg"], case["refr"], case["eng"], case["usecase"])}; {text}')
    if used[0] != (case['eng'] == 'numexpr'):
        raise Violation(f'engine {case["eng"]} {"uses" if used[0] else "does not use"} numexpr; {text}, '
                        f'{case["alg"]}')
    # can the other algorithms and the other refraction be told apart?
    r = model.predict(case)
    tol = 1e-3 if case['refr'] else 1e-4
    others = [dict(case, alg=a) for a in api.ALGS if a != case['alg']]
    apart = all(np.nanmax(np.abs(model.predict(o)['zenith'] - r['zenith'])) > tol for o in others)
    o = dict(case, refr=not case['refr'])
    if apart and np.nanmax(np.abs(model.predict(o)['zenith'] - r['zenith'])) > 1e-3:
        ctx.nontrivial(r['zenith'].size)


def large(case, ctx):
    """a sample of the cells of a large evaluation"""
    rng = np.random.default_rng(case['seed'])
    u, (n, ny, nx) = case['usecase'], case['size']
    t = np.sort(rng.integers(gen.unix(1990), gen.unix(2060), n))
    lat = np.degrees(np.arcsin(rng.uniform(-1, 1, n if u == 'transect' else ny)))
    lon = rng.uniform(-180, 179.9, lat.size if u != 'regular_grid' else nx)
    sw, used = watched(lambda: getattr(sunwhere, u)(t.astype('datetime64[s]'), lat, lon, case['alg'], case['refr'], case['eng']))
    if used[0] != (case['eng'] == 'numexpr'):
        raise Violation(f'engine {case["eng"]} {"uses" if used[0] else "does not use"} numexpr (in a {u} of {case["size"]})')
    shape = {'sites': (n, lat.size), 'regular_grid': (n, lat.size, lon.size), 'transect': (n,)}[u]
    got = {x: api.raw(getattr(sw, x)) for x in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')}
    for x, v in got.items():
        want = shape if x in ('zenith', 'azimuth') else (n,)
        if v.shape != want:
            raise Violation(f'{x} has shape {v.shape}, expected {want}')
    total = int(np.prod(shape))
    at = np.unique(np.concatenate([rng.integers(0, total, 50), [0, total - 1, total//2],
                                   np.array([2**k + d for k in range(9, 21) for d in (-1, 0)])]))
    at = at[at < total]
    i = np.unravel_index(at, shape)
    one = dict(usecase='transect', alg=case['alg'], eng=case['eng'], refr=case['refr'], t=[int(x) for x in t[i[0]]],
               lat=[float(x) for x in lat[i[0] if u == 'transect' else i[1]]],
               lon=[float(x) for x in lon[i[0] if u == 'transect' else i[-1]]])
    r = model.predict(one)
    text = f' (cells {at[:3]}... of a {u} of {case["size"]})'
    try:
        tie = cmp.refr_tie(90. - r['geom']) if case['refr'] else None
        cmp.check_direction(one, got['zenith'].ravel()[at], got['azimuth'].ravel()[at], r['zenith'], r['azimuth'],
                            1e-4 if case['refr'] else 1e-5, geom=r['geom'], skip_zen=tie)
        for x, tol in (('declination', 1e-5), ('eot', 1e-4), ('ecf', 1e-7)):
            cmp.check_abs(one, x, got[x][i[0]], r[x], tol)
    except Violation as exc:
        raise Violation(str(exc) + text) from None
    ctx.nontrivial(at.size)


def advertised(case, ctx):
    names = list(sunwhere.SPA_ALGORITHMS)
    if sorted(names) != sorted(api.ALGS):
        raise Violation(f'the advertised algorithms are {names}')
    ctx.nontrivial()


CHECKS = {'select': select, 'large': large, 'advertised': advertised}


def run(ctx):
    ctx.one('advertised', {})
    combos = [(a, e, u, r) for a, e in api.CONFIGS for u in api.USECASES for r in (True, False)]

    def g(rng, k):
        if rng.random() < .3:
            a, e, u, r = 'psa', 'numexpr', api.USECASES[k % 3], True
        else:
            a, e, u, r = combos[k % len(combos)]
        c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, refr=r, cells=25, lo=gen.unix(1900), hi=gen.unix(2100))
        n = len(c['t'])
        if u == 'transect':
            c['lat'], c['lon'] = gen.at_zenith(c['t'], rng.uniform(20, 90.3, n), rng.uniform(0, 360, n))
        else:
            la, lo = gen.at_zenith(c['t'][:1], rng.uniform(80, 89), rng.uniform(0, 360))
            c['lat'][0], c['lon'][0] = la[0], lo[0]
        c['npos'] = int(rng.choice([0, 3, 3, 3, 4, 5, 6]))
        c['omit'] = [name for name, *_ in OPTIONS if rng.random() < .6]
        return c
    ctx.bulk('select', g, ctx.n(42*14), api.axes)

    def big(rng, k):
        a, e, u, r = combos[k % len(combos)]
        cells = int(np.exp(rng.uniform(np.log(3000), np.log(120000)))) if k % 2 else int(rng.choice([65536, 100001, 131073, 300000]))
        n, m = sorted(int(x) for x in np.exp(rng.uniform(0, np.log(cells)/2, 2)) + 1)
        if u == 'transect':
            size = min(cells, 140000 if a == 'nrel' else cells), 1, 1
        elif u == 'sites':
            size = (n, cells//n + 1, 1) if a == 'nrel' or rng.random() < .5 else (cells//n + 1, n, 1)
        else:
            size = (n, m, cells//n//m + 1) if rng.random() < .5 else (m, cells//n//m + 1, n)
        return dict(usecase=u, alg=a, eng=e, refr=r, size=size, seed=int(rng.integers(1 << 31)))
    ctx.bulk('large', big, ctx.n(42*2))
