"""C11: what refraction does and does not do."""
import numpy as np
from hypothesis import strategies as st

import sunwhere
from pbt import api, cmp, gen, ref
from pbt.core import Violation

ID = 'C11'
RULE = ('a case is a batch evaluated with and without refraction, most of its cells around the horizon, '
        'the refraction cut-off or elevation -5, or a call with a truthy or falsy value of `refraction`; '
        'non-trivial: at least one cell is refracted or within 8 degrees of the horizon')
ASSUMPTIONS = ['cells within 0.0001 degrees of the refraction cut-off may be on either side of it']


def saemundsson(e):
    """degrees, of the geometric elevation e in degrees, at 1010 hPa, 10 C"""
    return 1.02/np.tan(np.radians(e + 10.3/(e + 5.11)))/60


def refraction(case, ctx):
    on, off = api.call(case, refr=True), api.call(case, refr=False)
    cmp.shapes(case, on)
    cmp.shapes(case, off)
    c = dict(case, refr='on/off')
    for v in ('azimuth', 'declination', 'eot', 'ecf', 'true_solar_time'):
        a, b = api.raw(getattr(on, v)), api.raw(getattr(off, v))
        same = (a == b) if a.dtype.kind == 'M' else (np.abs(a - b) <= 1e-9)
        if a.shape != b.shape or not same.all():
            raise Violation(f'{v} depends on refraction ({cmp.config_text(c)})')
    (zon,), (zoff,) = api.flat(case, on, ('zenith',)), api.flat(case, off, ('zenith',))
    e = 90. - zoff
    lift = zoff - zon
    # overhead, formulas refract through the zenith: the zenith is then on the other side
    lift = np.where(zoff < .02, np.maximum(lift, zoff + zon - 2*zoff), lift)
    def bad(mask, what):
        if mask.any():
            i = int(np.argmax(mask))
            raise Violation(f'{what}: elevation {e[i]!r} without and {90 - zon[i]!r} with refraction '
                            f'({cmp.where(c, i)})')
    bad(~np.isfinite(lift), 'not finite')
    bad(lift < -1e-4, 'the sun is lowered')
    bad((e < -.85) & (np.abs(lift) > 1e-9), 'refracted well below the horizon')
    bad(lift > .8, 'refraction is too large')
    up = (e >= 0) & (e <= 90)
    tol = .1 if case['alg'] == 'iqbal' else .01
    want = saemundsson(np.where(up, e, 45.))
    bad(up & (np.abs(lift - want) > tol), f'not the standard refraction within {tol}')
    ctx.stat(f'{case["alg"]}: departure from Saemundsson', np.abs(np.where(up, lift - want, 0)).max(initial=0))
    # between the horizon and the cut-off of the algorithms, also refracted
    mid = (e < 0) & (e > -.83)
    bad(mid & (lift < .2), 'not refracted just below the horizon')
    for name, sw, flag in (('on', on, True), ('off', off, False)):
        if bool(sw.has_refraction) is not flag:
            raise Violation(f'has_refraction is {sw.has_refraction!r} with refraction {name}')
        el, cz, sza = (api.raw(getattr(sw, v)).ravel() for v in ('elevation', 'cosz', 'sza'))
        z = api.raw(sw.zenith).ravel()
        if not (np.allclose(el, 90 - z, rtol=0, atol=1e-9) and np.allclose(sza, z, rtol=0, atol=1e-9) and
                np.allclose(cz, np.cos(np.radians(z)), rtol=0, atol=1e-12)):
            raise Violation(f'elevation, cosz or sza do not follow zenith with refraction {name} '
                            f'({cmp.config_text(c)})')
    n = int(((np.abs(e) < 8) | (lift > 1e-9)).sum())
    if n:
        ctx.nontrivial(n)


VALUES = {'True': True, 'False': False, 'np.True': np.bool_(True), 'np.False': np.bool_(False), '1': 1, '0': 0,
          'default': None}


def choice(case, ctx):
    """any boolean is honoured, in every configuration; refraction is the default"""
    val = VALUES[case['value']]
    fn = getattr(sunwhere, case['usecase'])
    t = api.dt64(case['t'])
    kw = dict(algorithm=case['alg'], engine=case['eng'])
    if case['value'] == 'default':
        sw, flag = fn(t, case['lat'], case['lon'], **kw), True
    elif case['positional']:
        sw, flag = fn(t, case['lat'], case['lon'], case['alg'], val, case['eng']), bool(val)
    else:
        sw, flag = fn(t, case['lat'], case['lon'], refraction=val, **kw), bool(val)
    want, other = (api.raw(api.call(case, refr=r).zenith).ravel() for r in (flag, not flag))
    z = api.raw(sw.zenith).ravel()
    if bool(sw.has_refraction) is not flag:
        raise Violation(f'has_refraction is {sw.has_refraction!r} with refraction={case["value"]} '
                        f'({cmp.config_text(case)})')
    if not np.allclose(z, want, rtol=0, atol=1e-9):
        raise Violation(f'zenith {z[:3]} with refraction={case["value"]}, expected {want[:3]} '
                        f'({cmp.config_text(case)})')
    # the right answer must follow the independent refraction too
    geom = api.raw(api.call(case, refr=False).zenith).ravel()
    up = geom < 89.9
    lift = geom - z
    exp = saemundsson(90. - geom) if flag else 0*geom
    tol = .1 if case['alg'] == 'iqbal' else .01
    if (np.abs(lift - exp)[up] > tol).any():
        raise Violation(f'refraction={case["value"]}: the sun is lifted by {lift[up][:3]} degrees '
                        f'({cmp.config_text(case)})')
    if (np.abs(want - other) > 1e-6).any():
        ctx.nontrivial(z.size)


CHECKS = {'refraction': refraction, 'choice': choice}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, refr=True, cells=cells)
            if u == 'transect':
                lat, lon = gen.targeted(rng, c['t'])
                c['lat'], c['lon'] = lat, lon
                if rng.random() < .2:
                    c['lat'], c['lon'] = gen.vertical(rng, a, c['t'])
            elif u == 'sites':
                n = min(len(c['t']), len(c['lat']))
                c['lat'][:n], c['lon'][:n] = gen.targeted(rng, c['t'][:n])
            return c
        return g
    ctx.bulk('refraction', one(400), ctx.n(8*21), api.axes)
    ctx.bulk('refraction', one(25), ctx.n(8*21), api.axes, 'small')
    ctx.bulk('refraction', one(12000), ctx.n(21), api.axes, 'large')
    ctx.bulk('refraction', lambda r, k: one(150000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')

    @st.composite
    def choices(draw):
        alg, eng = draw(st.sampled_from(api.CONFIGS))
        uc = draw(st.sampled_from(api.USECASES))
        t = draw(st.lists(st.integers(gen.unix(1950), gen.unix(2060)), min_size=1, max_size=3))
        # sun low over the horizon at the first instant
        z, b = draw(st.integers(0, 91)), draw(st.integers(0, 359))
        lat, lon = gen.at_zenith(t, [z]*len(t), [b]*len(t))
        if uc != 'transect':
            lat, lon = lat[:1], lon[:1]
        return dict(usecase=uc, alg=alg, eng=eng, t=t, lat=lat, lon=lon, refr=True,
                    value=draw(st.sampled_from(sorted(VALUES))), positional=draw(st.booleans()))
    ctx.hyp('choice', choices(), ctx.n(500))
