"""C17: instants of sunrise and sunset."""
import datetime as dt
import zoneinfo

import numpy as np

from pbt import api, cmp, derived, gen, ref, views, zones
from pbt.core import Violation

ID = 'C17'
RULE = ('a case is one evaluation with times in some time zone, many around its offset changes and around '
        'true solar midnight; oracle: integer arithmetic on the reported equation of time, declination and '
        'longitude, wall clocks by Python datetimes, and the zenith evaluated at the instants; '
        'non-trivial: at least one cell has a sunrise')
MS = 1_000_000
EDGE = 1e-9
EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)


def wall(ns, tz):
    """wall clock, ns, of UTC instants in the time zone"""
    if tz is None:
        return ns
    out = np.array(ns)
    for i, x in enumerate(ns):
        if x != derived.NAT:
            off = (EPOCH + dt.timedelta(seconds=int(x//10**9))).astimezone(tz).utcoffset()
            out[i] = x + int(off.total_seconds())*10**9
    return out


def instants(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it, ia, io = api.cells(case)
    lat, lon = api.floats(case['lat'])[ia], api.floats(case['lon'])[io]
    dec, eot = api.raw(sw.declination)[it], api.raw(sw.eot)[it]
    u = np.array(case['t'], dtype=np.int64)[it]
    ns = np.array(case.get('ns') or [0]*len(case['t']), dtype=np.int64)[it]
    tst = derived.tst_ns(u, eot, lon, ns)
    day = tst//derived.DAY*derived.DAY
    w, edge = derived.sunrise_deg(dec, lat)
    tz = zoneinfo.ZoneInfo(case['tz']) if case['tz'] else None
    half = np.rint(np.nan_to_num(w)/15*derived.NS_H).astype(np.int64)
    off = np.rint((eot + 4*lon)*60e9).astype(np.int64)
    nat = np.isnan(w)
    noon = day + 12*derived.NS_H
    want, exact = {}, {}
    for name, x in (('sunrise', noon - half), ('sunset', noon + half)):
        want[name, 'tst'] = np.where(nat, derived.NAT, x)
        want[name, 'utc'] = np.where(nat, derived.NAT, x - off)
        want[name, 'local'] = wall(want[name, 'utc'], tz)
    tol = MS + 3e5/np.sqrt(np.maximum(edge, 1e-12))     # the arccos amplifies the last digits
    onedge = edge < EDGE
    midnight = np.minimum(tst % derived.DAY, derived.DAY - tst % derived.DAY) < 2*MS
    got = {}
    for (name, units), x in want.items():
        g = got[name, units] = views.flat(case, sw, f'{name}({units})')
        if g is None or g.size != w.size:
            raise Violation(f'{name}({units}): not one value per cell ({cmp.config_text(case)})')
        y = x
        miss = (g == derived.NAT) != nat
        d = np.abs(np.where(g == derived.NAT, y, g) - y)
        d = np.where(midnight, np.minimum(d, np.abs(d - derived.DAY)), d)
        bad = np.where(miss, ~onedge, ~nat & (d > tol))
        if units == 'local' and tz is not None and bad.any():
            # at the very change of the offset, a nanosecond decides: both are right
            for i in np.flatnonzero(bad):
                if g[i] != derived.NAT and not miss[i]:
                    near = {int(wall(np.array([want[name, 'utc'][i] + k]), tz)[0]) for k in (-2*10**9, 2*10**9)}
                    bad[i] = min(abs(int(g[i]) - n) for n in near) > 2*10**9 + tol[i] if len(near) else True
        if bad.any():
            i = int(np.argmax(bad))
            show = lambda v: 'NaT' if v == derived.NAT else str(np.datetime64(int(v), 'ns'))      # noqa: E731
            raise Violation(f'{name}({units}) is {show(g[i])}, expected {show(y[i])} '
                            f'({cmp.where(case, i)}, time zone {case["tz"]})')
    # the sun really is on the horizon
    have = np.flatnonzero(~nat & ~onedge)
    if have.size:
        m = have.size
        both = np.concatenate([have, have])
        t = [int(x) for name in ('sunrise', 'sunset') for x in got[name, 'utc'][have]//10**9]
        psw = api.call(dict(usecase='transect', alg=case['alg'], eng=case['eng'], refr=False, t=t,
                            lat=lat[both].tolist(), lon=lon[both].tolist()))
        z = api.raw(psw.zenith)
        err = np.abs(z - 90)
        ctx.stat(f'{case["alg"]}: departure from the horizon', err.max())
        if not (err <= .8).all():
            i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
            raise Violation(f'the zenith is {z[i]!r} at the {("sunrise", "sunset")[i//m]} {cmp.iso(t[i])} UTC '
                            f'({cmp.where(case, int(both[i]))})')
        # rising in the east, setting in the west
        az = api.raw(psw.azimuth)
        wrong = ((np.abs(np.sin(np.radians(az))) > .05) & (np.abs(lat[both]) < 89) &
                 (np.sign(az) != np.repeat([-1, 1], m)))
        if wrong.any():
            i = int(np.argmax(wrong))
            raise Violation(f'the azimuth is {az[i]!r} at {("sunrise", "sunset")[i//m]} '
                            f'({cmp.where(case, int(both[i]))})')
        ctx.nontrivial(m)


CHECKS = {'instants': instants}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]
    zs = [None] + zones.NAMES

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            tz = zs[int(rng.integers(0, len(zs)))]
            local = dict(lo=gen.unix(1995), hi=gen.unix(2036)) if tz else {}
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells, **local)
            c['tz'] = tz
            n = len(c['t'])
            tr = zones.transitions(tz) if tz else []
            if tr and rng.random() < .6:
                c['t'] = [int(x) for x in rng.choice(tr, n) + rng.integers(-2*86400, 2*86400, n)]
            if u == 'transect' and rng.random() < .3:      # around true solar midnight
                q = ref.soltrack(np.array(c['t'], dtype=np.float64))
                lon = cmp.angle(-q['gha']/np.radians(1) + 180 + rng.uniform(-.1, .1, n))
                c['lon'] = [float(x) if x < 180 else -180. for x in lon]
            if rng.random() < .2:       # fractions of a second
                c['ns'] = gen.fractions(rng, n)
            if rng.random() < .6:
                c['lat'] = [float(x) for x in rng.uniform(-66, 66, len(c['lat']))]
            return c
        return g
    ctx.bulk('instants', one(60), ctx.n(21*6), api.axes)
    ctx.bulk('instants', one(6), ctx.n(21*5), api.axes, 'small')
    ctx.bulk('instants', one(1500), ctx.n(21), api.axes, 'large')
    ctx.bulk('instants', one(15000), ctx.n(6), api.axes, 'huge')
