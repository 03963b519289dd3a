"""C22: continuity in time and space."""
import numpy as np

from pbt import api, cmp, gen, ref
from pbt.core import Violation

ID = 'C22'
RULE = ('a case is a set of pairs of instants 1 to 600 s apart (many across midnights, ends of months, years, '
        'leap days, centuries and the 1970 epoch) or of pairs of places, or a series of instants in any use case, evaluated without refraction; oracle: '
        'bounds of the apparent motion; non-trivial: every pair is compared')
ASSUMPTIONS = ['apparent motion: 14.98 cos(declination) to 15.02 degrees per hour; per day at most 0.42 degrees of '
               'declination, 0.55 minutes of equation of time and 0.0007 of distance factor']
NOISE = 2e-5        # degrees
RATES = {'declination': (.42, 1e-7), 'eot': (.55, 1e-5), 'ecf': (7e-4, 1e-9)}


def evaluate(case, t, lat, lon):
    sw = api.call(dict(usecase='transect', alg=case['alg'], eng=case['eng'], refr=False, t=t, lat=lat, lon=lon))
    return sw, ref.vector(api.raw(sw.zenith), api.raw(sw.azimuth))


def time(case, ctx):
    t, dt = case['t'], case['dt']
    n = len(t)
    sw, v = evaluate(case, t + [a + b for a, b in zip(t, dt)], case['lat']*2, case['lon']*2)
    dt = np.array(dt, dtype=np.float64)
    moved = ref.separation(v[:, :n], v[:, n:])
    dec = api.raw(sw.declination)
    hi = 15.02/3600*dt + NOISE
    lo = 14.98/3600*dt*np.cos(np.radians(dec[:n])) - NOISE
    skip = np.zeros(n, bool)
    if case['alg'] == 'iqbal':      # its day angle jumps at the end of leap years
        y = ref.civil(t)[0]
        y1 = ref.civil(np.array(t) + dt)[0]
        skip = (y != y1) & ((y % 4 == 0) & (y % 100 != 0) | (y % 400 == 0))
    text = lambda i: (f'{case["alg"]}/{case["eng"]}, {cmp.iso(t[i])} UTC and {int(dt[i])} s later, '     # noqa: E731
                      f'lat {case["lat"][i]!r}, lon {case["lon"][i]!r}')
    bad = ~((moved <= hi) & (moved >= lo)) & ~skip
    ctx.stat(f'{case["alg"]}: degrees per hour', np.where(skip | (dt < 60), 0, moved/dt*3600).max())
    ctx.stat(f'{case["alg"]}: slowest, minus degrees per hour over cos dec',
             -np.where(skip | (dt < 60), 99, moved/dt*3600/np.cos(np.radians(dec[:n]))).min())
    if bad.any():
        i = int(np.argmax(np.where(bad, np.nan_to_num(moved/hi, nan=np.inf), -1)))
        raise Violation(f'the sun moves {moved[i]!r} degrees, expected {lo[i]:.6f} to {hi[i]:.6f} ({text(i)})')
    for name, (rate, eps) in RATES.items():
        x = api.raw(getattr(sw, name))
        d = np.abs(x[n:] - x[:n])
        ctx.stat(f'{case["alg"]}: {name} per day', np.where(skip | (dt < 60), 0, d/dt*86400).max())
        bad = ~(d <= rate/86400*dt + eps) & ~skip
        if bad.any():
            i = int(np.argmax(np.where(bad, np.nan_to_num(d, nan=np.inf), -1)))
            raise Violation(f'{name} changes by {d[i]!r} ({text(i)})')
    ctx.nontrivial(int((~skip).sum()))


def place(case, ctx):
    """the zenith angle changes by no more than the distance between the observers"""
    t = case['t']
    n = len(t)
    sw, v = evaluate(case, t*2, case['lat'] + case['lat2'], case['lon'] + case['lon2'])
    zen = api.raw(sw.zenith)

    def up(lat, lon):       # unit vector of the place, with the differences of longitude kept small
        la, lo = np.radians(lat), np.radians(lon)
        return np.stack([np.cos(la)*np.cos(lo), np.cos(la)*np.sin(lo), np.sin(la)])
    p, q = up(case['lat'], case['lon']), up(case['lat2'], case['lon2'])
    dist = ref.separation(p, q)
    moved = np.abs(zen[n:] - zen[:n])
    lim = dist*(1 + 5e-5) + NOISE
    text = lambda i: (f'{case["alg"]}/{case["eng"]}, {cmp.iso(t[i])} UTC, lat {case["lat"][i]!r}, lon '    # noqa: E731
                      f'{case["lon"][i]!r} and {case["lat2"][i]!r}, {case["lon2"][i]!r}')
    bad = ~(moved <= lim)
    if bad.any():
        i = int(np.argmax(np.where(bad, np.nan_to_num(moved/lim, nan=np.inf), -1)))
        raise Violation(f'the zenith changes by {moved[i]!r} for a distance of {dist[i]!r} ({text(i)})')

    # the direction of the sun in a frame fixed to the earth is the same, but for the parallax
    def fixed(v, lat, lon):
        la, lo = np.radians(lat), np.radians(lon)
        south = np.stack([np.sin(la)*np.cos(lo), np.sin(la)*np.sin(lo), -np.cos(la)])
        west = np.stack([np.sin(lo), -np.cos(lo), 0*lo])
        return v[0]*south + v[1]*west + v[2]*up(lat, lon)
    sep = ref.separation(fixed(v[:, :n], case['lat'], case['lon']), fixed(v[:, n:], case['lat2'], case['lon2']))
    lim = 1.2*2.44e-3*2*np.sin(np.radians(np.minimum(dist, 180)/2)) + NOISE
    bad = ~(sep <= lim)
    ctx.stat(f'{case["alg"]}: change of direction', sep.max())
    if bad.any():
        i = int(np.argmax(np.where(bad, np.nan_to_num(sep/lim, nan=np.inf), -1)))
        raise Violation(f'the sun seen from both places differs by {sep[i]!r} degrees, expected at most '
                        f'{lim[i]:.6f} ({text(i)})')
    ctx.nontrivial(n)


def motion(case, ctx):
    """the same bounds between consecutive instants of a series and neighbours of a vector of places or a grid"""
    sw = api.call(case)
    cmp.shapes(case, sw)
    t = np.array(case['t'], dtype=np.float64)
    zen, az = api.raw(sw.zenith), api.raw(sw.azimuth)
    v = ref.vector(zen, az)
    dec = np.radians(api.raw(sw.declination))
    lat, lon = api.floats(case['lat']), api.floats(case['lon'])
    dt = np.diff(t)
    near = (dt >= 1) & (dt <= 600)
    if case['alg'] == 'iqbal':      # its day angle jumps at the end of leap years
        y = ref.civil(case['t'])[0]
        near &= ~((np.diff(y) != 0) & ((y[:-1] % 4 == 0) & (y[:-1] % 100 != 0) | (y[:-1] % 400 == 0)))
    wide = lambda x: x.reshape((-1,) + (1,)*(zen.ndim - 1))       # noqa: E731
    where = f'{case["alg"]}/{case["eng"]}, {case["usecase"]} of {zen.shape}'

    def found(bad, what, got, lim, text):
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(bad, np.nan_to_num(got/lim, nan=np.inf), -1))), bad.shape)
            raise Violation(f'{what} {got[i]!r}, expected at most {np.broadcast_to(lim, bad.shape)[i]:.6f} '
                            f'({where}, {text(i)})')
    moved = ref.separation(v[:, 1:], v[:, :-1])
    hi = wide(15.02/3600*dt + NOISE)
    lo = wide(14.98/3600*dt*np.cos(dec[:-1]) - NOISE)
    found(~((moved <= hi) & (moved >= lo)) & wide(near), 'between consecutive times the sun moves', moved, hi,
          lambda i: f'{cmp.iso(t[i[0]])} UTC, {int(dt[i[0]])} s, place {[int(x) for x in i[1:]]}')
    for name, (rate, eps) in RATES.items():
        d = np.abs(np.diff(api.raw(getattr(sw, name))))
        lim = rate/86400*dt + eps
        found(~(d <= lim) & near, f'between consecutive times the {name} changes by', d, lim,
              lambda i: f'{cmp.iso(t[i[0]])} UTC, {int(dt[i[0]])} s')
    # neighbours
    def up(la, lo):
        la, lo = np.broadcast_arrays(np.radians(la), np.radians(lo))
        return np.stack([np.cos(la)*np.cos(lo), np.cos(la)*np.sin(lo), np.sin(la)])
    if case['usecase'] == 'regular_grid':
        p = up(lat[:, None], lon[None, :])
    else:
        p = up(lat, lon)
    if case['usecase'] != 'transect':
        for axis in range(1, zen.ndim):
            a = [slice(None)]*zen.ndim
            b = list(a)
            a[axis], b[axis] = slice(1, None), slice(None, -1)
            dist = ref.separation(p[(slice(None), *a[1:])], p[(slice(None), *b[1:])])
            d, lim = np.abs(zen[tuple(a)] - zen[tuple(b)]), dist*(1 + 5e-5) + NOISE
            lim = np.broadcast_to(lim, d.shape)
            found(~(d <= lim), 'between neighbours the zenith changes by', d, lim,
                  lambda i: f'{cmp.iso(t[i[0]])} UTC, place {[int(x) for x in i[1:]]}, along {zen.shape[axis]} places')
    ctx.nontrivial(int(near.sum()))


CHECKS = {'time': time, 'place': place, 'motion': motion}
BOUNDARIES = ([gen.unix(y, 1, 1) for y in range(1701, 2250)] + [gen.unix(y, 3, 1) for y in range(1701, 2250, 3)]
              + [gen.unix(y, 2, 29) for y in range(1704, 2250, 4)] + [gen.unix(y) for y in range(1800, 2250, 100)]*30
              + [0]*60 + [gen.unix(y, m, 1) for y in range(1969, 2051, 3) for m in range(1, 13)]
              + [gen.unix(2000, 1, 1, 12)]*30 + gen.HOT*10)


def run(ctx):
    def times(n):
        def g(rng, k):
            a, e = api.CONFIGS[k % len(api.CONFIGS)]
            dt = [int(x) for x in rng.choice([1, 2, 59, 60, 61, 599, 600, 300], n)]
            r = rng.random(n)
            dt = [int(rng.integers(1, 601)) if x < .4 else d for x, d in zip(r, dt)]
            t = gen.instants(rng, n)
            for i in range(n):
                x = rng.random()
                if x < .4:
                    t[i] = int(rng.choice(BOUNDARIES)) - int(rng.integers(1, dt[i] + 1))
                elif x < .6:
                    t[i] = t[i]//86400*86400 - int(rng.integers(1, dt[i] + 1))
                elif x < .7:
                    t[i] = t[i]//3600*3600 - int(rng.integers(1, dt[i] + 1))
            lat, lon = gen.latitudes(rng, n), gen.longitudes(rng, n)
            la, lo = gen.targeted(rng, t)
            pick = rng.random(n) < .4
            return dict(alg=a, eng=e, t=t, dt=dt, lat=[b if p else a for a, b, p in zip(lat, la, pick)],
                        lon=[b if p else a for a, b, p in zip(lon, lo, pick)])
        return g

    def places(n):
        def g(rng, k):
            a, e = api.CONFIGS[k % len(api.CONFIGS)]
            t = gen.instants(rng, n)
            lat, lon = gen.latitudes(rng, n), gen.longitudes(rng, n)
            la, lo = gen.targeted(rng, t)
            pick = rng.random(n) < .4
            lat = [b if p else a for a, b, p in zip(lat, la, pick)]
            lon = [b if p else a for a, b, p in zip(lon, lo, pick)]
            step = 10.**rng.uniform(-6, 1.3, n)
            lat2 = [float(np.clip(x + s, -90, 90)) for x, s in zip(lat, step*rng.choice([-1, 0, 1], n))]
            lon2 = [(x + s + 180) % 360 - 180 for x, s in zip(lon, step*rng.choice([-1, 0, 1], n))]
            far = rng.random(n) < .15
            lon2 = [float(rng.uniform(-180, 180)) if f else min(float(x), 179.9999999999) for f, x in zip(far, lon2)]
            return dict(alg=a, eng=e, t=t, lat=lat, lon=lon, lat2=lat2, lon2=lon2)
        return g
    ctx.bulk('time', times(300), ctx.n(7*45), lambda c: [('t', 'dt', 'lat', 'lon')])
    ctx.bulk('place', places(300), ctx.n(7*20), lambda c: [('t', 'lat', 'lon', 'lat2', 'lon2')])

    def series(cells, k0=0):
        def g(rng, k):
            a, e = api.CONFIGS[k % len(api.CONFIGS)]
            uc = api.USECASES[(k//len(api.CONFIGS) + k0) % 3]
            m = int(rng.choice([1, 2, 5, 20])) if uc != 'transect' else 1
            ny = int(rng.integers(1, m + 1)) if uc == 'regular_grid' else 1
            n = max(2, int(cells*10**rng.uniform(-1, 0))//m)
            if cells > 1000 and uc != 'transect' and rng.random() < .4:       # many places
                n, m = 2, int(cells//2)
                ny = int(rng.integers(2, 60))
            nx = max(1, m//ny)
            step = int(rng.choice([1, 60, 300, 600, rng.integers(1, 601)]))
            dt = np.full(n, step) if rng.random() < .5 else rng.integers(1, 601, n)
            t = np.cumsum(dt)
            t = t - t[int(rng.integers(0, n))] - int(rng.integers(0, 2)) + int(
                rng.choice(BOUNDARIES) if rng.random() < .6 else rng.integers(gen.LO + 10**8, gen.HI - 10**8))
            if rng.random() < .2:       # backwards
                t = t[::-1]
                t = -t + t[0] + t[-1]
            if rng.random() < .5:
                lat, lon = gen.latitudes(rng, ny if uc == 'regular_grid' else nx), gen.longitudes(rng, nx)
            else:       # regular
                lat = [float(x) for x in np.linspace(*np.sort(rng.uniform(-90, 90, 2)), ny if uc == 'regular_grid' else nx)]
                lon = [float(x) for x in np.linspace(*np.sort(rng.uniform(-180, 180, 2)), nx)]
            if uc == 'transect':
                lat, lon = lat[:1]*n, lon[:1]*n
            return dict(usecase=uc, alg=a, eng=e, refr=False, t=[int(x) for x in t], lat=lat, lon=lon)
        return g
    ctx.bulk('motion', series(300), ctx.n(7*24), api.axes, 'series')
    ctx.bulk('motion', series(15000), ctx.n(7*6), api.axes, 'large')
