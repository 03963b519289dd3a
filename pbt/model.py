"""The whole result predicted by the reference models and formulas."""
import datetime as dt
import zoneinfo

import numpy as np

from . import api, cmp, derived, ref, same, views
from .core import Violation

EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
MEMO = {}


def predict(case):
    """base quantities of every cell: dict of flat arrays (geom: zenith without refraction)"""
    it, ia, io = api.cells(case)
    u = np.array(case['t'], dtype=np.float64)[it]
    lat, lon = api.floats(case['lat'])[ia], api.floats(case['lon'])[io]
    key = (case['alg'], case['refr'], u.tobytes(), lat.tobytes(), lon.tobytes())
    if key in MEMO:
        return MEMO[key]
    if case['alg'] == 'nrel':
        r = dict(ref.spa(u, lat, lon))
        r['geom'] = r['zenith']
        if case['refr']:
            r['zenith'] = r['zenith_refr']
    else:
        r = ref.model(case['alg'], u, lat, lon)
        r['geom'] = geom = r['zenith']
        if case['refr']:
            z = np.where(90. - geom >= ref.REFR_CUTOFF/ref.DEG,
                         geom - ref.refraction(case['alg'], 90. - geom), geom)
            r['zenith'] = np.clip(z, 0., None) if case['alg'] == 'iqbal' else np.abs(z)
    r.update(u=u.astype(np.int64), lat=lat, lon=lon)
    if len(MEMO) > 400:
        MEMO.clear()
    MEMO[key] = r
    return r


def check_base(case, sw):
    """zenith, azimuth, declination, eot and ecf of the result are those of the model"""
    r = predict(case)
    cmp.shapes(case, sw)
    zen, az = api.flat(case, sw)
    tie = cmp.refr_tie(90. - r['geom']) if case['refr'] else None
    cmp.check_direction(case, zen, az, r['zenith'], r['azimuth'], 1e-4 if case['refr'] else 1e-5,
                        geom=r['geom'], skip_zen=tie)
    it = api.cells(case)[0]
    for name, tol in (('declination', 1e-5), ('eot', 1e-4), ('ecf', 1e-7)):
        cmp.check_abs(case, name, api.raw(getattr(sw, name))[it], r[name], tol)


def base(case, sw):
    """base quantities as the result reports them"""
    it, ia, io = api.cells(case)
    return dict(zenith=np.array(api.raw(sw.zenith)).ravel(), azimuth=np.array(api.raw(sw.azimuth)).ravel(),
                declination=np.array(api.raw(sw.declination))[it], eot=np.array(api.raw(sw.eot))[it],
                ecf=np.array(api.raw(sw.ecf))[it], u=np.array(case['t'], dtype=np.int64)[it],
                lat=api.floats(case['lat'])[ia], lon=api.floats(case['lon'])[io])


def wall(ns, tz):
    if tz is None:
        return ns
    z = zoneinfo.ZoneInfo(tz)
    return np.array([x if x == derived.NAT else x + int((EPOCH + dt.timedelta(
        seconds=int(x//10**9))).astimezone(z).utcoffset().total_seconds())*10**9 for x in ns.tolist()],
        dtype=np.int64)


def view(b, name, tz=None):
    """what a view is, from the base quantities; None if not modelled"""
    head = name.split('(')[0]
    arg = name[len(head) + 1:-1]
    zen, dec = b['zenith'], b['declination']
    if head in ('zenith', 'sza'):
        return zen
    if head == 'elevation':
        return 90. - zen
    if head in ('azimuth', 'saa'):
        return b['azimuth']
    if head in ('declination', 'dec'):
        return dec
    if head in ('eot', 'ecf'):
        return b[head]
    if head == 'cosz':
        return np.cos(np.radians(zen))
    tst = derived.tst_ns(b['u'], b['eot'], b['lon'])
    if head == 'true_solar_time':
        return tst
    w, _ = derived.sunrise_deg(dec, b['lat'])
    if head == 'daylight_length':
        return 2*w/15
    if head in ('sunrise', 'sunset'):
        s = -1 if head == 'sunrise' else 1
        if arg == 'deg':
            return -s*w
        if arg == 'rad':
            return -s*np.radians(w)
        x = (tst//derived.DAY*derived.DAY + 12*derived.NS_H
             + s*np.rint(np.nan_to_num(w)/15*derived.NS_H).astype(np.int64))
        if arg != 'tst':
            x = x - np.rint((b['eot'] + 4*b['lon'])*60e9).astype(np.int64)
        x = np.where(np.isnan(w), derived.NAT, x)
        return wall(x, tz) if arg == 'local' else x
    if head == 'airmass':
        return derived.airmass(zen, arg or 'gueymard_2003')
    if head == 'eth':
        isc, corr = (1000., 'none') if arg == '1000' else (1361.1, arg or 'none')
        return derived.eth(zen, b['ecf'], isc, corr)
    if head == 'incidence':
        s, g = map(float, arg.split(','))
        return derived.incidence(dec, tst, b['lat'], s, g)


def check_view(case, sw, b, name, text=''):
    got = views.flat(case, sw, name)
    if got is None:
        raise Violation(f'{name} has the dimensions of another use case ({cmp.config_text(case)})')
    want = view(b, name, case.get('tz'))
    _, edge = derived.sunrise_deg(b['declination'], b['lat'])
    edge = np.where(np.isnan(edge), 1., edge)
    if name.startswith('eth('):                  # corrected irradiances may be missing at night
        night = b['zenith'] >= 90 - 1e-6
        got = np.where(night & (np.isnan(got) | (got == 0)), want, got)
    same.check(name, got, want, b['zenith'], edge, lambda i: f'reported and expected{text}: ' + cmp.where(case, i))
