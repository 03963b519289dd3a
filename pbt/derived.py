"""Independent formulas of everything a result derives from zenith, declination, eot, ecf,
longitude and latitude; arrays with one value per cell."""
import numpy as np

NS_H = 3_600_000_000_000
DAY = 86400_000_000_000


def tst_ns(u, eot, lon, ns=0):
    """true solar time, unix nanoseconds, of unix seconds u and nanoseconds ns (eot in minutes,
    lon in degrees)

    (instants and offsets are added in integers, not to lose digits)
    """
    return np.asarray(u, dtype=np.int64)*1_000_000_000 + np.asarray(ns, dtype=np.int64) + np.rint(
        (np.asarray(eot) + 4*np.asarray(lon))*60e9).astype(np.int64)


def sunrise_deg(dec, lat):
    """hour angle of sunrise, degrees, NaN in the polar day and night; and how far the
    cosine is from the edge of the domain"""
    x = -np.tan(np.radians(dec))*np.tan(np.radians(lat))
    w = np.degrees(np.arccos(np.where(np.abs(x) <= 1, x, np.nan)))
    return w, np.abs(np.abs(x) - 1)


AIRMASS = {
    'kasten_1965': lambda z: (0.15, 0., 93.885, -1.253),
    'kasten_and_young_1989': lambda z: (0.50572, 0., 96.07995, -1.6364),
    'gueymard_2001': lambda z: (0.45665, 0.07, 96.4836, -1.697),
    'gueymard_2003': lambda z: (0.48353, 0.095846, 96.741, -1.754),
}


def airmass(z, parameterization):
    """relative optical air mass of zenith angles z (degrees); NaN below the horizon"""
    a, p, z0, q = AIRMASS[parameterization](z)
    z = np.asarray(z, dtype=np.float64)
    zz = np.where(z <= 90, z, np.nan)
    m = 1/(np.cos(np.radians(zz)) + a*zz**p*(z0 - zz)**q)
    return np.where(m < 1, 1., m)


CORRECTIONS = ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')


def eth(z, ecf, isc=1361.1, correction='none'):
    """extraterrestrial horizontal irradiance; with corrections, only with the sun up"""
    z = np.asarray(z, dtype=np.float64)
    e = np.where(z < 90, isc*ecf*np.cos(np.radians(z)), 0.)
    if correction == 'none':
        return e
    if correction == 'perez_1990':
        c = 1.031*np.exp(-1.4/(0.9 + 9.4/airmass(z, 'kasten_and_young_1989'))) + 0.1
    elif correction == 'skarveith_1998':
        c = 0.83 - 0.56*np.exp(-0.06*(90 - z))
    else:
        m = airmass(z, 'gueymard_2003')
        c = 0.229 + 0.957*np.exp(-1.74*m*(0.124 - 0.0285*np.log(m)))
    return e*c


def incidence(dec, tst, lat, slope, azimuth):
    """cosine of the angle between the sun and the normal of a surface

    azimuth of the surface: 0 south, east positive; tst in nanoseconds
    """
    h = (tst % DAY)/NS_H                      # hours
    w = np.radians(15*(h - 12))               # hour angle, positive in the afternoon
    d, f = np.radians(dec), np.radians(lat)
    # sun: south, east, up
    s = np.cos(d)*np.cos(w)*np.sin(f) - np.sin(d)*np.cos(f)
    e = -np.cos(d)*np.sin(w)
    up = np.sin(d)*np.sin(f) + np.cos(d)*np.cos(w)*np.cos(f)
    b, g = np.radians(slope), np.radians(azimuth)
    return s*np.sin(b)*np.cos(g) + e*np.sin(b)*np.sin(g) + up*np.cos(b)


def ns(arr):
    """datetime64 array to int64 nanoseconds, NaT as the smallest integer"""
    return np.asarray(arr).astype('datetime64[ns]').astype(np.int64)


NAT = np.iinfo(np.int64).min
