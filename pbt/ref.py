"""Reference models, written from the publications, in double precision.

Every model maps instants (unix seconds, UTC) to geocentric quantities
  dec   declination, radians
  gha   Greenwich hour angle of the sun, radians
  eot   equation of time, minutes
  ecf   (mean distance / distance)**2
and `direction` turns them into the topocentric direction with plain vector
algebra and atan2 (no arccos/arcsin, no case distinctions).
The model of NREL's SPA is pvlib's (an independent implementation).
"""
import numpy as np

PI = np.pi
TWOPI = 2*PI
DEG = PI/180
J2000 = 946728000.     # 2000-01-01T12:00 UTC, unix seconds
REFR_CUTOFF = -1.4545e-2    # geometric elevation (rad) under which nothing is refracted


def wrap(x, period=TWOPI):
    """to [-period/2, period/2)"""
    return (x + period/2) % period - period/2


# ---------------------------------------------------------------------------
# PSA, Blanco et al. (2020) coefficients

def psa(u):
    u = np.asarray(u, dtype=np.float64)
    n = (u - J2000)/86400                       # days since J2000
    h = (u % 86400)/3600                        # UT, decimal hours
    om = 2.267127827 - 9.300339267e-4*n
    ml = 4.895036035 + 1.720279602e-2*n         # mean longitude
    g = 6.239468336 + 1.720200135e-2*n          # mean anomaly
    lam = (ml + 3.338320972e-2*np.sin(g) + 3.497596876e-4*np.sin(2*g)
           - 1.544353226e-4 - 8.689729360e-6*np.sin(om))
    eps = 4.090904909e-1 - 6.213605399e-9*n + 4.418094944e-5*np.cos(om)
    x, y, z = _ecliptic(lam, eps)
    ra, dec = np.arctan2(y, x), np.arctan2(z, np.hypot(x, y))
    gmst = (6.697096103 + 6.570984737e-2*n + h)*15*DEG
    eot = wrap(ml - ra)/DEG*4
    return dict(dec=dec, gha=gmst - ra, eot=eot, ecf=1/_soltrack_distance(u)**2)


def _ecliptic(lam, eps):
    return np.cos(lam), np.cos(eps)*np.sin(lam), np.sin(eps)*np.sin(lam)


# ---------------------------------------------------------------------------
# SolTrack, van der Sluys & van Kan (2022), with their equation numbers

def _soltrack_orbit(u):
    t = (np.asarray(u, dtype=np.float64) - J2000)/86400/36525
    m = 6.240060141 + 628.301955152*t - 2.682571e-6*t**2                       # 3
    c = ((3.34161088e-2 - 8.40725e-5*t - 2.443e-7*t**2)*np.sin(m)
         + (3.489437e-4 - 1.76278e-6*t)*np.sin(2*m))                           # 4
    e = 0.016708634 - 0.000042037*t - 0.0000001267*t**2                        # 8
    r = 1.0000010178*(1 - e*e)/(1 + e*np.cos(m + c))                           # 9, 10
    return t, m, c, r


def _soltrack_distance(u):
    return _soltrack_orbit(u)[3]


def soltrack(u):
    u = np.asarray(u, dtype=np.float64)
    t, m, c, r = _soltrack_orbit(u)
    l0 = 4.895063168 + 628.331966786*t + 5.291838e-6*t**2                      # 2
    om = 2.1824390725 - 33.7570464271*t + 3.622256e-5*t**2                     # 6
    dpsi = -8.338601e-5*np.sin(om)                                             # 7
    lam = l0 + c + dpsi - 9.93087e-5/r                                         # 5, 12, 13
    eps = (0.409092804222 - 2.26965525e-4*t - 2.86e-9*t**2
           + 4.4615e-5*np.cos(om))                                             # 15-17
    x, y, z = _ecliptic(lam, eps)
    ra, dec = np.arctan2(y, x), np.arctan2(z, np.hypot(x, y))                  # 18, 19
    d = (u - J2000)/86400
    # 6.300388098985*d, reduced to keep digits: whole turns per day taken out
    gmst = 4.89496121 + TWOPI*(d % 1.) + (6.300388098985 - TWOPI)*d + 6.77e-6*t**2   # 22
    eqeq = dpsi*np.cos(eps)
    eot = wrap(l0 - ra + eqeq - 0.0057183*DEG)/DEG*4
    return dict(dec=dec, gha=gmst + eqeq - ra, eot=eot, ecf=1/r**2)


# ---------------------------------------------------------------------------
# Iqbal (1983), Fourier series of the day angle, refit as documented in the code

_CUM = np.array([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334])


def civil(u):
    """year, day of year (1..366) and second of the day, proleptic Gregorian calendar"""
    u = np.asarray(u, dtype=np.float64)
    days = np.floor(u/86400).astype(np.int64)
    sod = u - days*86400.
    # days since 0000-03-01 (Neri & Schneider's integer algorithm)
    n = days + 719468
    era = n // 146097
    doe = n - era*146097
    yoe = (doe - doe//1460 + doe//36524 - doe//146096)//365
    doy_mar = doe - (365*yoe + yoe//4 - yoe//100)      # 0 = 1 March
    mp = (5*doy_mar + 2)//153
    day = doy_mar - (153*mp + 2)//5 + 1
    month = np.where(mp < 10, mp + 3, mp - 9)
    year = yoe + era*400 + (month <= 2)
    leap = ((year % 4 == 0) & (year % 100 != 0)) | (year % 400 == 0)
    doy = _CUM[month - 1] + day + (leap & (month > 2))
    return year, doy, sod


def iqbal(u):
    _, doy, sod = civil(u)
    G = TWOPI*(doy + sod/86400)/365
    c, s = (lambda k: np.cos(k*G)), (lambda k: np.sin(k*G))
    dec = (0.006918 - 0.399912*c(1) + 0.070257*s(1) - 0.006758*c(2) + 0.000907*s(2)
           - 0.002697*c(3) + 0.001480*s(3))
    eot = (0.00986571 + 0.58688718*c(1) - 7.34538133*s(1) - 3.31493999*c(2) - 9.35366541*s(2)
           - 0.08151750*c(3) - 0.30892409*s(3) - 0.13532889*c(4) - 0.17336220*s(4))
    ecf = (1.00012825 + 3.33572253e-02*c(1) + 1.99417932e-03*s(1)
           + 6.97434604e-04*c(2) + 1.14828177e-04*s(2)
           + 1.74028675e-05*c(3) + 1.13778023e-05*s(3))
    gha = (sod/3600 + eot/60 - 12)*15*DEG
    return dict(dec=dec, gha=gha, eot=eot, ecf=ecf)


PARALLAX = {'psa': 0.000042587565907513806, 'soltrack': 4.2635e-5, 'iqbal': 0.}
MODELS = {'psa': psa, 'soltrack': soltrack, 'iqbal': iqbal}


# ---------------------------------------------------------------------------
# directions

def vector(zen, az):
    """unit vector (south, west, up) of zenith and azimuth (0 south, west positive), degrees"""
    z, a = np.asarray(zen)*DEG, np.asarray(az)*DEG
    return np.stack([np.sin(z)*np.cos(a), np.sin(z)*np.sin(a), np.cos(z)])


def hour_vector(dec, ha, lat):
    """unit vector (south, west, up) of a body with declination dec, hour angle ha; radians"""
    sd, cd, sl, cl = np.sin(dec), np.cos(dec), np.sin(lat), np.cos(lat)
    return np.stack([cd*np.cos(ha)*sl - sd*cl, cd*np.sin(ha), sd*sl + cd*cl*np.cos(ha)])


def zen_az(v):
    """degrees"""
    return (np.arctan2(np.hypot(v[0], v[1]), v[2])/DEG, np.arctan2(v[1], v[0])/DEG)


def separation(v, w):
    """angle between unit vectors, degrees"""
    return 2*np.arcsin(np.minimum(1., 0.5*np.sqrt(((v - w)**2).sum(axis=0))))/DEG


def refraction(algorithm, elev):
    """refraction, degrees, at the geometric elevation (degrees); no cut-off"""
    e = np.asarray(elev, dtype=np.float64)*DEG
    if algorithm == 'iqbal':      # Rigollier et al. (2000)
        r = 0.061359*(0.1594 + 1.1230*e + 0.065656*e*e)/(1 + 28.9344*e + 277.3971*e*e)
        return np.minimum(e + r, PI/2)/DEG - elev
    # Saemundsson, true elevation -> refraction
    a = {'psa': 1.7802e-2/60, 'soltrack': 2.967e-4,
         'nrel': 1.7802e-2/60*(1013.25/1010)*(283/(273 + 12.))}[algorithm]
    off = {'psa': 8.9186e-2, 'soltrack': 8.92e-2, 'nrel': 8.9186e-2}[algorithm]
    return a/np.tan(e + 3.1376e-3/(e + off))/DEG


def model(algorithm, u, lat, lon):
    """all outputs of a fast algorithm for parallel arrays of instants and locations

    zenith without refraction and with it (zenith_refr), degrees
    """
    q = MODELS[algorithm](u)
    v = hour_vector(q['dec'], q['gha'] + np.asarray(lon)*DEG, np.asarray(lat)*DEG)
    zen, az = zen_az(v)
    if algorithm != 'iqbal':
        zen = zen + PARALLAX[algorithm]*np.sin(zen*DEG)/DEG
    return dict(zenith=zen, azimuth=az, declination=q['dec']/DEG, eot=q['eot'], ecf=q['ecf'])


def spa(u, lat, lon, refraction=True):
    """NREL's SPA by pvlib: same outputs as `model` for parallel arrays"""
    from pvlib import spa as p
    u = np.asarray(u, dtype=np.float64)
    lat, lon = np.asarray(lat, dtype=np.float64), np.asarray(lon, dtype=np.float64)
    appz, zen, _, _, phi, eot = p.solar_position_numpy(
        u, lat, lon, 0., 1013.25, 12., 67., 0.5667, 1)
    _, _, dec = p.solar_position_numpy(u, 0., 0., 0., 1013.25, 12., 67., 0.5667, 1, sst=True)
    r, = p.solar_position_numpy(u, 0., 0., 0., 1013.25, 12., 67., 0.5667, 1, esd=True)
    return dict(zenith=zen, zenith_refr=appz, azimuth=(phi % 360) - 180,
                declination=dec, eot=eot, ecf=1/np.asarray(r)**2)
