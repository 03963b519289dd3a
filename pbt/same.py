"""Do two flattened views say the same, up to rounding?

Rounding is measured where it arises: angles near the zenith amplify the last digits of a
cosine, sunrise angles do near the edge of the polar day, and so do air masses.
"""
import numpy as np

from . import derived
from .core import Violation

TINY = 5e-7      # degrees


def differ(name, a, b, zen, edge, tol=TINY):
    """mask of the cells where views a and b differ

    zen: zenith of the cells, degrees; edge: distance of the sunrise cosine to +-1
    tol: accepted angle, degrees
    """
    from .views import is_time
    a, b = np.asarray(a), np.asarray(b)
    near = np.minimum(zen, 180. - zen)                 # degrees from the vertical
    amp = 1 + 3/np.maximum(near, 1e-7)                 # 1e-16 in the cosine -> angle, roughly
    base = name.split('(')[0]
    if is_time(name):
        nat = derived.NAT
        d = np.abs(np.where(a > b, a - b, b - a).astype(np.float64))
        lim = 2e6*tol/TINY                             # 2 ms for 5e-7 degrees
        if base in ('sunrise', 'sunset'):
            lim = lim + 2e6*tol/TINY/np.sqrt(np.maximum(edge, 1e-12))
            onedge = edge < 1e-8*tol/TINY
            # true solar days begin at midnight: either day is right at the very midnight
            d = np.minimum(d, np.abs(d - derived.DAY))
        else:
            onedge = False
        miss = (a == nat) != (b == nat)
        return np.where((a == nat) & (b == nat), False, np.where(miss, ~np.asarray(onedge) & miss, d > lim))
    an, bn = np.isnan(a), np.isnan(b)
    d = np.abs(a - b)
    scale = tol
    onedge = np.zeros(a.shape, bool)
    if base in ('zenith', 'sza', 'elevation'):
        lim = np.minimum(scale + 1e-13*amp, scale + 5e-6)
    elif base in ('azimuth', 'saa'):
        d = np.abs((a - b + 180) % 360 - 180)*np.sin(np.radians(near))
        lim = scale
    elif base in ('declination', 'dec', 'eot', 'cosz', 'ecf'):
        lim = scale
    elif base == 'airmass':
        lim = 1e-3*tol/TINY*1e-2*(1 + np.where(np.isfinite(a), a, 1)**2)
        onedge = np.abs(zen - 90) < 10*tol
    elif base == 'eth':
        lim = 1e-3*tol/TINY*.1
        onedge = np.abs(zen - 90) < 10*tol
    elif base == 'incidence':
        lim = 2*scale
    elif base in ('sunrise', 'sunset', 'daylight_length'):
        lim = scale*(1 + 1/np.sqrt(np.maximum(edge, 1e-12)))
        onedge = edge < 1e-8*tol/TINY
    else:
        lim = scale
    return np.where(an & bn, False, np.where(an != bn, ~onedge, ~(d <= lim)))


def check(name, a, b, zen, edge, text, tol=TINY):
    """text: function of the index of the cell"""
    if a.shape != b.shape:
        raise Violation(f'{name}: shapes {a.shape} and {b.shape} ({text(0)})')
    bad = differ(name, a, b, zen, edge, tol)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(f'{name}: {a[i]!r} and {b[i]!r} ({text(i)})')
