"""Comparisons shared by the oracles."""
import numpy as np

from . import api, ref
from .core import Violation


def iso(u):
    return 'NaT' if u is None else str(np.datetime64(int(u), 's'))


def where(case, i):
    """text of the i-th cell of a case"""
    it, ia, io = (int(x[i]) for x in api.cells(case))
    return (f'{case["alg"]}/{case["eng"]}, {case["usecase"]}, refraction={case["refr"]}, '
            f'{iso(case["t"][it])} UTC, lat {case["lat"][ia]!r}, lon {case["lon"][io]!r}')


def config_text(case):
    return f'{case["alg"]}/{case["eng"]}, {case["usecase"]}, refraction={case["refr"]}'


def shapes(case, sw):
    """the arrays of the result have one value per cell (or per time)"""
    n = len(api.cells(case)[0])
    for v in ('zenith', 'azimuth'):
        a = api.raw(getattr(sw, v))
        if a.size != n:
            raise Violation(f'{v} has {a.size} values for {n} cells ({config_text(case)})')
    for v in ('declination', 'eot', 'ecf'):
        a = api.raw(getattr(sw, v))
        if a.size != len(case['t']):
            raise Violation(f'{v} has {a.size} values for {len(case["t"])} times '
                            f'({config_text(case)})')


def check_abs(case, what, got, want, tol, per='cell', skip=None, ctx=None, stat=None, missing=False):
    """|got - want| <= tol; NaN is a violation unless `missing` and NaN in both"""
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        raise Violation(f'{what}: shape {got.shape}, expected {want.shape} ({config_text(case)})')
    err = np.abs(got - want)
    err = np.where((got == want) | (missing & np.isnan(got) & np.isnan(want)), 0., err)
    err = np.where(np.isnan(err), np.inf, err)
    if skip is not None:
        err = np.where(skip, 0., err)
    if ctx is not None and err.size:
        ctx.stat(stat or what, err.max())
    bad = err > tol
    if bad.any():
        # the worst one
        i = int(np.argmax(np.where(bad, err/np.broadcast_to(tol, err.shape), -1)))
        place = where(case, i) if per == 'cell' else (
            f'{config_text(case)}, {iso(case["t"][i])} UTC' if per == 'time' else per)
        raise Violation(f'{what} is {got.flat[i]!r}, expected {want.flat[i]!r} within '
                        f'{np.broadcast_to(tol, err.shape).flat[i]:.3g} ({place})')


def angle(d):
    """difference of angles in degrees, wrapped"""
    return (np.asarray(d) + 180.) % 360. - 180.


def check_direction(case, zen, az, rzen, raz, tol, geom=None, skip_zen=None, ctx=None, stat='direction',
                    missing=False):
    """zenith within tol and azimuth within tol of great circle; degrees"""
    geom = rzen if geom is None else geom
    check_abs(case, 'zenith', zen, rzen, tol, skip=skip_zen, ctx=ctx, stat=stat + ' (zenith)',
              missing=missing)
    d = angle(az - raz)
    off = d*np.sin(np.radians(geom))
    bad = ~(np.abs(off) <= tol)
    if missing:
        bad &= ~(np.isnan(az) & np.isnan(raz))
    if ctx is not None and off.size:
        ctx.stat(stat + ' (azimuth * sin zenith)', np.nanmax(np.abs(off)) if np.isfinite(off).any() else 0)
    if bad.any():
        i = int(np.argmax(np.where(bad, np.where(np.isnan(off), np.inf, np.abs(off)), -1)))
        raise Violation(f'azimuth is {az[i]!r}, expected {raz[i]!r} within {tol:.3g} degrees of great '
                        f'circle at zenith {geom[i]:.4f} ({where(case, i)})')


def refr_tie(elev, width=1e-4):
    """cells whose geometric elevation (degrees) is at the cut-off of refraction to
    within rounding: both refracted and not refracted is right"""
    return np.abs(elev - ref.REFR_CUTOFF/ref.DEG) < width
