"""C15: converters between UTC and true solar time."""
import numpy as np
import pandas as pd

from sunwhere.utils import datetime as conv
from pbt import api, derived, gen, ref
from pbt.checks import c27
from pbt.core import Violation

ID = 'C15'
RULE = ('a case is a vector of times and one of longitudes given to both converters; oracle: integer '
        'arithmetic on the reference psa equation of time, and inversion; non-trivial: at least one time '
        'and one longitude')
ASSUMPTIONS = ['the equation of time of the converters is that of psa (the default algorithm)',
               'times are naive']


def eot(ns):
    return ref.psa(np.floor_divide(ns, 10**9))['eot']


def call(fn, case):
    t = np.array(case['t'], dtype=np.int64).astype('datetime64[s]')
    lon = np.array(case['lon'])
    if case['form'] == 'ns':
        t = t.astype('datetime64[ns]')
    elif case['form'] == 'list':
        t, lon = list(t), [float(x) for x in lon]
    elif case['form'] == 'scalar':
        t, lon = t[0], float(lon[0])
    elif case['form'] == 'str':
        t = [str(x) for x in t]
    elif case['form'] == 'datetime':
        t = [x.item() for x in t]
    out = fn(t, lon)
    if not isinstance(out, np.ndarray) or out.dtype.kind != 'M':
        raise Violation(f'{fn.__name__} returns {type(out)} {getattr(out, "dtype", "")}')
    n, m = (1, 1) if case['form'] == 'scalar' else (len(case['t']), len(case['lon']))
    shape = tuple(x for x in (n, m) if x != 1)
    if out.shape != shape:
        raise Violation(f'{fn.__name__} of {n} times and {m} longitudes has shape {out.shape}, expected {shape}')
    return derived.ns(out).reshape(n, m), np.array(case['t'], dtype=np.int64)[:n]*10**9, np.array(case['lon'])[:m]


def text(case, i, j):
    return f'{np.datetime64(case["t"][i], "s")}, longitude {case["lon"][j]!r}, form {case["form"]}'


def convert(case, ctx):
    # UTC -> TST: exact
    tst, utc, lon = call(conv.true_solar_time, case)
    off = np.rint((eot(utc)[:, None] + 4*lon[None, :])*60e9).astype(np.int64)
    err = np.abs(tst - (utc[:, None] + off))
    if (err > 1_000_000).any():
        i, j = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation(f'true_solar_time is {np.datetime64(int(tst[i, j]), "ns")}, expected '
                        f'{np.datetime64(int(utc[i] + off[i, j]), "ns")} ({text(case, i, j)})')
    # TST -> UTC: inverts UTC + eot + 4 lon
    back, sol, lon = call(conv.universal_time_coordinated, case)
    again = back + np.rint((eot(back) + 4*lon[None, :])*60e9).astype(np.int64)
    err = np.abs(again - sol[:, None])
    ctx.stat('inversion error, s', err.max()/1e9)
    if (err > 20_000_000_000).any():
        i, j = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation(f'universal_time_coordinated is {np.datetime64(int(back[i, j]), "ns")}, whose true solar '
                        f'time is {np.datetime64(int(again[i, j]), "ns")} ({text(case, i, j)})')
    step = np.rint(-(lon - lon[0])*240e9).astype(np.int64)
    err = np.abs(back - back[:, :1] - step[None, :])
    if (err > 1_000_000).any():
        i, j = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Violation(f'at equal true solar time, UTC differs by {(back[i, j] - back[i, 0])/1e9} s between '
                        f'longitudes {lon[0]} and {lon[j]} ({text(case, i, j)})')
    # composition, one by one
    for i in range(min(2, len(utc))):
        for j in range(min(2, len(lon))):
            t = np.datetime64(int(tst[i, j]), 'ns')
            u = derived.ns(conv.universal_time_coordinated(t, float(lon[j]))).item()
            if abs(u - utc[i]) > 20_000_000_000:
                raise Violation(f'universal_time_coordinated of true_solar_time is '
                                f'{np.datetime64(u, "ns")} ({text(case, i, j)})')
            t = np.datetime64(int(back[i, j]), 'ns')
            u = derived.ns(conv.true_solar_time(t, float(lon[j]))).item()
            if abs(u - sol[i]) > 20_000_000_000:
                raise Violation(f'true_solar_time of universal_time_coordinated is '
                                f'{np.datetime64(u, "ns")} ({text(case, i, j)})')
    ctx.nontrivial(tst.size)


TIMES = {'s': lambda t: t, 'ns': lambda t: t.astype('datetime64[ns]'), 'ms': lambda t: t.astype('datetime64[ms]'),
         'list': list, 'str': lambda t: [str(x) for x in t], 'datetime': lambda t: [x.item() for x in t],
         'index': pd.DatetimeIndex, 'series': lambda t: pd.Series(t.astype('datetime64[ns]'), index=range(7, 7 + len(t))),
         'timestamps': lambda t: [pd.Timestamp(x) for x in t], 'strided': lambda t: np.repeat(t, 2)[::2],
         'reversed': lambda t: t[::-1].copy()[::-1]}


def forms(case, ctx):
    """what holds times and longitudes, missing values"""
    form = case['form_lon']
    lon = c27.exactly(form, case['lon'])
    held = c27.ALL[form](lon[0] if form in c27.ONE or form in c27.ONEINT else lon)
    lon = np.array(lon[:1] if form in c27.ONE or form in c27.ONEINT else lon)
    t = np.array(case['t'], dtype=np.int64).astype('datetime64[s]')
    if case['nat'] and case['form_t'] not in ('timestamps', 'datetime'):    # (numpy does not read pandas' NaT in lists)
        t[case['nat'] % len(t)] = 'NaT'
    if case['nan'] and form in c27.DOUBLE:
        k = case['nan'] % len(lon)
        lon[k] = np.nan
        held = c27.ALL[form](list(lon)) if form not in ('decimal', 'fraction') else list(lon)
    ns = t.astype('datetime64[ns]').astype(np.int64)
    e = np.full(len(t), np.nan)
    ok = ~np.isnat(t)
    for name, fn, sign in (('true_solar_time', conv.true_solar_time, 1),
                           ('universal_time_coordinated', conv.universal_time_coordinated, -1)):
        times, what = TIMES[case['form_t']](t), case['form_t']
        keep = np.array(held, dtype=float)
        keep_t = [str(x) for x in times]
        out = fn(times, held)
        text = f'({name}, times as {what}, longitudes as {form}: {lon[:4]})'
        if [str(x) for x in times] != keep_t or not np.array_equal(np.array(held, dtype=float), keep, equal_nan=True):
            raise Violation(f'the arguments are modified {text}')
        shape = tuple(n for n in (len(t), len(lon)) if n != 1)
        if not isinstance(out, np.ndarray) or out.dtype.kind != 'M' or out.shape != shape:
            raise Violation(f'the result is {out!r}, expected times of shape {shape} {text}')
        out = derived.ns(out).reshape(len(t), len(lon))
        want = np.full(out.shape, np.iinfo(np.int64).min)
        e[ok] = eot(ns[ok])
        off = sign*60e9*(e[:, None] + 4*lon[None, :])
        good = np.isfinite(off)
        want[good] = (np.broadcast_to(ns[:, None], off.shape)[good] + np.rint(off[good])).astype(np.int64)
        bad = (out == np.iinfo(np.int64).min) != ~good
        # (UTC may be of the equation of time of either clock)
        bad |= good & (np.abs(out - want) > (1_000_000 if sign == 1 else 20_000_000_000))
        if sign == -1:      # at equal true solar time
            for i in range(len(t)):
                j = np.flatnonzero(good[i])
                if len(j) > 1:
                    bad[i, j] |= np.abs((out[i, j] - out[i, j[0]]) + (lon[j] - lon[j[0]])*240e9) > 1_000_000
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation(f'at {t[i]}, longitude {lon[j]!r} the result is {np.datetime64(int(out[i, j]), "ns")}, expected '
                            f'{np.datetime64(int(want[i, j]), "ns")} {text}')
    ctx.nontrivial(len(t)*len(lon))


CHECKS = {'convert': convert, 'forms': forms}


def run(ctx):
    def one(size, long=None):
        def g(rng, k):
            n, m = rng.integers(1, size, 2)
            if long:        # many times or many longitudes
                n, m = (int(rng.integers(size, long)), int(rng.integers(1, 4)))[::1 - 2*(k % 2)]
            t = gen.instants(rng, n) if rng.random() < .6 else gen.time_grid(rng, n)
            return dict(t=t, lon=gen.longitudes(rng, m),
                        form=['s', 'ns', 'list', 'scalar', 's', 'datetime'][int(rng.integers(0, 6))])
        return g
    ctx.bulk('convert', one(8), ctx.n(700), lambda c: [('t',), ('lon',)])
    ctx.bulk('convert', one(80), ctx.n(60), lambda c: [('t',), ('lon',)], 'large')
    ctx.bulk('convert', one(300, 9000), ctx.n(24), lambda c: [('t',), ('lon',)], 'long')

    def g(rng, k):
        f = list(c27.ALL)[k % len(c27.ALL)]
        n, m = (int(x) for x in rng.integers(1, 7, 2))
        lon = gen.longitudes(rng, m)
        if f in c27.HALF or f in c27.SINGLE or f == 'numpy float32':
            lon = [min(max(v, -179.), 179.) for v in lon]
        if f == 'int8/int16' and rng.random() < .7:
            lon = [float(int(v)) for v in rng.uniform(-127, 127, m)]
        return dict(t=[int(x) for x in rng.integers(gen.unix(1700), gen.unix(2250), n)], lon=lon, form_lon=f,
                    form_t=list(TIMES)[int(rng.integers(len(TIMES)))],
                    nat=int(rng.integers(1, 9)) if rng.random() < .3 else 0,
                    nan=int(rng.integers(1, 9)) if rng.random() < .3 else 0)
    ctx.bulk('forms', g, ctx.n(4*len(c27.ALL)))
