"""C29: the execution times of the benchmark, under a simulated clock."""
import contextlib
import gc
import inspect
import io
import math
import os
import pickle
import shutil
import sys
import tempfile
import time
import timeit

from pbt.checks import c25                                  # (first: stand-ins of third parties)
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import sunwhere
from sunwhere._cli import benchmark as bm
from pbt.core import Violation

ID = 'C29'
RULE = ('a case is one measurement (library, method, number of times and locations, repetitions) or a history of tables of '
        'measurements in a scratch folder; the clock is simulated: only calls of the libraries make it advance; oracle: '
        'the time that those calls were made to take, and their arguments; non-trivial: at least one call is timed')
ASSUMPTIONS = ['the clock is that of timeit (time.perf_counter), in seconds; parquet files, which need pyarrow, are '
               'replaced by pickles of the same table']
REAL = {'sites': sunwhere.sites, 'grid': sunwhere.regular_grid}
METHODS = {'sunwhere': ['nrel_numexpr', 'soltrack_numexpr', 'soltrack_numpy', 'psa_numexpr', 'psa_numpy',
                        'iqbal_numexpr', 'iqbal_numpy'],
           'pvlib': ['nrel_numba', 'nrel_numpy'], 'sg2': ['sg2_c++']}
STEPS = [1, 10, 100, 1000, 10000, 50000, 100000, 500000]
PLACES = [1, 10, 100, '10x10', '50x50', '100x100']


def shape(n_locs):
    if isinstance(n_locs, str):
        return tuple(int(x) for x in n_locs.split('x'))
    return (n_locs,)


class Lab:
    """clock that only the libraries make advance; the calls they receive"""

    def __init__(self, seed, real):
        self.now, self.real = 0., real
        self.rng = np.random.default_rng(seed)
        self.calls = []                         # [name, method, places, seconds]
        self.rate = 10**self.rng.uniform(-8, -5)
        self.jitter = self.rng.uniform(.8, 1.2, 997)
        self.k, self.seen = 0, None
        self.countdown = 0                      # files to write until one is interrupted

    def spend(self, name, method, times, lats, lons, cells):
        lats, lons = np.atleast_1d(lats).astype(float), np.atleast_1d(lons).astype(float)
        if lats.size and not (np.all(np.abs(lats) <= 90) and np.all((lons >= -180) & (lons < 180))):
            raise Violation(f'{name} is timed at impossible coordinates')
        self.advance(name, method, times, lats.size, lons.size, cells)

    def advance(self, name, method, times, n_lats, n_lons, cells):
        if times is not self.seen:
            t = pd.DatetimeIndex(times)
            if len(t) > 1 and not (np.unique(np.diff(t.asi8)).size == 1 and t[1] > t[0]):
                raise Violation(f'{name} is timed at times that are not consecutive')
            self.seen = times
        self.k += 1
        dt = self.rate*len(times)*cells*self.jitter[self.k % 997] + 1e-6
        self.now += dt
        self.calls.append((name, method, len(times), n_lats, n_lons, dt))

    # the libraries
    def sites(self, *args, **kw):
        return self.usecase('sites', REAL['sites'], args, kw)

    def grid(self, *args, **kw):
        return self.usecase('grid', REAL['grid'], args, kw)

    def usecase(self, name, real, args, kw):
        b = inspect.signature(real).bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        n = np.size(a['latitude'])*(np.size(a['longitude']) if name == 'grid' else 1)
        self.spend(name, f"{a['algorithm']}_{a['engine']}", a['times'], a['latitude'], a['longitude'], n)
        if a['refraction']:
            raise Violation('refraction is timed in')
        return real(*args, **kw) if self.real else None

    def pvlib(self, when, la, lo, method):
        if np.ndim(la) or np.ndim(lo):
            la, lo = np.asarray(la), np.asarray(lo)
            if la.size != 1 or lo.size != 1:
                raise Violation('pvlib is called with several places at once')
            la, lo = la.item(), lo.item()
        if not (abs(la) <= 90 and -180 <= lo <= 180):
            raise Violation('pvlib is timed at impossible coordinates')
        self.advance('pvlib', method, when, 1, 1, 1)

    def sg2(self, geopoints, times, outputs):
        if geopoints.ndim != 2 or geopoints.shape[1] != 3 or np.any(geopoints[:, 2] != 0):
            raise Violation('the places given to sg2 are not rows of longitude, latitude and height 0')
        self.spend('sg2', 'sg2_c++', times, geopoints[:, 1], geopoints[:, 0], len(geopoints))
        self.points = geopoints

    @contextlib.contextmanager
    def open(self):
        clock = lambda: self.now                                    # noqa: E731
        fine = lambda: int(round(self.now*1e9))                     # noqa: E731
        new = [(getattr(time, k), f) for k, f in (('perf_counter', clock), ('monotonic', clock), ('process_time', clock),
                                                  ('perf_counter_ns', fine), ('monotonic_ns', fine), ('process_time_ns', fine))]
        new += [(REAL['sites'], self.sites), (REAL['grid'], self.grid)]
        timers = [timeit.Timer.__init__, timeit.timeit, timeit.repeat]
        old = [(f, f.__defaults__) for f in timers]
        # wherever they are imported
        places = [m for n, m in list(sys.modules.items()) if n in ('time', 'timeit') or n.split('.')[0] == 'sunwhere']
        swaps = [(m, k, v, f) for m in places for k, v in list(vars(m).items()) for x, f in new if v is x]
        files = pd.DataFrame.to_parquet, pd.read_parquet
        gc.freeze()                             # (collections, one per measurement, are slow otherwise)
        try:
            for f in timers:
                f.__defaults__ = tuple(clock if x is time.perf_counter else x for x in f.__defaults__)
            for m, k, _, f in swaps:
                setattr(m, k, f)
            def save(df, path, *a, **k):
                """pickles instead of parquet files; at the countdown, only half of one is written"""
                self.countdown -= 1
                data = pickle.dumps(df)
                data = data if self.countdown != 0 else data[:len(data)//2]
                if hasattr(path, 'write'):
                    path.write(data)
                else:
                    with open(path, 'wb') as f:
                        f.write(data)
                if self.countdown == 0:
                    raise KeyboardInterrupt
            pd.DataFrame.to_parquet = save
            pd.read_parquet = lambda path, *a, **k: pd.read_pickle(path)
            with c25.standing(get_solarposition=c25.like_pvlib(self.pvlib), sun_position=self.sg2):
                yield self
        finally:
            gc.unfreeze()
            for m, k, v, _ in swaps:
                setattr(m, k, v)
            for f, d in old:
                f.__defaults__ = d
            pd.DataFrame.to_parquet, pd.read_parquet = files

    def expected(self, library, method, n_times, n_locs, repeats, number):
        """mean and deviation (us per step) of the calls since the last time; checks what was called"""
        calls, self.calls = self.calls, []
        shp = shape(n_locs)
        total = math.prod(shp)
        per_run = total if library == 'pvlib' else 1
        if library == 'sunwhere':
            want = ('grid' if len(shp) == 2 else 'sites', method, n_times, shp[0], shp[-1])
        elif library == 'pvlib':
            want = ('pvlib', method, n_times, 1, 1)
        else:
            want = ('sg2', method, n_times, total, total)
        what = f'{library}.{method} at {n_times} times and {n_locs} places'
        for c in calls:
            if c[:5] != want:
                raise Violation(f'{c[0]} with {c[1]} at {c[2]} times, {c[3]} latitudes and {c[4]} longitudes is timed for {what}')
        if len(calls) != repeats*number*per_run:
            raise Violation(f'{len(calls)} calls are timed for {what}, {number} times, {repeats} repetitions')
        lapses = np.array([c[5] for c in calls]).reshape(repeats, -1).sum(axis=1)/(number*n_times*total)*1e6
        return lapses.mean(), lapses.std()


def close(a, b, scale=None):
    return abs(a - b) <= 1e-6*(scale or abs(b)) + 1e-12


def measure(case, ctx):
    with Lab(case['seed'], case['real']).open() as lab:
        n_locs = case['n_locs']
        out = io.StringIO()
        kw = {k: case[k] for k in ('n_repeats', 'number') if case[k] is not None}
        with contextlib.redirect_stdout(out):
            got = bm.speed_meter(case['library'], case['method'], case['n_times'], n_locs, quiet=case['quiet'], **kw)
        mean, std = lab.expected(case['library'], case['method'], case['n_times'], n_locs, case['n_repeats'] or 3,
                                 case['number'] or 1)
        what = f"{case['library']}.{case['method']} at {case['n_times']} times and {n_locs} places"
        if case['library'] == 'sg2' and isinstance(n_locs, str):
            a, b = shape(n_locs)
            if (len(np.unique(lab.points[:, 1])), len(np.unique(lab.points[:, 0]))) != (a, b) or \
                    len(np.unique(lab.points, axis=0)) != a*b:
                raise Violation(f'the places given to sg2 for {n_locs} are not such a grid')
    if not (close(got[0], mean) and close(got[1], std, mean)):
        raise Violation(f'{what}: reported {got[0]!r} and {got[1]!r} us, while the calls took {mean!r} and {std!r}')
    text = out.getvalue()
    if case['quiet'] and text:
        raise Violation(f'{what} prints {text!r}')
    if not case['quiet']:
        want = f"{case['library']}.{case['method']}({case['n_times']}, {n_locs}): {got[0]:.3f} ± {got[1]:.3f} us"
        if not text.startswith(want):
            raise Violation(f'{what} prints {text!r}, expected {want!r}...')
    ctx.nontrivial()


def skipped(n_times, n_locs):
    return n_times > 1000 and n_locs in ('50x50', '100x100')


def check_table(df, old, todo, lab, folder):
    """the table; measurements of `todo` are new, others are in `old`"""
    calls, lab.calls = lab.calls, []
    keys = [f'{lib}.{m}' for lib, ms in METHODS.items() for m in ms]
    if list(df.index) != STEPS or sorted(map(str, df.columns)) != sorted(str((k, p)) for k in keys for p in PLACES):
        raise Violation(f'the table has rows {list(df.index)} and columns {list(df.columns)[:8]}...')
    new = {}
    it = iter(calls)
    for lib, ms in METHODS.items():
        for m in ms:
            for n in STEPS:
                for p in PLACES:
                    got = df.loc[n, (f'{lib}.{m}', p)]
                    what = f'{lib}.{m} at {n} times and {p} places'
                    if skipped(n, p):
                        if not pd.isnull(got):
                            raise Violation(f'{what}: {got!r} in the table, but it is not measured')
                        continue
                    if f'{lib}.{m}' in todo:
                        k = 3*(math.prod(shape(p)) if lib == 'pvlib' else 1)
                        lab.calls = [c for _, c in zip(range(k), it)]
                        new[lib, m, n, p] = lab.expected(lib, m, n, p, 3, 1)[0]
                    want = new.get((lib, m, n, p), old.get((lib, m, n, p)))
                    if pd.isnull(got) or not close(got, want):
                        raise Violation(f'{what}: {got!r} us in the table, but it took {want!r}')
    if next(it, None) is not None:
        raise Violation('more is measured than tabulated')
    return {**old, **new}


def measured(lab, keys):
    """the measurements of the methods `keys`, the first that were made"""
    calls, lab.calls = lab.calls, []
    it, out = iter(calls), {}
    for lib, m in keys:
        for n in STEPS:
            for p in PLACES:
                if not skipped(n, p):
                    k = 3*(math.prod(shape(p)) if lib == 'pvlib' else 1)
                    lab.calls = [c for _, c in zip(range(k), it)]
                    out[lib, m, n, p] = lab.expected(lib, m, n, p, 3, 1)[0]
    lab.calls = []
    return out


def tables(case, ctx):
    """histories of load_speed_tests: measured once, then read; what is deleted is measured again, as is the method whose
    measurements were being written when interrupted"""
    root = tempfile.mkdtemp(prefix='verif-c29-')
    try:
        folder = os.path.join(root, *case['folder'])
        keys = [f'{lib}.{m}' for lib, ms in METHODS.items() for m in ms]
        old, todo = {}, set(keys)
        with Lab(case['seed'], False).open() as lab:
            if case['cut']:
                lab.countdown = case['cut']
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        bm.load_speed_tests(folder)
                    raise Violation('the interruption while writing a file goes unnoticed')
                except KeyboardInterrupt:
                    pass
                lab.countdown = 0
                done = [(lib, m) for lib, ms in METHODS.items() for m in ms][:case['cut'] - 1]
                old = measured(lab, done)
                todo -= {f'{lib}.{m}' for lib, m in done}
            for again in [None] + case['again']:
                if again is not None:
                    todo = set()
                    for k in again:
                        for f in os.listdir(folder):
                            if f.rsplit('.', 1)[0].endswith(keys[k].replace('.', '_')):
                                os.remove(os.path.join(folder, f))
                                todo.add(keys[k])
                    if len(todo) != len(set(again)):
                        raise Violation(f'no file for each method: {os.listdir(folder)}')
                    lab.rate *= 2
                with contextlib.redirect_stderr(io.StringIO()):
                    df = bm.load_speed_tests(folder if case['text'] else bm.Path(folder))
                old = check_table(df, old, todo, lab, folder)
                ctx.nontrivial(len(STEPS)*len(PLACES))
    finally:
        shutil.rmtree(root, ignore_errors=True)


CHECKS = {'measure': measure, 'tables': tables}


@st.composite
def measures(draw):
    lib = draw(st.sampled_from(['sunwhere', 'sunwhere', 'pvlib', 'sg2']))
    real = lib == 'sunwhere' and draw(st.booleans())
    places = draw(st.integers(1, 12) | st.sampled_from([1, 1, 100])
                  | st.tuples(st.integers(1, 6), st.integers(1, 6)).map(lambda s: f'{s[0]}x{s[1]}')
                  | st.sampled_from(['10x10', '3x40', '40x3']))
    return dict(library=lib, method=draw(st.sampled_from(METHODS[lib])), n_times=draw(st.integers(1, 30) | st.sampled_from([1, 10, 1000])),
                n_locs=places, n_repeats=draw(st.none() | st.integers(1, 5)), number=draw(st.none() | st.integers(1, 4)),
                quiet=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), real=real)


def histories(rng, k):
    # (few cases: drawn independently)
    def some():
        return [int(x) for x in rng.permutation(10)[:int(rng.integers(0, 4))]]
    return dict(seed=int(rng.integers(0, 10**6)), cut=int(rng.integers(1, 11)) if k % 2 else 0,
                folder=[[], ['new'], ['new', 'er']][int(rng.integers(0, 3))], text=bool(rng.random() < .5),
                again=[some() for _ in range(int(rng.integers(1, 3)))])


def run(ctx):
    ctx.hyp('measure', measures(), ctx.n(150))
    ctx.bulk('tables', histories, ctx.n(8, 60), lambda c: [('again',)])
