"""C28: results do not depend on the settings of the process, nor change them."""
import contextlib
import decimal
import gc
import io
import json
import locale
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import warnings

import numexpr
import numpy as np
import pandas as pd
import xarray as xr
from loguru import logger

from pbt import api, boot, cmp, derived, gen, same, views
from pbt.core import VERIF, Violation

ID = 'C28'
RULE = ('a case is an evaluation (some with missing values and time zones) and a dozen of its views, read with other '
        'settings of the process (numpy errors, warnings as errors, threads, options of pandas and xarray, machine time '
        'zone, locale, working directory, forked or new interpreters); oracle: the same evaluation with the '
        'settings of the harness, and the settings themselves; non-trivial: at least one cell is compared')
ASSUMPTIONS = ['settings are those listed in the check; the option of xarray that forbids broadcasting, which the views '
               'need, is not one of them']


@contextlib.contextmanager
def tz(name):
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    time.tzset()
    try:
        yield
    finally:
        os.environ.pop('TZ')
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()


@contextlib.contextmanager
def strict_warnings():
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        yield


@contextlib.contextmanager
def threads(n):
    old = numexpr.set_num_threads(n)
    try:
        yield
    finally:
        numexpr.set_num_threads(old)


@contextlib.contextmanager
def speaking(name):
    old = locale.setlocale(locale.LC_ALL)
    locale.setlocale(locale.LC_ALL, name)
    try:
        yield
    finally:
        locale.setlocale(locale.LC_ALL, old)


@contextlib.contextmanager
def elsewhere():
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='verif-c28-') as d:
        os.chdir(d)
        try:
            yield
            if os.listdir(d):
                raise Violation(f'files are written in the working directory: {os.listdir(d)}')
        finally:
            os.chdir(old)


@contextlib.contextmanager
def logging():
    logger.enable('sunwhere')
    logger.remove()
    h = logger.add(io.StringIO(), level='TRACE')
    try:
        yield
    finally:
        logger.remove(h)
        logger.disable('sunwhere')
        logger.disable('sunwhere._core')


@contextlib.contextmanager
def seeded():
    np.random.seed(3)
    before = np.random.get_state()[1].copy(), np.random.get_state()[2]
    yield
    after = np.random.get_state()
    if not np.array_equal(before[0], after[1]) or before[1] != after[2]:
        raise Violation('the state of the random numbers of numpy changes')


@contextlib.contextmanager
def collector(on, *threshold):
    was, old = gc.isenabled(), gc.get_threshold()
    (gc.enable if on else gc.disable)()
    if threshold:
        gc.set_threshold(*threshold)
    try:
        yield
    finally:
        gc.set_threshold(*old)
        (gc.enable if was else gc.disable)()


@contextlib.contextmanager
def attribute(read, write, value):
    old = read()
    write(value)
    try:
        yield
    finally:
        write(old)


SETTINGS = {
    'no garbage collector': lambda: collector(False), 'frequent collections': lambda: collector(True, 50, 3, 3),
    'short decimals': lambda: decimal.localcontext(decimal.Context(prec=3)),
    'other switches of threads': lambda: attribute(sys.getswitchinterval, sys.setswitchinterval, .0005),
    'other recursion limit': lambda: attribute(sys.getrecursionlimit, sys.setrecursionlimit, 700),
    'small buffers of numpy': lambda: attribute(np.getbufsize, np.setbufsize, 256),
    'no inference of strings': lambda: pd.option_context('future.infer_string', False),
    'rows shown': lambda: pd.option_context('display.max_rows', 3, 'display.precision', 1),
    'numpy errors raised': lambda: np.errstate(all='raise'),
    'numpy errors warned': lambda: np.errstate(all='warn'),
    'warnings as errors': strict_warnings,
    'one thread': lambda: threads(1), 'three threads': lambda: threads(3), 'many threads': lambda: threads(16),
    'keep_attrs': lambda: xr.set_options(keep_attrs=True), 'drop attrs': lambda: xr.set_options(keep_attrs=False),
    'exact join': lambda: xr.set_options(arithmetic_join='exact'),
    'outer join': lambda: xr.set_options(arithmetic_join='outer'),
    'left join': lambda: xr.set_options(arithmetic_join='left'),
    'machine in New York': lambda: tz('America/New_York'), 'machine in Kiritimati': lambda: tz('Pacific/Kiritimati'),
    'machine in Kathmandu': lambda: tz('Asia/Kathmandu'),
    'locale C': lambda: speaking('C'), 'locale C.UTF-8': lambda: speaking('C.UTF-8'),
    'another folder': elsewhere, 'logging': logging, 'random numbers': seeded,
    'pandas without numexpr': lambda: pd.option_context('compute.use_numexpr', False),
    'pandas without bottleneck': lambda: pd.option_context('compute.use_bottleneck', False),
    'day first': lambda: pd.option_context('display.date_dayfirst', True),
    'legacy printing': lambda: np.printoptions(precision=2, legacy='1.13'),
}


def state():
    return dict(errors=np.geterr(), filters=list(warnings.filters), locale=locale.setlocale(locale.LC_ALL), folder=os.getcwd(),
                environment=dict(os.environ), threads=numexpr.get_num_threads(),
                xarray={k: v for k, v in xr.get_options().items()}, zone=time.tzname, recursion=sys.getrecursionlimit(),
                switch=sys.getswitchinterval(), hooks=(sys.excepthook, sys.displayhook), trace=sys.gettrace(),
                dtfmt=pd.get_option('display.date_dayfirst'), path=list(sys.path),
                collector=(gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(), gc.get_debug(), len(gc.callbacks)),
                printing=np.get_printoptions(), decimals=str(decimal.getcontext()), random=hash(random.getstate()),
                drawn=(np.random.get_state()[1].tobytes(), np.random.get_state()[2:]), buffers=np.getbufsize(),
                umask=umask(), profile=sys.getprofile(), bytecode=sys.dont_write_bytecode, digits=sys.get_int_max_str_digits(),
                limits=resource.getrlimit(resource.RLIMIT_NOFILE))


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def compare(case, what, got, want, zen):
    dec = views.flat(case, want, 'declination')
    _, edge = derived.sunrise_deg(dec, api.floats(case['lat'])[api.cells(case)[1]])
    edge = np.where(np.isnan(edge), 1., edge)
    zen = np.where(np.isnan(zen), 45., zen)
    for name in ['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + case['views']:
        a, b = got[name] if isinstance(got, dict) else views.flat(case, got, name), views.flat(case, want, name)
        same.check(name, a, b, zen, edge, lambda i: f'{what}, and with the usual settings: ' + cmp.where(case, i), 1e-8)


def labels(sw, name):
    a = views.get(sw, name)
    return a.name, a.dims, sorted(a.coords), a.attrs.get('units')


def settings(case, ctx):
    want = api.call(case)
    zen = views.flat(case, want, 'zenith')
    names = ['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + case['views']
    said = {n: labels(want, n) for n in names}
    for s in case['settings']:
        out = io.StringIO()
        with SETTINGS[s]():
            before = state()
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    got = api.call(case)
                    read = {n: views.flat(case, got, n) for n in names}
                    tags = {n: labels(got, n) for n in names}
                    reported = got.timezone, [str(x) for x in got.times[:3]]
            except (Warning, ArithmeticError) as exc:
                raise Violation(f'{type(exc).__name__} with {s}: {exc} ({cmp.config_text(case)})')
            after = state()
        for k in before:
            if before[k] != after[k]:
                raise Violation(f'evaluating changes a setting of the process ({k}): {before[k]} to {after[k]}')
        if out.getvalue():
            raise Violation(f'evaluating prints {out.getvalue()[:80]!r} with {s}')
        compare(case, f'with {s}', read, want, zen)
        for n in names:
            if tags[n] != said[n]:
                raise Violation(f'{n} is labelled {tags[n]} with {s}, and {said[n]} with the usual settings')
        if reported != (want.timezone, [str(x) for x in want.times[:3]]):
            raise Violation(f'times are reported as {reported} with {s}, and as {want.timezone}, {want.times[:3]}')
    ctx.nontrivial(len(zen)*len(case['settings']))


def parse(line):
    return [np.array(row, dtype=np.int64) if row and isinstance(row[0], int) else
            np.array([float.fromhex(x) for x in row], dtype=float) for row in line]


def jobs(cases):
    return [dict(c, views=['zenith', 'azimuth', 'declination', 'eot', 'ecf'] + c['views']) for c in cases]


def interpreter(case, ctx):
    """in a new interpreter, with other environment variables and flags"""
    env = {k: v for k, v in os.environ.items() if k not in ('TZ', 'LC_ALL', 'LANG', 'PYTHONHASHSEED', 'NUMEXPR_NUM_THREADS',
                                                             'OMP_NUM_THREADS', 'PYTHONWARNINGS')}
    env.update(case['env'], PYTHONDONTWRITEBYTECODE='1')
    job = dict(src=boot.SRC, verif=VERIF, cases=jobs(case['cases']), wrong=case['wrong'])
    with tempfile.TemporaryDirectory(prefix='verif-c28-') as d:
        p = subprocess.run([sys.executable] + case['flags'] + [os.path.join(VERIF, 'pbt', 'child.py')], cwd=d, env=env,
                           input=json.dumps(job), capture_output=True, text=True, timeout=300)
        left = os.listdir(d)
    text = f'in a new interpreter ({case["flags"]}, {case["env"]})'
    line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
    if p.returncode or not line:
        raise Violation(f'evaluations fail {text}: {p.stderr[-300:]}')
    if left or p.stdout.strip() != line[0] or p.stderr.strip():
        raise Violation(f'evaluations write {left}, {p.stdout[:80]!r}, {p.stderr[:80]!r} {text}')
    res = json.loads(line[0][7:])
    if not os.path.realpath(res['file']).startswith(boot.SRC):
        raise RuntimeError('the child imported ' + res['file'])
    if res['changed']:
        raise Violation(f'settings of the process change {text}: {"; ".join(res["changed"])}')
    for w, name in zip(case['wrong'], res['wrong']):
        if name != 'ValueError':
            raise Violation(f'{name}, expected ValueError, {text}: {w}')
    against(case['cases'], res['values'], text)
    ctx.nontrivial(sum(len(api.cells(c)[0]) for c in case['cases']))


def against(cases, values, text):
    for c, row in zip(jobs(cases), values):
        want = api.call(c)
        compare(c, text, dict(zip(c['views'], parse(row))), want, views.flat(c, want, 'zenith'))


def forked(case, ctx):
    """in a forked process, after evaluations in its parent"""
    api.call(case['cases'][0])
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            out = []
            for c in jobs(case['cases']):
                sw = api.call(c)
                row = [views.flat(c, sw, n) for n in c['views']]
                out.append([[int(x) for x in v] if v.dtype.kind in 'iu' else [float(x).hex() for x in v] for v in row])
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(out))
        except BaseException as exc:
            os.write(w, repr(exc).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text.startswith('[['):
        raise Violation(f'evaluations fail in a forked process: {text[:200] or "no answer in 120 s"}')
    against(case['cases'], json.loads(text), 'in a forked process')
    ctx.nontrivial(sum(len(api.cells(c)[0]) for c in case['cases']))


CHECKS = {'settings': settings, 'interpreter': interpreter, 'forked': forked}
ENVS = [{'TZ': 'America/New_York'}, {'TZ': 'Asia/Tokyo', 'LC_ALL': 'C'}, {'NUMEXPR_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1'},
        {'PYTHONHASHSEED': '0'}, {'PYTHONHASHSEED': '12345', 'LC_ALL': 'C.UTF-8'}, {'NUMEXPR_NUM_THREADS': '3'},
        {'HOME': '/nonexistent'}, {'LANG': 'es_ES.UTF-8', 'TZ': 'Europe/Madrid'}, {}]
FLAGS = [[], ['-O'], ['-OO'], ['-X', 'dev'], ['-b'], ['-E'], ['-X', 'utf8=0'], ['-s']]
ZONES = [None, None, None, 'Europe/Madrid', 'Asia/Kathmandu', 'America/St_Johns', 'UTC']


def wrong(rng):
    """calls that must be refused with ValueError, whatever the interpreter"""
    n = int(rng.integers(2, 5))
    out = []
    for kind in ('lat', 'lon', 'size', 'algorithm', 'engine', 'dims', 'sunrise', 'sunset', 'airmass', 'eth'):
        for u in api.USECASES:
            w = dict(usecase=u, t=[f'20{int(rng.integers(10, 99))}-06-1{i}T10:30:00' for i in range(n)], args={}, view='airmass',
                     lat=[float(x) for x in rng.uniform(-90, 90, n)], lon=[float(x) for x in rng.uniform(-180, 179, n)])
            w['with'] = {}
            i = int(rng.integers(0, n))
            if kind == 'lat':
                w['lat'][i] = float(rng.choice([90.001, -90.001, 91., -1000.]))
            if kind == 'lon':
                w['lon'][i] = float(rng.choice([180.001, -180.001, 200., -1000.]))
            if kind == 'size':
                if u == 'regular_grid':
                    continue
                w['lat' if i % 2 else 'lon'].append(3.)
            if kind == 'dims':
                w['lat' if i % 2 else 'lon'] = [w['lat']]
            if kind == 'algorithm':
                w['args'] = {'algorithm': str(rng.choice(['spa', 'PSA', '']))}
            if kind == 'engine':
                w['args'] = [{'engine': 'numba'}, {'algorithm': 'nrel', 'engine': 'numpy'}][i % 2]
            if kind in ('sunrise', 'sunset'):
                w.update({'view': kind, 'with': {'units': str(rng.choice(['hours', 'DEG', '', 'degrees']))}})
            if kind == 'airmass':
                w['with'] = {'parameterization': 'young'}
            if kind == 'eth':
                w.update({'view': 'eth', 'with': {'am_correction': 'perez'}})
            out.append(w)
    return out


def make(rng, k, size):
    c = gen.numeric(rng, k, cells=size)
    c['tz'] = None
    if rng.random() < .4:
        c['t'] = [int(x) for x in gen.instants(rng, len(c['t']), gen.unix(1902), gen.unix(2037))]
        c['tz'] = ZONES[int(rng.integers(0, len(ZONES)))]
    if rng.random() < .35:
        for key in ('t', 'lat', 'lon'):
            c[key] = [None if rng.random() < .2 else v for v in c[key]]
    c['views'] = [str(x) for x in rng.choice(list(views.ALL), 7, replace=False)]
    return c


def run(ctx):
    names = list(SETTINGS)

    def one(size):
        def g(rng, k):
            c = make(rng, k, size)
            c['settings'] = [names[(4*k + i) % len(names)] for i in range(4)]
            return c
        return g

    def axes(case):
        return [('settings',)] + (api.axes(case) if all(x is not None for k in ('t', 'lat', 'lon') for x in case[k]) else [])
    ctx.bulk('settings', one(60), ctx.n(130), axes)
    ctx.bulk('settings', one(20000), ctx.n(6), axes, 'large')
    rng = ctx.rng('process')

    def batch(n):
        return [make(rng, k, int(rng.choice([1, 30, 300]))) for k in range(n)]
    for k in range(ctx.n(8)):
        ctx.one('interpreter', dict(env=ENVS[k % len(ENVS)], flags=FLAGS[(k + 1) % len(FLAGS)], cases=batch(14),
                                     wrong=wrong(rng)))
    for k in range(ctx.n(4)):
        ctx.one('forked', dict(cases=batch(12) + [make(rng, k, 30000)]))
