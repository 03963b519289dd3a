"""C30: memory is proportional to the results, and is given back."""
import gc
import tracemalloc

import numpy as np
from hypothesis import strategies as st

from pbt import api, views
from pbt.core import Violation

ID = 'C30'
RULE = ('a case is an evaluation of some thousands of cells, often with one long axis (or a history of them), whose '
        'allocations are traced; oracle: bounds linear in the cells, times and places of the result, 2 to 4 times what the '
        'algorithms need; non-trivial: all')
ASSUMPTIONS = ['allocations are those traced by Python (numpy arrays included); blocks private to numexpr are not']

# bytes (peak during the call; kept by its result) per cell, per time and per place: about twice what is needed
CALL = dict(cell=250, time=800, place=250, const=1e6)
NREL_TIME = 8000        # (series of up to 64 terms for each time)
KEPT = dict(cell=40, time=500, place=300, const=3e5)
VIEW = dict(cell=250, time=600, place=200, const=1e6)
VIEW_KEPT = dict(cell=24, time=60, place=60, const=2e5)


def sizes(case):
    a, b = case['lat'], case['lon']
    cells = {'sites': case['n']*a, 'regular_grid': case['n']*a*b, 'transect': case['n']}[case['usecase']]
    places = {'sites': a, 'regular_grid': a + b, 'transect': case['n']}[case['usecase']]
    return cells, case['n'], places


def bound(k, case):
    cells, times, places = sizes(case)
    return k['cell']*cells + k['time']*times + k['place']*places + k['const']


def inputs(case):
    t = np.datetime64(case['start'], 's') + np.arange(case['n'])*np.timedelta64(case['step'], 's')
    rng = np.random.default_rng(case['seed'])
    a, b = (case['n'], case['n']) if case['usecase'] == 'transect' else (case['lat'], case['lat' if case['usecase'] == 'sites' else 'lon'])
    return t, rng.uniform(-90, 90, a), rng.uniform(-180, 180, b)


def traced(fn):
    """result of fn(); bytes at the peak; bytes kept"""
    gc.collect()
    before = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    out = fn()
    peak = tracemalloc.get_traced_memory()[1] - before
    gc.collect()
    return out, peak, tracemalloc.get_traced_memory()[0] - before


def call(case, args):
    return getattr(api.sunwhere, case['usecase'])(*args, algorithm=case['algorithm'], engine=case['engine'],
                                                  refraction=case['refraction'])


def need(case):
    return {**CALL, 'time': NREL_TIME} if case['algorithm'] == 'nrel' else CALL


def one(case, ctx):
    args = inputs(case)
    cells, times, places = sizes(case)
    what = (f"{case['usecase']} of {times} times and {case['lat']} x {case['lon']} places ({cells} cells; {case['algorithm']}, "
            f"{case['engine']})")
    tracemalloc.start()
    try:
        call({**case}, tuple(x[:2] if case['usecase'] == 'transect' else x[:1] for x in args))      # (imports, caches)
        sw, peak, kept = traced(lambda: call(case, args))
        ctx.stat('peak of the call, of its bound', peak/bound(need(case), case))
        ctx.stat('kept by the result, of its bound', kept/bound(KEPT, case))
        if peak > bound(need(case), case):
            raise Violation(f'{what}: {peak} bytes are needed')
        if kept > bound(KEPT, case):
            raise Violation(f'{what}: {kept} bytes are kept by the result')
        for name in case['views']:
            v, peak, kept = traced(lambda: views.get(sw, name))
            ctx.stat('peak of a view, of its bound', peak/bound(VIEW, case))
            ctx.stat('kept by a view, of its bound', kept/bound(VIEW_KEPT, case))
            if peak > bound(VIEW, case):
                raise Violation(f'{name} of {what}: {peak} bytes are needed')
            if kept > bound(VIEW_KEPT, case):
                raise Violation(f'{name} of {what}: {kept} bytes are kept')
    finally:
        tracemalloc.stop()
    ctx.nontrivial(cells)


def refused(case, sw):
    """a call and a view that are not valid"""
    t, lat, lon = inputs(case)
    fn = getattr(api.sunwhere, case['usecase'])
    calls = [lambda: fn(t, np.append(lat[1:], 95.), lon), lambda: fn(t, lat, np.append(lon[1:], -190.)),
             lambda: fn(t, lat[None], lon), lambda: fn(t, lat, lon, algorithm='sun'), lambda: fn(t, lat, lon, engine='c'),
             lambda: sw.sunrise(units='h'), lambda: sw.airmass(parameterization='x'), lambda: sw.eth(am_correction='x')]
    for fn_ in calls*12:
        try:
            fn_()
        except ValueError:
            pass


def history(case, ctx):
    """many evaluations, each of them discarded: what stays is less than two of them"""
    tracemalloc.start()
    try:
        def step(k):
            c = {**case, 'seed': case['seed'] + k, 'start': case['start'] + 86400*k}
            sw = call(c, inputs(c))
            for name in case['views']:
                views.get(sw, name)
            refused(c, sw)
        step(0)
        largest = 0
        gc.collect()
        base = tracemalloc.get_traced_memory()[0]
        for k in range(1, case['repeat'] + 1):
            step(k)
        gc.collect()
        grown = tracemalloc.get_traced_memory()[0] - base
    finally:
        tracemalloc.stop()
    cells, times, places = sizes(case)
    result = 16*cells + 40*times + 16*places
    largest = 2*result + 2e5
    ctx.stat('kept by histories, of its bound', grown/largest)
    if grown > largest:
        raise Violation(f'{grown} bytes stay after {case["repeat"]} evaluations of {cells} cells were discarded '
                        f"({case['usecase']}, {case['algorithm']}, {case['engine']}, views {case['views']})")
    ctx.nontrivial(cells)


CHECKS = {'one': one, 'history': history}


@st.composite
def cases(draw, big=True):
    use = draw(st.sampled_from(['sites', 'regular_grid', 'transect']))
    alg, eng = draw(st.sampled_from(api.CONFIGS))
    long = st.integers(4000, 8000) if big else st.integers(1000, 3000)
    short = st.sampled_from([1, 1, 2, 3])
    mid = st.integers(10, 40)
    if use == 'transect':
        n, a, b = draw(long), 0, 0
    elif use == 'sites':
        n, a = draw(st.tuples(long, short) | st.tuples(short, long) | st.tuples(mid, mid.map(lambda x: 10*x)))
        b = a
    else:
        n, a, b = draw(st.tuples(long, short, short) | st.tuples(short, long, short) | st.tuples(short, short, long)
                       | st.tuples(mid, mid, mid))
    return dict(usecase=use, algorithm=alg, engine=eng, refraction=draw(st.booleans()), n=n, lat=a, lon=b,
                start=draw(st.integers(-10**9, 4*10**9)), step=draw(st.sampled_from([60, 3600, 86400])),
                seed=draw(st.integers(0, 10**6)),
                views=draw(st.lists(st.sampled_from(list(views.ALL)), max_size=6, unique=True)))


@st.composite
def histories(draw):
    return {**draw(cases(False)), 'repeat': draw(st.integers(8, 16))}


def run(ctx):
    ctx.hyp('one', cases(), ctx.n(120))
    ctx.hyp('history', histories(), ctx.n(25))
