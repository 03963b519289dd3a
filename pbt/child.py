"""Evaluates cases in another process: reads a JSON object from stdin, writes one to stdout.

{src, verif, cases: [{usecase, alg, eng, refr, t, lat, lon, tz, views}], wrong: [...]} ->
{values: [[...]], wrong: [exception names], changed: [...], file}; floats as hexadecimal, times as integer nanoseconds.
"""
import decimal
import gc
import json
import locale
import os
import random
import resource
import signal
import sys
import threading
import warnings


def snapshot():
    import logging
    import numexpr
    import numpy
    import pandas
    import xarray
    names = [x for x in ('compute.use_numexpr', 'compute.use_bottleneck', 'mode.string_storage', 'display.precision',
                         'display.max_rows', 'display.date_dayfirst') if _has(pandas, x)]
    return dict(numpy=numpy.geterr(), warnings=[str(x) for x in warnings.filters], folder=os.getcwd(), zone=os.environ.get('TZ'),
                environment=sorted(os.environ.items()), locale=locale.setlocale(locale.LC_ALL),
                threads=(numexpr.get_num_threads(), threading.active_count()), xarray=sorted(
                    (k, str(v)) for k, v in xarray.get_options().items()), recursion=sys.getrecursionlimit(),
                signals=[str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)],
                hooks=[str(x) for x in (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile())],
                logging=(len(logging.root.handlers), logging.root.level), path=list(sys.path), floats=sys.getswitchinterval(),
                pandas=[str(pandas.get_option(x)) for x in names],
                printing=str(numpy.get_printoptions()), random=[str(x) for x in numpy.random.get_state()[1:3]],
                drawn=hash(random.getstate()), decimals=str(decimal.getcontext()), buffers=numpy.getbufsize(),
                collector=(gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(), gc.get_debug(), len(gc.callbacks)),
                limits=[resource.getrlimit(getattr(resource, x)) for x in ('RLIMIT_NOFILE', 'RLIMIT_AS', 'RLIMIT_STACK')],
                digits=sys.get_int_max_str_digits(), bytecode=sys.dont_write_bytecode, umask=umask())


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def _has(pandas, name):
    try:
        pandas.get_option(name)
        return True
    except Exception:
        return False


def diff(a, b):
    return [f'{k}: {a[k]} to {b[k]}'[:300] for k in a if a[k] != b[k]]


def said(heard, when):
    """the sinks of the logs of a user are kept, and the library logs nothing unless it is enabled"""
    import loguru
    loguru.logger.log('TRACE', 'one message')
    out = [f'{when} changes the sinks of the logs: a message reaches them {heard.count("one message")} times'] \
        if heard.count('one message') != 1 else []
    out += [f'{when} logs {m!r}' for m in heard if m != 'one message'][:1]
    heard.clear()
    return out


def main():
    job = json.load(sys.stdin)
    sys.dont_write_bytecode = True
    sys.path.insert(0, job['verif'])
    sys.path.insert(0, job['src'])
    import importlib.metadata  # noqa: F401  (what the library imports)
    import loguru  # noqa: F401
    import numexpr  # noqa: F401
    import pandas  # noqa: F401
    import xarray  # noqa: F401
    heard = []
    loguru.logger.add(lambda m: heard.append(m.record['message']), level='TRACE')
    first = snapshot()
    import sunwhere
    changed = ['importing changes ' + x for x in diff(first, snapshot())]
    changed += said(heard, 'importing')
    import numpy
    errors, filters = numpy.geterr(), list(warnings.filters)
    from pbt import api, views      # (these silence numpy)
    numpy.seterr(**errors)
    warnings.filters[:] = filters
    before = snapshot()
    out = []
    for c in job['cases']:
        sw = api.call(c)
        row = []
        for name in c['views']:
            v = views.flat(c, sw, name)
            row.append([int(x) for x in v] if v.dtype.kind in 'iu' else [float(x).hex() for x in v])
        out.append(row)
    wrong = []
    for w in job.get('wrong', []):
        try:
            sw = getattr(sunwhere, w['usecase'])(w['t'], w['lat'], w['lon'], **w['args'])
            getattr(sw, w['view'])(**w['with'])
            wrong.append('no error')
        except Exception as exc:
            wrong.append(type(exc).__name__)
    changed += said(heard, 'evaluating')
    changed += ['evaluating changes ' + x for x in diff(before, snapshot())]
    print('RESULT ' + json.dumps({'values': out, 'wrong': wrong, 'changed': changed, 'file': sunwhere.__file__}))


if __name__ == '__main__':
    main()
