"""Time zones and instants around their offset changes."""
import contextlib
import datetime as dt
import functools
import os
import shutil
import struct
import tempfile
import zoneinfo

UTC = dt.timezone.utc
EPOCH = dt.datetime(1970, 1, 1, tzinfo=UTC)

NAMES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe',
         'Pacific/Apia', 'America/St_Johns', 'Asia/Kolkata', 'Africa/Casablanca', 'Pacific/Chatham',
         'America/Sao_Paulo', 'Pacific/Kiritimati', 'Europe/Dublin', 'Antarctica/Troll', 'Etc/GMT+11',
         'Asia/Tehran', 'Pacific/Honolulu', 'Europe/London']
OFFSETS = [0, 60, -60, 330, -210, 345, 570, 765, 840, -720, 1, -1439, 1439]


def aware(u, tz):
    """datetime of unix second u in the time zone tz (zoneinfo, datetime.timezone or pytz)"""
    d = EPOCH + dt.timedelta(seconds=int(u))
    if hasattr(tz, 'normalize'):            # pytz
        return d.astimezone(tz)
    return d.astimezone(tz)


@functools.lru_cache(None)
def transitions(name, first=1995, last=2036):
    """instants (unix seconds) at which the UTC offset of the zone changes"""
    tz = zoneinfo.ZoneInfo(name)
    off = lambda u: (EPOCH + dt.timedelta(seconds=u)).astimezone(tz).utcoffset()   # noqa: E731
    lo = int((dt.datetime(first, 1, 1, tzinfo=UTC) - EPOCH).total_seconds())
    hi = int((dt.datetime(last, 1, 1, tzinfo=UTC) - EPOCH).total_seconds())
    out, step = [], 86400*5
    for a in range(lo, hi, step):
        b = a + step
        if off(a) != off(b):
            x, y = a, b
            while y - x > 1:
                m = (x + y)//2
                x, y = (m, y) if off(m) == off(a) else (x, m)
            out.append(y)
    return out


@contextlib.contextmanager
def changing(at, before, after):
    """the name of a time zone of these UTC offsets (s) before and after the instant `at`"""
    folder = tempfile.mkdtemp(prefix='verif-tz-')
    old = zoneinfo.TZPATH
    key = f'Verif/T{at}_{before}_{after}'.replace('-', 'm')
    data = struct.pack('>4sc15x6L', b'TZif', b'\0', 0, 0, 0, 2, 2, 8) + struct.pack('>llBB', -2**31, at, 0, 1) + \
        struct.pack('>lBBlBB', before, 0, 0, after, 0, 4) + b'BEF\0AFT\0'
    try:
        os.makedirs(os.path.join(folder, 'Verif'))
        with open(os.path.join(folder, key), 'wb') as f:
            f.write(data)
        zoneinfo.reset_tzpath(to=[folder, *old])
        yield key
    finally:
        zoneinfo.reset_tzpath(to=old)
        shutil.rmtree(folder, ignore_errors=True)
