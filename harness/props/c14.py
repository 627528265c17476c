"""C14: datetimes and times survive their ISO 8601 text."""
import datetime as S
from fractions import Fraction as F

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, near, nontrivial, raises
from target import date, datetime, time, timedelta, timezone

KF_FLOAT = 'KF-TIME-FLOAT-SECOND'
KF_OFFSET = 'KF-ISO-OFFSET'
P = Prop('C14', rule=(
    'Drawn datetimes and times in both forms, naive and with offsets, with '
    'every separator and timespec, and times of day written in every ISO '
    'shape (basic and extended, whole and with a decimal fraction of the '
    'hour, the minute or the second). Oracle: the standard library\'s text '
    'of the same time, and the value the text was written from. '
    'Non-trivial: an offset, microseconds, a long form, or a shape other '
    'than the one isoformat writes.'))

SPECS = ('auto', 'hours', 'minutes', 'seconds', 'milliseconds',
         'microseconds')


def tz_of(o):
    return None if o is None else timezone(timedelta(seconds=o))


def stz(o):
    return None if o is None else S.timezone(S.timedelta(seconds=o))


def mk(d, t, long, o):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=tz_of(o))


def dtext(d):
    return f'{d[0]:04}-{d[1]:02}-{d[2]:02}'


def offtext(o):
    return '' if o is None else G.offset_text(o)


offs = st.one_of(st.none(), G.offsets(False))
moffs = st.one_of(st.none(), G.offsets(True))
# The hour 24 is the hour after the last of the day.
times = st.one_of(G.times(), G.times(), G.times(), G.times(), st.tuples(
    st.just(24), G.INT(0, 59), G.INT(0, 59), G.micros()))


def ttext(t, spec='auto'):
    return f'{t[0]:02}' + S.time(0, *t[1:]).isoformat(spec)[2:]


SEPS = ('T', ' ', '_', '', '@@')


@P.check(st.tuples(G.dates(), times, st.booleans(), offs,
                   st.sampled_from(SPECS), st.sampled_from(SEPS)),
         quick=12000, thorough=600000)
def written(case):
    d, t, long, o, spec, sep = case
    x = mk(d, t, long, o)
    w = ttext(t, spec)
    eq(x.isoformat(sep, spec), dtext(d) + sep + w + offtext(o), f'{case}')
    eq(x.isoformat(timespec=spec), dtext(d) + 'T' + w + offtext(o), f'{case}')
    full = 'T' + ttext(t) + offtext(o)
    eq(x.isoformat(), dtext(d) + full, f'{case}')
    if long:
        k, v, y = M.long_of(d[0])
        eq(str(x), f'{k:0{3 if k < 0 else 2}}-{v:02}-{y:02}-{d[1]:02}-'
           f'{d[2]:02}' + full, f'str of {case}')
    else:
        eq(str(x), dtext(d) + full, f'str of {case}')
    eq(format(x, ''), str(x), 'format')
    z = time(*t, tzinfo=tz_of(o))
    eq(z.isoformat(spec), w + offtext(o), f'time of {case}')
    eq(str(z), full[1:], f'str of the time of {case}')
    eq(format(z, ''), str(z), 'format of the time')


@P.check(st.tuples(G.dates(), times, st.booleans(), moffs,
                   st.sampled_from('T '),
                   st.sampled_from(('auto', 'microseconds'))),
         quick=12000, thorough=600000)
def round_trip(case):
    d, t, long, o, sep, spec = case
    x = mk(d, t, long, o)
    s = x.isoformat(sep, spec)
    y = datetime.fromisoformat(s)
    eq((y.b_date, y.b_time, y.is_short), (d, t, True), f'{s}')
    eq(y.utcoffset(), x.utcoffset(), f'offset of {s}')
    eq(y == x, True, f'{s}: equal to {x!r}')
    eq(all(type(v) is int for v in y.b_time), True, f'{y.b_time!r}')
    eq(y.isoformat(sep, spec), s, 'written again')
    nontrivial(o is not None or t[3] or long)


@P.check(st.tuples(G.dates(), G.times(), moffs,
                   st.sampled_from(('hours', 'minutes', 'seconds',
                                    'milliseconds'))),
         quick=5000, thorough=200000)
def cut_short(case):
    """A coarser timespec keeps the coarser fields."""
    d, t, o, spec = case
    x = mk(d, t, False, o)
    y = datetime.fromisoformat(x.isoformat(timespec=spec))
    hh, mm, ss, us = t
    w = {'hours': (hh, 0, 0, 0), 'minutes': (hh, mm, 0, 0),
         'seconds': (hh, mm, ss, 0),
         'milliseconds': (hh, mm, ss, us // 1000 * 1000)}[spec]
    eq((y.b_date, y.b_time, y.utcoffset()), (d, w, x.utcoffset()), f'{case}')


def time_shape(shape, t, frac):
    """(text, microseconds since midnight), exactly."""
    hh, mm, ss = t
    ext = shape[0] == 'e'
    c = ':' if ext else ''
    n = {'h': 1, 'm': 2, 's': 3}[shape[1]]
    parts = [f'{hh:02}', f'{mm:02}', f'{ss:02}'][:n]
    s = c.join(parts)
    secs = hh * 3600 + (mm * 60 if n > 1 else 0) + (ss if n > 2 else 0)
    us = F(secs) * 10 ** 6
    if frac:
        s += '.' + frac
        us += F('0.' + frac) * {1: 3600, 2: 60, 3: 1}[n] * 10 ** 6
    return s, us


digits = st.one_of(st.just(''), st.sampled_from(
    ('5', '25', '0', '000001', '999999', '1', '9', '75', '333333', '999',
     '0001', '100')), st.integers(0, 999999).map('{:06}'.format),
    st.integers(0, 999).map('{:03}'.format))


@P.check(st.tuples(G.dates(), st.sampled_from(('eh', 'em', 'es', 'bm', 'bs')),
                   st.tuples(G.hours(), G.sixty(), G.sixty()), digits,
                   st.sampled_from('T '), moffs, st.booleans()),
         quick=14000, thorough=600000)
def shapes(case):
    d, shape, t, frac, sep, o, basic = case
    s, us = time_shape(shape, t, frac)
    ds = dtext(d) if d[0] < 0 or not basic else f'{d[0]:04}{d[1]:02}{d[2]:02}'
    x = datetime.fromisoformat(ds + sep + s + offtext(o))
    hh, mm, ss, u = x.b_time
    got = ((hh * 60 + mm) * 60 + ss) * 10 ** 6 + u
    near(got, us, 1, f'{ds + sep + s}')
    if us.denominator == 1 and not (frac and shape[1] == 'h'):
        eq(got, us, f'{ds + sep + s}, exactly')
    eq((x.b_date, x.utcoffset()), (d, None if o is None
                                   else timedelta(seconds=o)), s)
    for lo, v, hi in ((0, hh, 24), (0, mm, 60), (0, ss, 60),
                      (0, u, 10 ** 6)):
        eq(lo <= v < hi and type(v) is int, True, f'{s}: {x.b_time}')
    z = time.fromisoformat(sep + s)
    sec = z.second
    z_us = (z.hour * 60 + z.minute) * 60 * 10 ** 6 + F(sec) * 10 ** 6
    near(z_us + z.microsecond, us, 1, f'time {s}')
    eq((z.tzinfo, z.fold), (None, 0), s)
    if type(sec) is float:
        eq(us % 10 ** 6 != 0 or shape[1] == 'h', True,
           f'a fraction in the second {sec!r} of {s}')
        known(KF_FLOAT)
    else:
        eq(z, time(*x.b_time), f'time {s}')
        eq(hash(z), hash(time(*x.b_time)), f'hash {s}')


@P.check(st.tuples(G.times(), st.sampled_from('T ')), quick=4000,
         thorough=100000)
def time_round_trip(case):
    t, sep = case
    x = time(*t)
    y = time.fromisoformat(sep + x.isoformat())
    if t[3] == 0:
        eq(y, x, f'{x!r}')
        eq((hash(y), repr(y), y.isoformat()),
           (hash(x), repr(x), x.isoformat()), f'{x!r}')
        nontrivial(False)
    else:                            # the fraction stays in the second
        eq((y.hour, y.minute), t[:2], f'{x!r}')
        near(F(y.second) + F(y.microsecond, 10 ** 6),
             t[2] + F(t[3], 10 ** 6), F(1, 10 ** 8), f'{x!r}')
        if y != x:
            known(KF_FLOAT)


@P.sweep(lambda tier, seed: [(h, m, s, u) for h, m, s, u in (
    (0, 0, 0, 1), (12, 30, 15, 500000), (23, 59, 59, 999999))])
def float_second(t):
    y = time.fromisoformat('T' + time(*t).isoformat())
    if type(y.second) is float:
        known(KF_FLOAT)
    else:
        eq(y, time(*t), f'{t}')


@P.check(st.tuples(G.dates(), moffs.filter(lambda o: o is not None),
                   st.booleans()), quick=2000, thorough=60000)
def date_and_offset(case):
    """A date may be followed by the offset alone."""
    d, o, colon = case
    s = dtext(d)
    if o < 0 and o % 3600 == 0 and not colon:
        x = datetime.fromisoformat(s + f'-{-o // 3600:02}')
    else:
        x = datetime.fromisoformat(s + offtext(o))
    eq((x.b_date, x.b_time, x.utcoffset()),
       (d, (0, 0, 0, 0), timedelta(seconds=o)), f'{case}')
    for c, z in (('Z', timezone.utc), ('B', timezone.badi)):
        for mid in ('', 'T01:02:03'):
            x = datetime.fromisoformat(s + mid + c)
            eq(x.tzinfo is z, True, f'{s + mid + c}: {x.tzinfo!r}')
            eq((x.b_date, x.b_time[:3]),
               (d, (1, 2, 3) if mid else (0, 0, 0)), s + mid + c)


@P.check(st.tuples(G.dates(), st.sampled_from(
    ('T25', 'T12:60', 'T12:30:61', 'T12:30:30:30', 'T12.5.5', 'T1', 'T12:3',
     'T12:30:3', 'TT12', 'T 12', 'T12:30+24:00', 'T12:30-24:00', 'T12:30+1x',
     'T12:30+', 'T12:30Z0', 'T12:30ZZ', 'T12:30+01:00:00:00', 'T12,5',
     'x12:30', 'T99', 'T12:99', 'T12:30:99', 'T12:30+-1', 'T1230305', 'T123',
     'T12:3030', 'T1230:30', 'T12:', 'T12.', 'T.5', 'T12:30Z5', 'T12:30B1',
     'T12:30+01:60', 'Z5', 'T1.5', 'T:', 'T12:30+100:00',
     'T24:00:00Z+01', 'T12:30 +01:00', 'T12:30:30e1'))), quick=1500,
    thorough=30000)
def refused(case):
    d, tail = case
    s = dtext(d) + tail
    try:
        x = datetime.fromisoformat(s)
    except Exception as e:
        if not isinstance(e, (ValueError, AssertionError, IndexError)):
            raise
        label(type(e).__name__)
        return
    fail(f'{s} gave {x!r}')


@P.check(st.tuples(G.times(), st.sampled_from(
    ('', 'auto ', 'second', 'HOURS', 'nanoseconds', 'ms'))), quick=300,
    thorough=3000)
def bad_timespec(case):
    t, spec = case
    raises(ValueError, lambda: time(*t).isoformat(spec), spec)
    raises(ValueError, lambda: datetime(181, 1, 1, None, None, *t).isoformat(
        timespec=spec), spec)


@P.check(st.tuples(G.dates(), G.times(), G.offsets(False), st.booleans()),
         quick=1500, thorough=60000)
def fine_offset(case):
    """An offset with seconds is read back, or refused: KF-ISO-OFFSET."""
    d, t, o, long = case
    x = mk(d, t, long, o)
    s = mk(d, t, False, o).isoformat()
    try:
        y = datetime.fromisoformat(s)
    except (ValueError, AssertionError) as e:
        if round(o * 10 ** 6) % (60 * 10 ** 6) == 0:
            raise
        eq(any(w in str(e) for w in ('colons', 'timezone')), True, str(e))
        known(KF_OFFSET)
        return
    eq((y, y.utcoffset(), y.b_time), (x, x.utcoffset(), x.b_time), s)
    nontrivial(round(o * 10 ** 6) % (60 * 10 ** 6) != 0)


@P.sweep(lambda tier, seed: [3601])
def seconds_offset(o):
    fine_offset(((181, 2, 3), (4, 5, 6, 7), o, False))
