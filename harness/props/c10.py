"""C10: datetime arithmetic is the arithmetic of instants."""
import datetime as S

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from target import Alike, D, date, datetime, timedelta, timezone

KF_GAP = 'KF-REFORM-GAP'
P = Prop('C10', rule=(
    'Drawn datetimes (both forms, naive and with fixed offsets, hour 24 '
    'included) and timedeltas to the microsecond. Oracle: the standard '
    'library\'s datetime with the same day number and time. Non-trivial: '
    'the time of day carries into the date, or two offsets differ, or the '
    'range is left.'))

offs = st.one_of(st.none(), st.none(), G.offsets(False))


def tz_of(o):
    return None if o is None else timezone(timedelta(seconds=o))


def stz(o):
    return None if o is None else S.timezone(S.timedelta(seconds=o))


def mk(d, t, long, o):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=tz_of(o))


def tup(x):
    y = x.year if x.is_short else M.short_of(x.kull_i_shay, x.vahid, x.year)
    return y, x.month, x.day, x.hour, x.minute, x.second, x.microsecond


dts = st.tuples(G.dates(safe=True), G.times(), st.booleans(), offs)
span = st.one_of(
    st.tuples(st.integers(-400, 400), st.integers(-200000, 200000),
              st.integers(-10 ** 7, 10 ** 7)),
    st.tuples(st.just(0), st.integers(-90000, 90000), G.micros()),
    st.tuples(st.integers(-1100000, 1100000), st.integers(0, 86399),
              G.micros()))


@P.check(st.tuples(dts, span, st.integers(0, 2)), quick=9000,
         thorough=600000)
def add(case):
    (d, t, long, o), sp, form = case
    x, td = mk(d, t, long, o), timedelta(*sp)
    op = (lambda: x + td, lambda: td + x, lambda: x - -td)[form]
    try:
        w = M.to_std(*d, *t, stz(o)) + td
        n = w.toordinal()
    except OverflowError:
        n = -1
    if not M.MIN_ORD <= n <= M.MAX_ORD:
        raises(OverflowError, op, f'{case}: out of range')
        label('overflow')
        return
    if M.GAP_FIRST <= n <= M.GAP_LAST:
        e = raises(ValueError, op, 'gap')
        eq('reform gap' in str(e), True, str(e))
        return
    r = op()
    eq(tup(r), M.from_std(w), f'{case}')
    eq(r.is_short, not long, f'form of the result of {case}')
    eq(r.tzinfo is x.tzinfo, True, 'tzinfo of the result')
    eq(type(r), datetime, 'type')
    nontrivial(tup(r)[:3] != d)


@P.check(st.tuples(dts, dts, st.booleans()), quick=8000, thorough=500000)
def subtract(case):
    a, b, same = case
    if same:
        b = b[:3] + a[3:]
    x, y = mk(*a), mk(*b)
    if (a[3] is None) != (b[3] is None):
        raises(TypeError, lambda: x - y, 'naive and aware')
        nontrivial(False)
        return
    p, q = (M.to_std(*c[0], *c[1], stz(c[3])) for c in (a, b))
    eq(x - y, p - q, f'{case}')
    eq(y - x, q - p, f'reversed {case}')
    if a[3] is not None:
        eq(x.replace(tzinfo=Alike(a[3])) - y.replace(tzinfo=Alike(b[3])),
           p - q, f'with zones that are equal, {case}')
    nontrivial(a[3] != b[3] or a[1] != b[1])
    if M.near_finding(M.to_ord(*a[0]), 3):
        return
    if a[3] == b[3]:
        r = y.replace(tzinfo=x.tzinfo) + (x - y)
        eq(tup(r), tup(x), f'y + (x - y) of {case}')


@P.check(st.tuples(G.dates(safe=True), G.sixty(), G.sixty(), G.micros(),
                   st.booleans(), span), quick=2500, thorough=100000)
def hour_24(case):
    """24:mm:ss is as far from any instant as 0:mm:ss of the next day."""
    d, mm, ss, us, long, sp = case
    n = M.to_ord(*d)
    if n + 1 > M.MAX_ORD or M.near_skip(n, 3) \
            or M.from_ord(n + 1)[0] in M.FUDGED:
        nontrivial(False)
        return
    x = mk(d, (24, mm, ss, us), long, None)
    y = mk(M.from_ord(n + 1), (0, mm, ss, us), False, None)
    eq(x - y, timedelta(0), f'{x!r} - {y!r}')
    eq(tup(x + timedelta(0)), tup(y), 'plus nothing')
    td = timedelta(*sp)
    try:
        w = M.to_std(*tup(y)) + td
        if not M.MIN_ORD <= w.toordinal() <= M.MAX_ORD \
                or M.near_skip(w.toordinal(), 1):
            return
    except OverflowError:
        return
    eq(tup(x + td), M.from_std(w), f'{x!r} + {td}')


@P.check(st.tuples(dts, span, span), quick=3000, thorough=150000)
def steps_add_up(case):
    a, s1, s2 = case
    x, p, q = mk(*a), timedelta(*s1), timedelta(*s2)
    try:
        w = M.to_std(*a[0], *a[1])
        for v in (w + p, w + p + q):
            n = v.toordinal()
            if not M.MIN_ORD <= n <= M.MAX_ORD or M.near_skip(n, 1) \
                    or M.from_ord(n)[0] in M.FUDGED:
                nontrivial(False)
                return
    except OverflowError:
        nontrivial(False)
        return
    eq(tup((x + p) + q), tup(x + (p + q)), f'{case}')
    eq(tup((x + p) - p), tup(x), f'{case}')
    eq((x + p) - x, p, f'{case}')


@P.check(st.tuples(dts, st.sampled_from(
    ('1', '1.5', 'None', 'object()', "'x'"))), quick=300, thorough=3000)
def other_types(case):
    a, other = case
    x, o = mk(*a), eval(other)
    for op in (lambda: x + o, lambda: x - o, lambda: o + x, lambda: o - x,
               lambda: x + x, lambda: x - date(*a[0])):
        raises(TypeError, op, f'{x!r} with {other}')


@P.sweep(lambda tier, seed: [0])
def range_ends(_):
    us = timedelta(microseconds=1)
    last = datetime(M.MAXYEAR, 19, 19, None, None, 23, 59, 59, 999999)
    for lo, hi in ((datetime.min, last),):
        raises(OverflowError, lambda: lo - us, 'before min')
        raises(OverflowError, lambda: hi + us, 'after max')
        eq(tup(lo), (M.MINYEAR, 1, 1, 0, 0, 0, 0), 'min')
        eq(tup(lo + us), (M.MINYEAR, 1, 1, 0, 0, 0, 1), 'min + 1 us')
        eq(lo + (hi - lo), hi, 'min to max')
        eq(hi - (hi - lo), lo, 'max to min')
    e = raises(ValueError, lambda: datetime.fromordinal(M.GAP_FIRST), 'gap')
    eq('reform gap' in str(e), True, str(e))
    known(KF_GAP)
