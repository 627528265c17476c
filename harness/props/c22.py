"""C22: time tuples and ctime describe the moment."""
import datetime as S

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from props.c16 import MN
from target import (TZWithCoords, date, datetime, timedelta, timezone,
                    tzinfo)

KF = 'KF-LONG-OVERFLOW'
P = Prop('C22', rule=(
    'Drawn dates and datetimes in both forms, naive, with fixed offsets and '
    'with places. Oracle: the integer model for weekday and day of the '
    'year, the standard library for the UTC tuple. Non-trivial: a long form, '
    'Ayyam-i-Ha or the month after it, an offset that changes the date, or '
    'a year that is not of four digits.'))


def tz_of(o):
    if isinstance(o, tuple):
        return TZWithCoords(*o)
    return None if o is None else timezone(timedelta(seconds=o))


def seconds(o):
    return o[2] * 3600 if isinstance(o, tuple) else o


def mk(d, t, long, o=None):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=tz_of(o))


def ok_day(d):
    return not (d[0] in M.FUDGED or d[0] - 1 in M.FUDGED)


def check(tt, d, t, long, dst, zone, off, what):
    """tt is the time tuple of day d and time t."""
    n = M.to_ord(*d)
    y = M.long_of(d[0]) if long else (d[0],)
    want = y + d[1:] + t[:3] + (M.weekday(n), M.doy(*d), dst)
    eq(tuple(tt)[:-2], want, what)
    names = (('tm_kull_i_shay', 'tm_vahid') if long else ()) + (
        'tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec',
        'tm_wday', 'tm_yday', 'tm_isdst')
    eq(tuple(getattr(tt, k) for k in names), want, what)
    eq((tt.tm_zone, tt.tm_gmtoff), (zone, off), what)
    eq((tt.short, len(tt)), (not long, 13 if long else 11), what)
    text = ', '.join(f'{k}={v}' for k, v in zip(names, want))
    eq(repr(tt), f'structures.{"Long" if long else "Short"}FormStruct({text})',
       what)


dates = G.dates(safe=True).filter(ok_day)
offs = st.one_of(st.none(), G.offsets(False), G.cities())


def ctime(d, t=(0, 0, 0)):
    y = f'{"-" if d[0] < 0 else ""}{abs(d[0]):04}'
    return (f'{M.WEEKDAYS[M.weekday(M.to_ord(*d))]} {MN[d[1]]} {d[2]:2} '
            f'{t[0]:02}:{t[1]:02}:{t[2]:02} {y}')


@P.check(st.tuples(dates, G.times(), st.booleans(), offs), quick=7000,
         thorough=400000)
def time_tuple(case):
    d, t, long, o = case
    x = mk(d, t, long, o)
    off = seconds(o)
    if o == 0:
        z, dst = 'UTC', 0
    elif isinstance(o, tuple):
        z, dst = S.timezone(S.timedelta(seconds=off)).tzname(None), 0
    else:
        z = None if o is None else S.timezone(S.timedelta(seconds=o)
                                              ).tzname(None)
        dst = -1
    nontrivial(long or d[1] in (0, 19) or abs(d[0]) < 1000 or o is not None)
    check(x.timetuple(), d, t, long, dst, z, off, f'timetuple of {x!r}')
    eq(x.ctime(), ctime(d, t), f'ctime of {x!r}')
    if off and not M.MIN_ORD < M.to_ord(*d) < M.MAX_ORD:
        try:
            u = x.utctimetuple()
        except OverflowError:               # as the standard library's
            v = M.to_std(*d, *t) - S.timedelta(seconds=off)
            eq(M.MIN_ORD <= v.toordinal() < M.MAX_ORD, False,
               f'utctimetuple of {x!r} is out of range')
            return
    u = x.utctimetuple()
    if not off:
        check(u, d, t, long, 0, None, None, f'utctimetuple of {x!r}')
    elif not M.near_skip(M.to_ord(*d), 3) and ok_day(d):
        v = M.from_std(M.to_std(*d, *t) - S.timedelta(seconds=off))
        if M.MINYEAR <= v[0] <= M.MAXYEAR and ok_day(v[:3]) \
                and v[0] not in M.FUDGED:
            check(u, v[:3], v[3:], long, 0, None, None,
                  f'utctimetuple of {x!r}')
            label('another day' if v[:3] != d else 'same day')


@P.check(st.tuples(dates, st.booleans()), quick=3000, thorough=200000)
def of_dates(case):
    d, long = case
    x = date(*M.long_of(d[0]), *d[1:]) if long else date(*d)
    check(x.timetuple(), d, (0, 0, 0), long, -1, None, None,
          f'timetuple of {x!r}')
    eq(x.ctime(), ctime(d), f'ctime of {x!r}')


def edges(tier, seed):
    for y in range(M.MINYEAR, M.MAXYEAR + 1):
        if y in M.FUDGED or y - 1 in M.FUDGED or y == -261:
            continue
        n = M.ylen(y)
        for k in ((1, 342, 343, n - 19, n - 18, n) if tier != 'quick'
                  else ((1, 343, n - 18, n)[(y + seed) % 4],)):
            yield M.from_doy(y, k), bool((y + k) & 1)


@P.sweep(edges)
def year_edges(case):
    of_dates(case)


@P.sweep(lambda tier, seed: [(181, 1, 1), (181, 0, 2), (-5, 18, 19),
                             (180, 19, 19)])
def hour_24(d):
    """The ctime of 24:mm of a long form names that moment."""
    x = mk(d, (24, 1, 2, 3), True)
    n = M.to_ord(*d)
    want = ctime(d, (24, 1, 2)), ctime(M.from_ord(n + 1), (0, 1, 2))
    got = x.ctime()
    if got in want:
        return
    if ' 23:01:02 ' in got:
        known(KF)
    else:
        fail(f'ctime of {x!r}: {got}')


class Zone(tzinfo):
    """A zone whose name, offset and summer time depend on the month."""
    def __init__(self, off, first, dsts, names):
        self.off, self.first, self.dsts, self.names = off, first, dsts, names

    def part(self, dt):
        return dt is None or not 1 <= dt.month < self.first

    def utcoffset(self, dt):
        return None if self.off is None else timedelta(
            seconds=self.off + (self.dsts[self.part(dt)] or 0))

    def dst(self, dt):
        v = self.dsts[self.part(dt)]
        return None if v is None else timedelta(seconds=v)

    def tzname(self, dt):
        return self.names[self.part(dt)]


dsts = st.one_of(st.none(), st.sampled_from((0, 3600, -3600, 1800, 1, -1)))
zname = st.one_of(st.none(), st.sampled_from(('', 'A', 'B', 'NST')))


@P.check(st.tuples(dates, G.times(), st.booleans(), st.one_of(
    st.none(), G.offsets().filter(lambda o: abs(o) < 80000)),
    st.integers(1, 20), st.tuples(dsts, dsts), st.tuples(zname, zname)),
    quick=2500, thorough=200000)
def other_zones(case):
    """The tuple states what the zone says of that moment."""
    d, t, long, off, first, ds, names = case
    z = Zone(off, first, ds, names)
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    x = datetime(*a, *t, tzinfo=z)
    late = z.part(x)
    dst, name = ds[late], names[late]
    nontrivial(ds[0] != ds[1] or names[0] != names[1] or long)
    tt = x.timetuple()
    if off is not None:
        off += dst or 0
    check(tt, d, t, long, -1 if dst is None else int(bool(dst)), name, off,
          f'timetuple of {x!r}')
    if off is None or not 2 < M.to_ord(*d) - M.MIN_ORD < M.MAX_ORD \
            - M.MIN_ORD - 2:
        return
    if off and not M.near_finding(M.to_ord(*d), 3):
        v = M.from_std(M.to_std(*d, *t) - S.timedelta(seconds=off))
        if ok_day(v[:3]):
            u = x.utctimetuple()
            check(u, v[:3], v[3:], long, 0, None, None,
                  f'utctimetuple of {x!r}')


@P.check(st.tuples(dates, G.times(), st.booleans(), offs), quick=500,
         thorough=20000)
def fields_of(case):
    """A tuple gives its fields by name, index and slice, and equal ones are
    equal and hash so."""
    d, t, long, o = case
    a, b = mk(d, t, long, o).timetuple(), mk(d, t, long, o).timetuple()
    eq((a, hash(a)), (b, hash(b)), 'equal')
    eq(list(a), [a[i] for i in range(len(a))], 'index')
    eq((a[-1], a[-2], a[1:3]), (a.tm_gmtoff, a.tm_zone, tuple(a)[1:3]),
       'slice')
    eq(a == mk(d, (t[0], t[1], (t[2] + 1) % 60, 0), long, o).timetuple(),
       False, 'another second')
    nontrivial(o is not None)


@P.sweep(lambda tier, seed: [0])
def read_only(_):
    tt = datetime(181, 1, 1).timetuple()

    def put():
        tt.tm_year = 3
    raises(AttributeError, put, 'tm_year')
    eq(tt, datetime(181, 1, 1).timetuple(), 'equal')
