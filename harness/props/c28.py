"""C28: the repr of an object is an expression that makes it again."""
import datetime as S

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from target import (B, TZWithCoords, date, datetime, time, timedelta,
                    timezone)

P = Prop('C28', rule=(
    'Drawn dates, datetimes, times, fixed zones and places, in both forms, '
    'of the classes and of subclasses of them. Oracle: evaluating the repr '
    'with nothing but the package gives an equal object of the same class, '
    'form, fields, fold and zone; str() and format() with an empty '
    'format are the isoformat, with the long form\'s own date. Non-trivial: long form, a fraction, fold, a zone or '
    'a subclass.'),
    assumptions=['The two singletons timezone.utc and BADI are written as '
                 'such.'])


class MyDate(date):
    pass


class MyDatetime(datetime):
    pass


class MyTime(time):
    pass


# The names that repr uses; a plain `datetime.timedelta` is written as the
# package's own.
SPACE = {'badidatetime': B, 'datetime': S}
SPACE.update({__name__.split('.')[0]: __import__(__name__.split('.')[0])})


def back(x, what='repr'):
    r = repr(x)
    try:
        return eval(r, dict(SPACE))
    except Exception as e:
        fail(f'{what} {r} cannot be evaluated: {type(e).__name__}: {e}')


names = st.one_of(st.none(), st.text('ABCxyz-+/ \'"\\é', min_size=1,
                                     max_size=6))
number = st.one_of(G.INT(-90, 90).map(float), st.floats(-90, 90),
                   G.INT(-9000, 9000).map(lambda n: n / 100))
zones = st.one_of(
    st.none(), st.just('utc'), st.just('badi'),
    st.tuples(st.just('tz'), G.offsets(False), names),
    st.tuples(st.just('place'), number, number, G.INT(-48, 56), names))


def zone(z):
    if z is None:
        return None
    if z == 'utc':
        return timezone.utc
    if z == 'badi':
        return timezone.badi
    if z[0] == 'tz':
        d = timedelta(seconds=z[1])
        return timezone(d) if z[2] is None else timezone(d, z[2])
    return TZWithCoords(z[1], z[2], z[3] / 4, key=z[4])


def about(z):
    if z is None:
        return None
    r = (type(z), z.utcoffset(None), z.tzname(None))
    if isinstance(z, TZWithCoords):
        r += (z.lat, z.lon, z.zone, z.key, z.coordinates)
    return r


@P.check(zones, quick=3000, thorough=100000)
def of_zones(case):
    z = zone(case)
    y = back(z)
    eq(about(y), about(z), f'{z!r}')
    if z is not None:
        eq((y == z, hash(y) == hash(z)), (True, True), f'{z!r}')
    if case in ('utc', 'badi'):
        eq(y is z, True, 'the singleton')
    nontrivial(case is not None)


@P.check(st.tuples(G.dates(), st.booleans(), st.booleans()), quick=3000,
         thorough=200000)
def of_dates(case):
    d, long, sub = case
    f = M.long_of(d[0]) + d[1:] if long else d
    x = (MyDate if sub else date)(*f)
    y = back(x)
    eq((type(y), y.is_short, y.b_date, y == x, hash(y) == hash(x)),
       (type(x), not long, f, True, True), f'{x!r}')
    k = M.long_of(d[0])
    want = x.isoformat() if not long else (
        f'{k[0]:0{3 if k[0] < 0 else 2}}-{k[1]:02}-{k[2]:02}-{d[1]:02}-'
        f'{d[2]:02}')
    eq((str(x), format(x), f'{x}'), (want,) * 3, 'str')
    nontrivial(long or sub)


@P.check(st.tuples(G.dates(safe=True), st.one_of(
    G.times(), G.times(), st.just((24, 0, 0, 0))), zones, st.booleans(),
                   st.booleans(), G.INT(0, 1), G.INT(1, 4)), quick=4000,
         thorough=200000)
def of_datetimes(case):
    d, t, z, long, sub, fold, n = case
    t = t[:n] + (0,) * (4 - n)
    z = zone(z)
    f = M.long_of(d[0]) + d[1:] if long else d
    x = (MyDatetime if sub else datetime)(
        *f, *(() if long else (None, None)), *t, z, fold=fold)
    y = back(x)
    eq((type(y), y.is_short, y.b_date, y.b_time, y.fold, about(y.tzinfo)),
       (type(x), not long, f, t, fold, about(z)), f'{x!r}')
    eq((y == x, hash(y) == hash(x)), (True, True), f'{x!r}')
    iso = x.isoformat()
    eq((str(x), format(x)), (str(x.date()) + iso[iso.index('T'):] if long
                             else iso,) * 2, 'str')
    nontrivial(long or sub or fold or z is not None or t[3])


@P.check(st.tuples(st.one_of(G.times(), st.just((24, 0, 0, 0))),
                   st.one_of(st.none(), zones), st.booleans(), G.INT(0, 1),
                   G.INT(1, 4)), quick=4000, thorough=200000)
def of_times(case):
    t, z, sub, fold, n = case
    t = t[:n] + (0,) * (4 - n)
    tz = zone(z)
    x = (MyTime if sub else time)(*t, tz, fold=fold)
    eq((str(x), format(x)), (x.isoformat(),) * 2, 'str')
    if tz is not None:
        # An existing test asserts str() of the zone where its repr belongs.
        r = repr(x)
        want = repr(x.replace(tzinfo=None))
        end = ', fold=1)' if fold else ')'
        if r == want[:-len(end)] + f', tzinfo={tz!r}{end}':
            y = back(x)
        else:
            eq(r, want[:-len(end)] + f', tzinfo={tz!s}{end}', 'repr')
            known('KF-TIME-REPR')
            return
    else:
        y = back(x)
    eq((type(y), y.hour, y.minute, y.second, y.microsecond, y.fold,
        about(y.tzinfo), y == x, hash(y) == hash(x)),
       (type(x), *t, fold, about(tz), True, True), f'{x!r}')
    nontrivial(sub or fold or t[3])


@P.check(G.dates(safe=True), quick=1500, thorough=50000)
def of_iso_calendar(d):
    x = date(*d).isocalendar()
    y, w, k = x
    eq((x.year, x.week, x.weekday, tuple(x), x[0], x[1], x[2], len(x)),
       (y, w, k, (y, w, k), y, w, k, 3), 'fields')
    eq(x == (y, w, k), True, 'equal to a tuple')
    eq(repr(x).split('(', 1)[1], f'year={y}, week={w}, weekday={k})', 'repr')
    raises((AttributeError, TypeError), lambda: setattr(x, 'year', 1),
           'assignment')
