"""C12: pickling and copying give the same object back."""
import copy
import pickle
import sys

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial
from target import B, TZWithCoords, date, datetime, time, timedelta, timezone

P = Prop('C12', rule=(
    'Drawn dates, datetimes, times, timezones and places with coordinates, '
    'in both forms, pickled with every protocol, copied and deep copied, '
    'alone and inside containers, and instances of subclasses. Oracle: the '
    'fields of the original, equality, hash and repr. Non-trivial: a '
    'protocol other than the default, Ayyam-i-Ha, a long form, a time zone, '
    'fold or microseconds.'),
    assumptions=['fold is not kept by pickle protocols below 4 (as in the '
                 'standard library).'])


class MyDate(date):
    pass


class MyDateTime(datetime):
    pass


class MyTime(time):
    pass


for _c in (MyDate, MyDateTime, MyTime):
    _c.__module__ = __name__


def ways(obj):
    """(name, copy, keeps the fold)"""
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield f'protocol {p}', pickle.loads(pickle.dumps(obj, p)), p > 3
        yield (f'pure Python protocol {p}',
               pickle._loads(pickle._dumps(obj, p)), p > 3)
    yield 'copy', copy.copy(obj), True
    yield 'deepcopy', copy.deepcopy(obj), True
    r = pickle.loads(pickle.dumps([obj, {'k': obj}, (obj,)]))
    if not (r[0] is r[1]['k'] is r[2][0]):
        fail('one object became several')
    yield 'container', r[0], True


def dfields(x):
    if x.is_short:
        return True, x.year, x.month, x.day, x.b_date
    return (False, x.kull_i_shay, x.vahid, x.year, x.month, x.day, x.b_date)


def tfields(x):
    return x.hour, x.minute, x.second, x.microsecond


@P.check(st.tuples(G.dates(), st.booleans(), st.booleans()), quick=900,
         thorough=40000)
def dates(case):
    d, long, sub = case
    cls = MyDate if sub else date
    x = cls(*M.long_of(d[0]), *d[1:]) if long else cls(*d)
    for how, y, _ in ways(x):
        eq(type(y), cls, f'{how}: type')
        eq(dfields(y), dfields(x), f'{how} of {x!r}')
        eq((y == x, hash(y), repr(y), str(y)),
           (True, hash(x), repr(x), str(x)), f'{how} of {x!r}')
        eq(y.toordinal(), x.toordinal(), f'{how}: ordinal of {x!r}')
        eq((y >= x, y < x), (True, False), f'{how}: order')


ZONES = (None, None, 'utc', 'badi', 'offset', 'offset', 'named', 'coords',
         'bare', 'min', 'max', 'no name', 'zero, no name')


def zone(kind, o):
    td = timedelta(seconds=o)
    return {None: lambda: None, 'utc': lambda: timezone.utc,
            'badi': lambda: timezone.badi,
            'offset': lambda: timezone(td),
            'named': lambda: timezone(td, f'Z{o}'),
            'no name': lambda: timezone(td, ''),
            'zero, no name': lambda: timezone(timedelta(0), ''),
            'min': lambda: timezone.min, 'max': lambda: timezone.max,
            'bare': lambda: TZWithCoords(-7.5, 99.0, None, **(
                dict(key='X') if o % 2 else {})),
            'coords': lambda: TZWithCoords(12.5, -30.25, o / 3600,
                                           key='A/B')}[kind]()


def zfields(z):
    if z is None:
        return None
    r = (type(z), z.utcoffset(None), z.tzname(None), z.dst(None), str(z),
         hash(z))
    if isinstance(z, TZWithCoords):
        r += (z.coordinates, z.key, z.lat, z.lon, z.zone)
    return r + (repr(z), z is timezone.utc, z is timezone.badi)


@P.check(st.tuples(G.dates(safe=True), G.times(), st.booleans(),
                   st.sampled_from(ZONES), G.offsets(False),
                   st.integers(0, 1), st.booleans()), quick=900,
         thorough=40000)
def datetimes(case):
    d, t, long, z, o, fold, sub = case
    cls = MyDateTime if sub else datetime
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    x = cls(*a, *t, tzinfo=zone(z, o), fold=fold)
    for how, y, keeps in ways(x):
        eq(type(y), cls, f'{how}: type')
        eq(dfields(y) + tfields(y) + (y.b_time,),
           dfields(x) + tfields(x) + (x.b_time,), f'{how} of {x!r}')
        eq(y.fold, fold if keeps else 0, f'{how}: fold')
        eq(zfields(y.tzinfo), zfields(x.tzinfo), f'{how}: zone of {x!r}')
        eq((y == x, hash(y), str(y), y.utcoffset()),
           (True, hash(x), str(x), x.utcoffset()), f'{how} of {x!r}')
        if keeps:
            eq(repr(y), repr(x), f'{how}: repr')
        eq(y + timedelta(0) == x, True, f'{how}: arithmetic')
    nontrivial(long or z is not None or fold or t[3] or d[1] == 0)


@P.check(st.tuples(st.tuples(st.integers(0, 24), G.sixty(), G.sixty(),
                             G.micros()),
                   st.sampled_from(ZONES), G.offsets(),
                   st.integers(0, 1), st.booleans()), quick=900,
         thorough=40000)
def times(case):
    t, z, o, fold, sub = case
    cls = MyTime if sub else time
    if t[0] == 24:
        t = (24, 0, 3, 0)
        if z is not None:
            z = 'utc'
    x = cls(*t, tzinfo=zone(z, o), fold=fold)
    for how, y, keeps in ways(x):
        eq(type(y), cls, f'{how}: type')
        eq(tfields(y), tfields(x), f'{how} of {x!r}')
        eq(y.fold, fold if keeps else 0, f'{how}: fold')
        eq(zfields(y.tzinfo), zfields(x.tzinfo), f'{how}: zone of {x!r}')
        eq((y == x, hash(y), str(y)), (True, hash(x), str(x)),
           f'{how} of {x!r}')
    nontrivial(z is not None or fold or t[3])


@P.check(st.tuples(st.sampled_from(ZONES[2:]), G.offsets(False)), quick=400,
         thorough=10000)
def zones(case):
    z = zone(*case)
    for how, y, _ in ways(z):
        eq(zfields(y), zfields(z), f'{how} of {case}')
        eq(y == z, True, f'{how}: equal')


@P.check(st.tuples(G.dates(safe=True), G.times(), st.booleans()), quick=600,
         thorough=20000)
def structures(case):
    """ISO calendar dates become plain tuples, and time structures stay."""
    d, t, long = case
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    x = datetime(*a, *t)
    iso = x.isocalendar()
    for how, y, _ in ways(iso):
        eq(tuple(y), tuple(iso), f'{how}: ISO date of {x!r}')
    tt = x.timetuple()
    for how, y, _ in ways(tt):
        eq((type(y), tuple(y), y.short), (type(tt), tuple(tt), tt.short),
           f'{how}: time structure of {x!r}')
