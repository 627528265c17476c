"""C23: the time class works as the standard library's time."""
import datetime as S

from hypothesis import strategies as st

import gens as G
from core import Prop, eq, fail, label, nontrivial, raises
from target import B, TZWithCoords, time, timedelta, timezone, tzinfo

REJECT = (AssertionError, ValueError, TypeError)
P = Prop('C23', rule=(
    'Drawn times, naive and aware (fixed offsets, places, tzinfo classes), '
    'with and without fold, and drawn replacements and pairs of them. '
    'Oracle: the standard library\'s time of the same fields; for hour 24, '
    'which it does not have, seconds of the day. Non-trivial: an aware time, '
    'fold, hour 24 or a replacement that changes a field.'),
    assumptions=['Comparison and hash are checked with offsets of whole '
                 'minutes and of seconds.'])

offs = st.one_of(st.none(), st.none(), G.offsets(), G.offsets(False))
fold = st.sampled_from((0, 0, 1))
FIELDS = ('hour', 'minute', 'second', 'microsecond')


def zone(o):
    return None if o is None else timezone(timedelta(seconds=o))


def szone(o):
    return None if o is None else S.timezone(S.timedelta(seconds=o))


def tup(x):
    return x.hour, x.minute, x.second, x.microsecond


def six(a, b):
    return a < b, a <= b, a == b, a != b, a >= b, a > b


class Sub(time):
    pass


@P.check(st.tuples(G.times(), offs, fold, st.booleans()), quick=4000,
         thorough=300000)
def fields(case):
    t, o, f, sub = case
    cls = Sub if sub else time
    z = zone(o)
    x = cls(*t, z, fold=f)
    s = S.time(*t, szone(o), fold=f)
    nontrivial(o is not None or f)
    eq((type(x), tup(x), x.fold, x.tzinfo is z), (cls, t, f, True), 'fields')
    for n in (1, 2, 3, 4):
        y = cls(*t[:n])
        eq((tup(y), y.tzinfo, y.fold), (t[:n] + (0,) * (4 - n), None, 0),
           f'{n} fields')
    y = cls(**dict(zip(FIELDS, t)), tzinfo=z, fold=f)
    eq((tup(y), y.tzinfo is z, y.fold, y == x), (t, True, f, True),
       'by keyword')
    for spec in ('auto', 'hours', 'minutes', 'seconds', 'milliseconds',
                 'microseconds'):
        eq(x.isoformat(spec), s.isoformat(spec), f'isoformat {spec}')
    eq((str(x), f'{x}', x.isoformat()), (s.isoformat(),) * 3, 'str')
    eq(f'{x:%H_%M_%S_%f}', f'{t[0]:02}_{t[1]:02}_{t[2]:02}_{t[3]:06}',
       'format')
    eq(x.strftime('%H %M'), format(x, '%H %M'), 'format and strftime')
    eq((x.utcoffset(), hash(x) == hash(x.replace(fold=0))),
       (s.utcoffset(), True), 'offset and hash')
    if o != 0:
        eq((x.tzname(), x.dst()), (s.tzname(), s.dst()), 'tzname')
    if o is None and not sub:
        want = repr(S.time(*t, fold=f)).replace('datetime.', '')
        eq(repr(x)[repr(x).index('time('):], want, 'repr')
    eq(bool(x), True, 'truth')
    raises((ValueError, TypeError), lambda: x.isoformat('day'), 'timespec')
    raises(TypeError, lambda: x.__format__(3), 'format of an int')


@P.check(st.tuples(G.times(), offs, fold, G.times(), offs, fold,
                   st.integers(0, 63)), quick=5000, thorough=300000)
def replaced(case):
    """replace gives a time with the fields named, and leaves the old one."""
    t, o, f, u, p, g, bits = case
    x, s = time(*t, zone(o), fold=f), S.time(*t, szone(o), fold=f)
    a = {k: v for i, (k, v) in enumerate(zip(FIELDS, u)) if bits >> i & 1}
    b = dict(a)
    if bits & 16:
        a['tzinfo'], b['tzinfo'] = zone(p), szone(p)
    if bits & 32:
        a['fold'] = b['fold'] = g
    y, r = x.replace(**a), s.replace(**b)
    eq((tup(y), y.fold, y.utcoffset(), y.isoformat()),
       (tup(r), r.fold, r.utcoffset(), r.isoformat()),
       f'{x!r}.replace({a})')
    z = a['tzinfo'] if bits & 16 else x.tzinfo
    eq((y.tzinfo is z, type(y)), (True, time), 'tzinfo')
    eq((tup(x), x.fold, x.isoformat()), (t, f, s.isoformat()),
       'the old one')
    n = bin(bits & 15).count('1')
    k = [a.get(key) for key in FIELDS]
    eq(tup(x.replace(*k)), tup(s.replace(**{c: v for c, v in zip(FIELDS, k)
                                            if v is not None})),
       'by position')
    v = Sub(*t, zone(o), fold=f).replace(**a)
    eq((type(v), tup(v), v.fold), (Sub, tup(r), r.fold), 'subclass')
    nontrivial(n or bits & 48)


@P.check(st.tuples(G.times(), st.sampled_from(FIELDS + ('tzinfo', 'fold')),
                   st.sampled_from((-1, 25, 60, 61, 62, 10 ** 6, 2, 24, 59))),
         quick=1500, thorough=40000)
def bad_replacements(case):
    t, k, v = case
    x = time(*t)
    lim = dict(hour=24, minute=59, second=60, microsecond=999999,
               tzinfo=-2, fold=1)[k]
    if 0 <= v <= lim:
        if (k, v) == ('hour', 24):
            return nontrivial(False)
        eq(getattr(x.replace(**{k: v}), k), v, 'replaced')
        return
    raises(REJECT, lambda: x.replace(**{k: v}), f'{x!r}.replace({k}={v})')


@P.check(st.tuples(st.tuples(st.integers(0, 24), G.sixty(), G.sixty(),
                             G.micros()), offs, fold,
                   st.tuples(st.integers(0, 24), G.sixty(), G.sixty(),
                             G.micros()), offs, fold, st.integers(0, 7)),
         quick=6000, thorough=400000)
def order(case):
    """Aware times compare as seconds of the day less their offset."""
    t, o, f, u, p, g, how = case
    if how == 0:
        u = t
    elif how <= 2:                     # the same moment elsewhere, or nearly
        k = t[0] * 3600 + t[1] * 60 + t[2] + int(p or 0) - int(o or 0) + how - 1
        if 0 <= k < 25 * 3600:
            u = (k // 3600, k // 60 % 60, k % 60, t[3])
        label('near')
    t, u = ((24, 0, min(v[2], 3), 0) if v[0] == 24 else v for v in (t, u))
    x, y = time(*t, zone(o), fold=f), time(*u, zone(p), fold=g)
    if (o is None) != (p is None):
        eq((x == y, x != y), (False, True), 'naive and aware')
        for op in (lambda: x < y, lambda: x <= y, lambda: x >= y,
                   lambda: x > y):
            raises(TypeError, op, f'{x!r} and {y!r}')
        return
    i, j = ((v[0] * 3600 + v[1] * 60 + v[2]) * 10 ** 6 + v[3]
            - round((q or 0) * 10 ** 6) for v, q in ((t, o), (u, p)))
    eq(six(x, y), six(i, j), f'{x!r} {o} and {y!r} {p}')
    if i == j:
        eq((hash(x) == hash(y), len({x, y})), (True, 1), 'hash')
        label('equal')
    z = y.replace(tzinfo=x.tzinfo)
    i, j = t, u
    eq(six(x, z), six(i, j), 'in one zone')
    nontrivial(o is not None or f != g)


@P.check(st.tuples(G.times(), st.sampled_from(
    FIELDS + ('tzinfo', 'fold', 'other'))), quick=300, thorough=5000)
def immutable(case):
    t, k = case
    x = time(*t)
    raises((AttributeError, TypeError), lambda: setattr(x, k, 1), k)
    eq(tup(x), t, 'unchanged')


class Zone(tzinfo):
    def __init__(self, *v):
        self.v, self.asked = v, []

    def utcoffset(self, dt):
        self.asked.append(dt)
        return self.v[0]

    def tzname(self, dt):
        self.asked.append(dt)
        return self.v[1]

    def dst(self, dt):
        self.asked.append(dt)
        return self.v[2]


some = st.one_of(st.none(), st.integers(-86399, 86399))


@P.check(st.tuples(G.times(), some, st.one_of(st.none(), st.text(max_size=4)),
                   some), quick=800, thorough=30000)
def other_zones(case):
    """Any tzinfo is asked with None, and what it says is given."""
    t, o, name, d = case
    td = [None if v is None else timedelta(seconds=v) for v in (o, d)]
    z = Zone(td[0], name, td[1])
    x = time(*t, z)
    eq((x.utcoffset(), x.tzname(), x.dst()), (td[0], name, td[1]), 'answers')
    eq(z.asked, [None] * 3, 'what the zone was asked with')
    if o is None:
        # A zone that gives no offset leaves the time naive.
        y = time(*t)
        eq((x == y, x < y, x.isoformat()), (True, False, y.isoformat()),
           'naive')
        eq(hash(x) == hash(y), True, 'hash')
        raises(TypeError, lambda: x < time(*t, timezone.utc), 'order')
    for bad in (5, 'x', timedelta(days=1), timedelta(days=-1)):
        w = time(*t, Zone(bad, bad, bad))
        raises((TypeError, ValueError), w.utcoffset, 'a bad offset')
        raises((TypeError, ValueError), w.dst, 'a bad dst')
        if not isinstance(bad, str):
            raises(TypeError, w.tzname, 'a bad name')


@P.sweep(lambda tier, seed: [0])
def constants(_):
    eq((tup(time.min), time.min.tzinfo), ((0, 0, 0, 0), None), 'min')
    eq(tup(time()), (0, 0, 0, 0), 'midnight')
    eq(time.resolution, timedelta(microseconds=1), 'resolution')
    eq(time.max > time(23, 59, 59, 999999), True, 'max')
    eq((time.max.hour, time.max.tzinfo), (24, None), 'max')


@P.sweep(lambda tier, seed: [
    "'12'", "b'x'", '1, 2, 3, 4, 5', "0, 0, 0, 0, 'UTC'", '0, 0, 0, 0, 0',
    "0, 0, 0, 0, None, 0", "fold=True and 7", "None", "0, None",
    "hours=3", "25", "0, 60", "0, 0, 61", "0, 0, 0, 1000000", "-1", "0, -1",
    "0, 0, -1", "0, 0, 0, -1"])
def bad_arguments(src):
    raises(REJECT, lambda: eval(f'time({src})'), src)
