"""C20: time zones give their offsets, and conversion keeps the instant."""
import datetime as S

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, near, nontrivial, raises
from target import (B, D, TZWithCoords, date, datetime, time, timedelta,
                    timezone, tzinfo)

P = Prop('C20', rule=(
    'Drawn offsets to the microsecond, inside and outside of 24 hours, with '
    'and without names, datetimes and times in both forms carrying them, '
    'places, and zones of a tzinfo subclass whose offset depends on the '
    'month. Oracle: the standard library\'s timezone and datetime with the '
    'same day number. Non-trivial: an offset that is not a whole hour, a '
    'conversion that changes the date, a name, or a refusal.'))
INT = st.integers
DAY_US = 86400 * 10 ** 6

offset_us = st.one_of(
    G.offsets(False).map(lambda s: round(s * 10 ** 6)),
    st.integers(-DAY_US + 1, DAY_US - 1),
    st.sampled_from((0, 1, -1, DAY_US - 1, 1 - DAY_US, 999999, -999999)))
names = st.one_of(st.none(), st.none(), st.text(max_size=6),
                  st.sampled_from(('EST', 'UTC', '', "it's", 'Asia/Tehran')))


def off(us):
    return timedelta(microseconds=us)


def pair(us, name):
    """The same zone of the package and of the standard library."""
    a = (off(us),) if name is None else (off(us), name)
    b = (S.timedelta(microseconds=us),) + a[1:]
    return timezone(*a), S.timezone(*b)


def mk(d, t, long, tz=None):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=tz)


def tup(x):
    y = x.year if x.is_short else M.short_of(x.kull_i_shay, x.vahid, x.year)
    return y, x.month, x.day, x.hour, x.minute, x.second, x.microsecond


def NODST(z):
    """timezone.utc is a place, which knows that it has no summer time."""
    return timedelta(0) if z is timezone.utc else None


@P.check(st.tuples(offset_us, names, G.dates(safe=True), G.times(),
                   st.booleans()), quick=4000, thorough=300000)
def zones(case):
    """A zone gives its offset and its name, alone and in an object."""
    us, name, d, t, long = case
    z, s = pair(us, name)
    nontrivial(us % (3600 * 10 ** 6) != 0 or name is not None)
    x, y = mk(d, t, long, z), time(*t, tzinfo=z)
    sx, sy = M.to_std(*d, *t, tz=s), S.time(*t, tzinfo=s)
    for arg in (None, x):
        eq(z.utcoffset(arg), s.utcoffset(None), 'utcoffset')
        eq(z.tzname(arg), s.tzname(None), 'tzname')
        eq(z.dst(arg), NODST(z), 'dst')
        eq(z.badioffset(arg), off(us) - timedelta(hours=3, minutes=30),
           'badioffset')
    for a, b in ((x, sx), (y, sy)):
        eq(a.tzinfo is z, True, 'tzinfo')
        eq((a.utcoffset(), a.tzname(), a.dst()),
           (b.utcoffset(), b.tzname(), NODST(z)), f'{a!r}')
    eq(y.badioffset(), z.badioffset(None), 'badioffset')
    if z is not timezone.utc:                 # timezone.utc is a place
        eq(str(z), str(s), 'str')
        eq(repr(z), repr(s).replace('datetime.', 'badidatetime.'), 'repr')
    eq(z, z, 'equal to itself')
    eq(z == None, False, 'equal to None')         # noqa: E711
    iso = S.datetime(2000, 1, 1, *t, tzinfo=s).isoformat()
    eq(x.isoformat()[-len(iso) + 10:], iso[10:], f'isoformat of {x!r}')
    eq(y.isoformat(), sy.isoformat(), f'isoformat of {y!r}')
    n = mk(d, t, long)
    eq((n.utcoffset(), n.tzname(), n.dst(), time(*t).utcoffset(),
        time(*t).tzname(), time(*t).dst()), (None,) * 6, 'naive')


@P.check(st.tuples(offset_us, offset_us, names, names, st.booleans()),
         quick=3000, thorough=100000)
def same_zones(case):
    """Zones are equal, and hash so, exactly when their offsets are."""
    a, b, n, m, same = case
    b = a if same else b
    (z, s), (w, t) = pair(a, n), pair(b, m)
    eq(z == w, a == b, f'{z!r} == {w!r}')
    eq(z != w, a != b, f'{z!r} != {w!r}')
    if a == b:
        eq(hash(z), hash(w), 'hash')
        eq(z == timezone(z.utcoffset(None)), True, 'rebuilt')
    z2 = eval(repr(z).replace('badidatetime.', ''), dict(
        timezone=timezone, timedelta=timedelta))
    eq((z2, z2.tzname(None)), (z, z.tzname(None)), f'eval of {z!r}')
    eq((z == 1, z == S.timezone.utc), (False, False), 'unlike types')


@P.check(st.one_of(st.integers(DAY_US, DAY_US * 40), st.integers(
    -DAY_US * 40, -DAY_US)), quick=200, thorough=5000)
def out_of_range(us):
    raises(ValueError, lambda: timezone(off(us)), f'{us}')
    raises(ValueError, lambda: timezone(off(us), 'x'), f'{us}')
    raises(ValueError, lambda: TZWithCoords(1., 2., us / 3.6e9), f'{us}')


inst = st.tuples(G.dates(safe=True).filter(
    lambda d: M.MINYEAR < d[0] < M.MAXYEAR), G.times(), st.booleans(),
    offset_us)


@P.check(st.tuples(inst, offset_us, offset_us, names), quick=2200,
         thorough=300000)
def conversion(case):
    """astimezone gives the same instant on the other zone's clock."""
    (d, t, long, a), b, c, name = case
    (z, s), (w, v) = pair(a, None), pair(b, name)
    x, sx = mk(d, t, long, z), M.to_std(*d, *t, tz=s)
    y, sy = x.astimezone(w), sx.astimezone(v)
    if M.near_finding(M.to_ord(*d), 3):
        nontrivial(False)
        return
    eq(tup(y), M.from_std(sy), f'{x!r} in {w!r}')
    eq(type(y), datetime, 'type')
    eq(y.tzinfo is w, True, 'tzinfo')
    eq(y.is_short, x.is_short, 'form')
    eq((y == x, hash(y) == hash(x), y - x), (True, True, timedelta(0)),
       f'{x!r} and {y!r}')
    if tup(y)[:3] == d:
        label('same day')
    u, _ = pair(c, 'other')
    eq(tup(y.astimezone(u).astimezone(z)), tup(x), 'there and back')
    e = x.astimezone(z)
    eq((tup(e), e.tzinfo is z), (tup(x), True), 'to its own zone')
    # replace puts another zone to the same clock.
    r = x.replace(tzinfo=w)
    eq((tup(r), r.tzinfo is w, r.is_short), (tup(x), True, x.is_short),
       'replace')
    eq(r - x, off(a - b), 'instant of the replaced')
    # fromutc is the offset added to the clock.
    f = w.fromutc(mk(d, t, long, w))
    eq(tup(f), M.from_std(M.to_std(*d, *t) + S.timedelta(microseconds=b)),
       f'fromutc of {x!r}')
    eq(f.tzinfo is w, True, 'fromutc: tzinfo')


@P.check(st.tuples(G.dates(-200, 400), G.times(), st.booleans(), offset_us,
                   st.one_of(st.none(), G.cities())), quick=600,
         thorough=100000)
def local(case):
    """A naive datetime is of the local zone."""
    d, t, long, b, here = case
    w, _ = pair(b, None)
    if here:
        B.set_local_coordinates(*map(float, here[:2]))
    try:
        zone = D.LOCAL.utcoffset(None)
        eq(zone, timedelta(hours=0 if here else 3.5), 'local offset')
        x = mk(d, t, long)
        y = x.astimezone(w)
        want = mk(d, t, long, timezone(zone)).astimezone(w)
        eq(tup(y), tup(want), f'{x!r} in {w!r}')
        eq(y.tzinfo is w, True, 'tzinfo')
        z = x.astimezone()
        eq((tup(z), z.utcoffset()), (tup(x), zone), f'{x!r} made aware')
        q = want.astimezone()
        eq((q == want, q.utcoffset(), tup(q)), (True, zone, tup(x)),
           f'{want!r} in the local zone')
    finally:
        B.set_local_coordinates()


class Zone(tzinfo):
    """An offset that depends on the month."""
    def __init__(self, us, extra=0, name='Z'):
        self.us, self.extra, self.name, self.seen = us, extra, name, []

    def utcoffset(self, dt):
        self.seen.append(dt)
        if self.us is None:
            return None
        return off(self.us) + (self.dst(dt) if dt is not None else off(0))

    def dst(self, dt):
        if dt is None:
            return None
        return off(self.extra if 1 <= dt.month <= 9 else 0)

    def tzname(self, dt):
        return self.name

    def fromutc(self, dt):
        self.given = dt
        return dt + self.utcoffset(dt)


class Alike(Zone):
    """All of them are equal, whatever their offsets."""
    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 7


small = st.integers(-11 * 3600, 11 * 3600).map(lambda n: n * 10 ** 6)


@P.check(st.tuples(inst, inst, small, small, st.sampled_from(
    (0, 3600 * 10 ** 6, 1800 * 10 ** 6)), st.booleans()), quick=1600, thorough=200000)
def other_zones(case):
    """Offsets that depend on the moment are asked for with the moment."""
    p, q, a, b, extra, alike = case
    cls = Alike if alike else Zone
    z, w = cls(a, extra), cls(b, extra, 'W')
    x, y = mk(*p[:3], z), mk(*q[:3], w)
    ox, oy = (o + (extra if 1 <= v[0][1] <= 9 else 0)
              for o, v in ((a, p), (b, q)))
    eq((x.utcoffset(), y.utcoffset()), (off(ox), off(oy)), 'utcoffset')
    eq(z.seen[-1] is x, True, 'utcoffset is asked for with the datetime')
    eq((x.dst(), x.tzname()), (off(ox - a), 'Z'), f'{x!r}')

    def us(v, o):
        n = M.to_ord(*v[0]) * 86400 + sum(
            k * m for k, m in zip(v[1], (3600, 60, 1)))
        return n * 10 ** 6 + v[1][3] - o
    i, j = us(p, ox), us(q, oy)
    eq(x - y, off(i - j), f'{x!r} - {y!r}')
    eq((x < y, x == y, x > y), (i < j, i == j, i > j), f'{x!r} and {y!r}')
    u = x.astimezone(timezone.utc)
    if not M.near_finding(M.to_ord(*p[0]), 3):
        eq(tup(u), M.from_std(M.to_std(*p[0], *p[1]) - S.timedelta(
            microseconds=ox)), f'{x!r} at UTC')
    v = x.replace(fold=1).astimezone(w)
    eq((v.fold, w.given.fold, w.given.tzinfo is w, tup(w.given)),
       (0, 0, True, tup(u)), f'what fromutc is given for {x!r}, fold=1')
    eq((w.given.is_short, v.is_short), (x.is_short,) * 2, 'form')
    eq((v.tzinfo is w, x.astimezone(z) is x), (True, True), 'zones')
    tx, ty = x.timetz(), y.timetz()
    if not extra:
        i, j = (sum(k * m for k, m in zip(v[1], (
            3600 * 10 ** 6, 60 * 10 ** 6, 10 ** 6, 1))) - o
            for v, o in ((p, a), (q, b)))
        eq((tx < ty, tx == ty, tx > ty), (i < j, i == j, i > j),
           f'{tx!r} and {ty!r}')
    same = mk(*q[:3], z)
    eq(x - same, off(us(p, 0) - us(q, 0)),
       'difference in one zone is of the clocks')
    # A zone that knows no offset makes the datetime naive.
    none = Zone(None)
    n = mk(*p[:3], none)
    eq((n.utcoffset(), n == mk(*p[:3])), (None, True), 'no offset')
    raises(TypeError, lambda: n < x, 'no offset < aware')
    eq(n == x, False, 'no offset == aware')


class Fold:
    """For an hour or two of each day the offset depends on the fold."""
    def __init__(self, us, extra, hour):
        self.us, self.extra, self.hour = us, extra, hour

    def utcoffset(self, dt):
        late = dt.hour > self.hour + 1 or dt.fold and dt.hour >= self.hour
        return self.td(microseconds=self.us + (self.extra if late else 0))

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return 'F'

    def fromutc(self, dt):
        return dt + self.utcoffset(dt)


class FoldZone(Fold, tzinfo):
    td = timedelta


class StdFold(Fold, S.tzinfo):
    td = S.timedelta


@P.check(st.tuples(st.tuples(G.dates(safe=True), G.times(), st.booleans(),
                             INT(0, 1)),
                   st.tuples(INT(-1, 1), G.times(), st.booleans(),
                             INT(0, 1)),
                   small, small, st.sampled_from((-3600 * 10 ** 6, -3600 * 10 ** 6,
                                                  0, 1)),
                   INT(-1, 2), st.booleans()), quick=600, thorough=200000)
def folds(case):
    """Comparison, difference and hash where the offset depends on the fold."""
    (d, t, long, f), (k, u, long2, g), a, b, extra, h, same = case
    h = t[0] - h
    n = M.to_ord(*d) + k
    if not M.MIN_ORD + 4 < n < M.MAX_ORD - 4 or M.near_finding(n, 5):
        nontrivial(False)
        return
    if same:                # the same instant, if b's zone has no fold there
        m = S.datetime.combine(M.to_std(*d), S.time(*t)) \
            + S.timedelta(microseconds=b - StdFold(a, extra, h).utcoffset(
                S.time(*t, fold=f)).__floordiv__(S.timedelta(
                    microseconds=1)))
        v = M.from_std(m)
        e, u = v[:3], v[3:]
    else:
        e = M.from_ord(n)
    z, w, sz, sw = (FoldZone(a, extra, h), FoldZone(b, 0, 0),
                    StdFold(a, extra, h), StdFold(b, 0, 0))
    x, y, x2 = (mk(d, t, long, z).replace(fold=f),
                mk(e, u, long2, w).replace(fold=g),
                mk(e, u, long2, z).replace(fold=g))
    sx, sy, sx2 = (M.to_std(*d, *t, tz=sz).replace(fold=f),
                   M.to_std(*e, *u, tz=sw).replace(fold=g),
                   M.to_std(*e, *u, tz=sz).replace(fold=g))
    odd = sx.utcoffset() != sx.replace(fold=1 - f).utcoffset()
    nontrivial(odd)
    for p, q, sp, sq in ((x, y, sx, sy), (y, x, sy, sx), (x, x2, sx, sx2)):
        what = f'{p!r} and {q!r}'
        eq(p.utcoffset() // timedelta(microseconds=1),
           sp.utcoffset() // S.timedelta(microseconds=1), f'offset of {p!r}')
        eq((p == q, p != q, p < q, p <= q, p > q, p >= q),
           (sp == sq, sp != sq, sp < sq, sp <= sq, sp > sq, sp >= sq), what)
        eq((p - q) // timedelta(microseconds=1),
           (sp - sq) // S.timedelta(microseconds=1), f'difference, {what}')
        if p == q:
            eq(hash(p), hash(q), f'hashes of equal {what}')
    eq(hash(x), hash(x.replace(fold=1 - f)), f'hash of {x!r}, either fold')
    eq(x == x.replace(fold=1 - f), True, 'fold does not count in one zone')
    r = x.astimezone(w)
    eq((tup(r), r.fold), (M.from_std(sx.astimezone(sw)), 0), f'{x!r} in W')
    # Whatever has no offset is of the local zone.
    i = mk(d, t, long, Zone(None))
    eq(tup(i.astimezone(w)), tup(mk(d, t, long).astimezone(w)),
       f'{i!r} in another zone')


class Bad(tzinfo):
    def __init__(self, v):
        self.v = v

    def utcoffset(self, dt):
        return self.v
    dst = tzname = utcoffset


@P.sweep(lambda tier, seed: [(s, e) for s in ('5', "'UTC'", '3.5',
                                              '0', '0.0', "''", 'False',
                                              '[]', '()',
                                              'S.timedelta(days=1)',
                                              'S.timedelta(days=-1)',
                                              'S.timedelta(days=9)')
                             for e in ('datetime', 'time')])
def bad_results(case):
    src, cls = case
    v = eval(src)
    x = {'datetime': datetime(181, 1, 1, tzinfo=Bad(v)),
         'time': time(1, 2, tzinfo=Bad(v))}[cls]
    want = ValueError if isinstance(v, S.timedelta) else TypeError
    raises(want, x.utcoffset, f'utcoffset {src}')
    raises(want, x.dst, f'dst {src}')
    if isinstance(v, str):
        eq(x.tzname(), v, 'tzname')
    else:
        raises(TypeError, x.tzname, f'tzname {src}')


@P.sweep(lambda tier, seed: [
    'timezone(3)', 'timezone("1")', 'timezone(None)', 'timezone(off(0), 3)',
    'timezone(off(0), None)', 'datetime(1, 1, 1, tzinfo=3)',
    'datetime(1, 1, 1, tzinfo="UTC")', 'time(1, tzinfo=3)',
    'timezone.utc.utcoffset(3)', 'timezone.utc.tzname(date(1, 1, 1))',
    'timezone(off(9)).badioffset(1)',
    'timezone(off(9)).fromutc(3)', 'timezone(off(9)).fromutc(date(1, 1, 1))',
    'timezone(off(9)).fromutc(S.datetime(1, 1, 1))',
    'timezone(off(9)).tzname(S.datetime(1, 1, 1))',
    'timezone(off(9)).dst("")',
    'datetime(1, 1, 1, tzinfo=timezone.utc).astimezone(3)',
    'datetime(1, 1, 1).astimezone("UTC")',
    'datetime(1, 1, 1).replace(tzinfo=3)'])
def bad_arguments(src):
    raises(TypeError, lambda: eval(src), src)


@P.sweep(lambda tier, seed: [
    'timezone(off(9)).fromutc(datetime(1, 1, 1))',
    'timezone(off(9)).fromutc(datetime(1, 1, 1, tzinfo=timezone(off(9))))'])
def not_its_own(src):
    raises(ValueError, lambda: eval(src), src)


@P.sweep(lambda tier, seed: [0])
def constants(_):
    eq(timezone.utc is timezone(off(0)), True, 'utc')
    eq(timezone.utc.utcoffset(None), off(0), 'utc')
    eq(timezone.badi.utcoffset(None), timedelta(hours=3.5), 'badi')
    eq(timezone.badi == timezone(timedelta(hours=3.5)), True, 'badi')
    lim = timedelta(hours=23, minutes=59)
    eq((timezone.min.utcoffset(None), timezone.max.utcoffset(None)),
       (-lim, lim), 'limits')
    eq((B.UTC is timezone.utc, B.BADI is timezone.badi), (True, True),
       'constants of the package')
    assert date and fail and label and near
