"""C11: dates, datetimes and times are totally ordered, and hash as they
compare."""
import datetime as S

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial, raises
from target import Alike, date, datetime, time, timedelta, timezone

P = Prop('C11', rule=(
    'Pairs (and lists) of drawn dates, datetimes and times in both forms, '
    'naive and aware, made close to one another: equal, one field apart, the '
    'same instant at another offset, Ayyam-i-Ha against its neighbours. '
    'Oracle: calendar order by the integer model, the standard library for '
    'instants. Non-trivial: not the same object fields written the same '
    'way.'))


def cmp6(a, b):
    return (a == b, a != b, a < b, a <= b, a > b, a >= b)


def want6(p, q):
    return (p == q, p != q, p < q, p <= q, p > q, p >= q)


def tz_of(o):
    return None if o is None else timezone(timedelta(seconds=o))


class SubDate(date):
    pass


class SubDatetime(datetime):
    pass


def mkdate(d, long, cls=date):
    return cls(*M.long_of(d[0]), *d[1:]) if long else cls(*d)


def mk(d, t, long, o, cls=datetime):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return cls(*a, *t, tzinfo=tz_of(o))


@st.composite
def close_dates(draw):
    a = draw(G.dates(safe=True))
    k = draw(st.integers(0, 4))
    if k == 0:
        b = draw(G.dates(safe=True))
    elif k == 1:
        b = a
    else:
        n = M.to_ord(*a) + draw(st.one_of(st.integers(-30, 30),
                                          st.integers(-400, 400)))
        b = M.from_ord(min(M.MAX_ORD, max(M.MIN_ORD, n)))
    return a, b


@P.check(st.tuples(close_dates(), st.booleans(), st.booleans()),
         quick=8000, thorough=500000)
def dates(case):
    (a, b), la, lb = case
    x, y = mkdate(a, la), mkdate(b, lb)
    ka, kb = (a[0], M.doy(*a)), (b[0], M.doy(*b))
    eq(cmp6(x, y), want6(ka, kb), f'{x!r} and {y!r}')
    if ka == kb:
        eq(hash(x), hash(y), f'hash of {x!r} and {y!r}')
        eq(len({x, y}), 1, 'a set of both')
    nontrivial((a, la) != (b, lb))
    if a[1] == 0 or b[1] == 0:
        label('ayyam')


@st.composite
def close_times(draw):
    a = draw(G.times())
    b = list(a)
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, 3))
        b[i] = draw((G.hours(), G.sixty(), G.sixty(), G.micros())[i])
    return a, tuple(b)


@P.check(st.tuples(close_dates(), close_times(), st.booleans(),
                   st.booleans()), quick=8000, thorough=500000)
def naive(case):
    (a, b), (t, u), la, lb = case
    x, y = mk(a, t, la, None), mk(b, u, lb, None)
    ka, kb = (a[0], M.doy(*a)) + t, (b[0], M.doy(*b)) + u
    eq(cmp6(x, y), want6(ka, kb), f'{x!r} and {y!r}')
    if ka == kb:
        eq(hash(x), hash(y), f'hash of {x!r} and {y!r}')
    nontrivial((a, t, la) != (b, u, lb))


@st.composite
def instants(draw):
    """Two aware datetimes: near each other, often the same instant."""
    d, t = draw(G.dates(safe=True)), draw(G.times())
    o1, o2 = draw(G.offsets(False)), draw(G.offsets(False))
    w = M.to_std(*d, *t) + S.timedelta(
        seconds=o2 - o1 + draw(st.sampled_from((0, 0, 0, 1, -1, 3600, -3600,
                                                86400, -86400))),
        microseconds=draw(st.sampled_from((0, 0, 0, 1, -1))))
    n = w.toordinal()
    if not M.MIN_ORD <= n <= M.MAX_ORD or M.near_skip(n, 1) \
            or M.from_ord(n)[0] in M.FUDGED:
        return (d, t, o1), (d, t, o2)
    v = M.from_std(w)
    return (d, t, o1), (v[:3], v[3:], o2)


@P.check(st.tuples(instants(), st.booleans(), st.booleans()), quick=8000,
         thorough=500000)
def aware(case):
    (p, q), la, lb = case
    x, y = mk(*p[:2], la, p[2]), mk(*q[:2], lb, q[2])
    sp, sq = (M.to_std(*c[0], *c[1], S.timezone(S.timedelta(seconds=c[2])))
              for c in (p, q))
    eq(cmp6(x, y), want6(sp, sq), f'{x!r} and {y!r}')
    if sp == sq:
        eq(hash(x), hash(y), f'hash of {x!r} and {y!r}')
        label('same instant')
    x, y = x.replace(tzinfo=Alike(p[2])), y.replace(tzinfo=Alike(q[2]))
    eq(cmp6(x, y), want6(sp, sq), f'{x!r} and {y!r}, of equal zones')
    nontrivial(p != q)


offs = st.one_of(st.none(), G.offsets(), G.offsets(False))


@P.check(st.tuples(close_times(), offs, offs), quick=6000, thorough=400000)
def times(case):
    (t, u), o1, o2 = case
    x, y = time(*t, tzinfo=tz_of(o1)), time(*u, tzinfo=tz_of(o2))
    # The standard library drops the microseconds of an offset here.
    p, q = (((v[0] * 60 + v[1]) * 60 + v[2]) * 10 ** 6 + v[3]
            - round((o or 0) * 10 ** 6) for v, o in ((t, o1), (u, o2)))
    if (o1 is None) != (o2 is None):
        eq((x == y, x != y), (False, True), f'{x!r} == {y!r}')
        for op in (lambda: x < y, lambda: x <= y, lambda: x > y,
                   lambda: x >= y):
            raises(TypeError, op, f'{x!r} and {y!r}')
        return
    eq(cmp6(x, y), want6(p, q), f'{x!r} and {y!r}')
    if p == q:
        eq(hash(x), hash(y), f'hash of {x!r} and {y!r}')
    if o1 is not None:
        eq(cmp6(time(*t, tzinfo=Alike(o1)), time(*u, tzinfo=Alike(o2))),
           want6(p, q), f'{x!r} and {y!r}, of equal zones')
    nontrivial((t, o1) != (u, o2))


@P.check(st.tuples(close_times(), G.offsets(False), st.one_of(
    st.integers(-1440, 1440).map(lambda n: n * 60),
    st.integers(-86400, 86400)), st.integers(0, 9)),
    quick=4000, thorough=100000)
def same_time_elsewhere(case):
    """Equal times at different offsets have one hash, hour 24 included."""
    (t, _), o, shift, k = case
    if k == 0:
        t = (24, 0, 0, 0)
    n = t[0] * 3600 + t[1] * 60 + t[2] + shift
    o2 = o + shift
    if not 0 <= n <= 86400 or n == 86400 and t[3] or abs(o2) >= 86400:
        nontrivial(False)
        return
    x = time(*t, tzinfo=tz_of(o))
    y = time(n // 3600, n // 60 % 60, n % 60, t[3], tzinfo=tz_of(o2))
    eq(x == y, True, f'{x!r} == {y!r}')
    eq(hash(x), hash(y), f'hash of {x!r} and {y!r}')
    eq(cmp6(x, y), (True, False, False, True, False, True),
       f'{x!r} and {y!r}')
    nontrivial(shift != 0)


@P.check(st.tuples(st.lists(G.dates(), min_size=3, max_size=12),
                   st.integers(0, 4095)), quick=600, thorough=20000)
def sorting(case):
    ds, bits = case
    ds = ds + [M.from_ord(min(M.MAX_ORD, M.to_ord(*ds[0]) + k))
               for k in (1, 2, 19)]
    xs = [mkdate(d, bits >> i & 1) for i, d in enumerate(ds)]
    want = sorted(range(len(ds)), key=lambda i: (ds[i][0], M.doy(*ds[i])))
    eq(sorted(range(len(ds)), key=lambda i: xs[i]), want, f'order of {ds}')
    eq(len(set(xs)), len(set(ds)), f'distinct of {ds}')
    eq(max(xs), xs[want[-1]], 'max')


@P.check(st.tuples(G.dates(), G.times(), st.booleans(), st.booleans(),
                   G.offsets(), st.integers(0, 7)), quick=1500,
         thorough=50000)
def unlike_types(case):
    """A date and a datetime, naive and aware, are unequal and unordered."""
    d, t, la, lb, o, sub = case
    a = mkdate(d, la, SubDate if sub & 1 else date)
    b = mk(d, t, lb, None, SubDatetime if sub & 2 else datetime)
    c = mk(d, t, la, o, SubDatetime if sub & 4 else datetime)
    for x, y in ((a, b), (b, a), (a, c), (c, a), (b, c), (c, b), (a, 1),
                 (b, 'x'), (c, None), (a, (d,)), (time(*t), 0),
                 (time(*t), b)):
        eq((x == y, x != y), (False, True), f'{x!r} == {y!r}')
        for op in (lambda: x < y, lambda: x <= y, lambda: x > y,
                   lambda: x >= y):
            raises(TypeError, op, f'{x!r} and {y!r}')


class Ends:
    """An object that knows how it compares with anything."""
    def __init__(self, sign):
        self.sign = sign

    def __eq__(self, other):
        return self.sign == 0

    def __lt__(self, other):
        return self.sign < 0

    def __gt__(self, other):
        return self.sign > 0

    def __le__(self, other):
        return self.sign <= 0

    def __ge__(self, other):
        return self.sign >= 0


@P.check(st.tuples(G.dates(), G.times(), st.booleans(),
                   st.one_of(st.none(), G.offsets()),
                   st.integers(-1, 1)), quick=800, thorough=20000)
def asks_the_other(case):
    """An object of another class decides how it compares."""
    d, t, long, o, sign = case
    e = Ends(sign)
    for x in (mkdate(d, long), mk(d, t, long, o), time(*t, tzinfo=tz_of(o))):
        eq((x == e, x != e, x < e, x <= e, x > e, x >= e),
           (sign == 0, sign != 0, sign > 0, sign >= 0, sign < 0, sign <= 0),
           f'{x!r} and an object that is {sign}')
    if o is not None:
        eq((tz_of(o) == e, tz_of(o) != e), (sign == 0, sign != 0), 'a zone')


class NoOffset(S.tzinfo):
    """A zone that knows no offset: what has it is naive."""
    def utcoffset(self, dt):
        return None

    tzname = dst = utcoffset


@P.check(st.tuples(close_dates(), close_times(), st.booleans(),
                   st.booleans(), G.offsets()), quick=1500, thorough=50000)
def no_offset(case):
    (a, b), (t, u), la, lb, o = case
    z = NoOffset()
    for (x, w), (y, v), c in (
            ((mk(a, t, la, None).replace(tzinfo=z), mk(a, t, la, o)),
             (mk(b, u, lb, None), mk(b, u, lb, None).replace(
                 tzinfo=NoOffset())),
             want6((a[0], M.doy(*a)) + t, (b[0], M.doy(*b)) + u)),
            ((time(*t, tzinfo=z), time(*t, tzinfo=tz_of(o))),
             (time(*u), time(*u, tzinfo=NoOffset())), want6(t, u))):
        for k in (y, v):
            eq(cmp6(x, k), c, f'{x!r} and {k!r}')
            if x == k:
                eq(hash(x), hash(k), f'hash of {x!r} and {k!r}')
        for p, q in ((x, w), (w, x), (w, v)):
            eq((p == q, p != q), (False, True), f'{p!r} == {q!r}')
            for op in (lambda: p < q, lambda: p <= q, lambda: p > q,
                       lambda: p >= q):
                raises(TypeError, op, f'{p!r} and {q!r}')


@P.check(st.tuples(G.dates(safe=True), G.times(), st.booleans(),
                   st.one_of(st.none(), G.offsets())), quick=1500,
         thorough=50000)
def fold(case):
    """fold changes neither the hash nor, here, the order."""
    d, t, long, o = case
    x = mk(d, t, long, o)
    y = x.replace(fold=1)
    eq(x == y, True, f'{y!r}')
    eq(hash(x), hash(y), f'hash of {y!r}')
    p, q = time(*t, tzinfo=tz_of(o)), time(*t, tzinfo=tz_of(o), fold=1)
    eq(p == q, True, f'{q!r}')
    eq(hash(p), hash(q), f'hash of {q!r}')
