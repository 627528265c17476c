"""C19: timestamps and the clock name the Badi' moment at the place."""
import datetime as S
import time as clock

from hypothesis import strategies as st

import astro
import gens as G
import model as M
from core import Prop, eq, fail, label, near, nontrivial, raises
from target import B, D, TZWithCoords, date, datetime, timedelta, timezone

STRICT = -260
TEHRAN = (35.69435, 51.288701)
DAY = 86400
EPOCH = S.date(1970, 1, 1).toordinal()
P = Prop('C19', rule=(
    'Drawn timestamps, whole and fractional, and drawn datetimes in both '
    'forms, naive, with fixed offsets and with places, at the default place '
    'and at places set with set_local_coordinates. Oracle: the independent '
    'sunset of the place, the round trip, and differences of timestamps '
    'against the integer model. Non-trivial: more than 60 s from a sunset, '
    'where the day is beyond doubt.'),
    assumptions=['Julian days are rounded to 1e-6 day (0.0864 s) by the '
                 'package.',
                 'The timestamp of an aware datetime counts its civil day '
                 'of 24 hours from its own offset, not from sunset, so it '
                 'is checked by differences.'])

place = st.one_of(st.none(), st.none(), G.cities())
stamps = st.one_of(st.integers(0, 4 * 10 ** 9), st.integers(-10 ** 10, 3 *
                                                            10 ** 10),
                   st.integers(0, 4 * 10 ** 12).map(lambda n: n / 1000),
                   st.integers(-10 ** 10, 10 ** 10).map(lambda n: n + 0.5))


def at(n, lat, lon):
    """Timestamp of the sunset starting the local day n."""
    j = astro.sunset_near(astro.ORD0 + n + 0.5 - lon / 360, lat, lon)
    return (j - 2440587.5) * DAY


def moment(t, lat, lon):
    """(ordinal of the Badi' day, seconds since its sunset, seconds to the
    next) of a timestamp at a place."""
    n = EPOCH + int(t // DAY)
    k = n + 1
    while at(k, lat, lon) > t:
        k -= 1
    return k, t - at(k, lat, lon), at(k + 1, lat, lon) - t


def fields(x):
    y = x.year if x.is_short else M.short_of(x.kull_i_shay, x.vahid, x.year)
    return y, x.month, x.day


def secs(x):
    return x.hour * 3600 + x.minute * 60 + x.second + x.microsecond / 1e6


class local:
    """The local coordinates set for a while."""
    def __init__(self, where):
        self.where = where

    def __enter__(self):
        if self.where:
            B.set_local_coordinates(*map(float, self.where[:2]))

    def __exit__(self, *a):
        B.set_local_coordinates()


def agrees(x, t, lat, lon, what):
    """x, given for timestamp t, is the moment of t at the place."""
    n, since, left = moment(t, lat, lon)
    got = (M.to_ord(*fields(x)), secs(x) if isinstance(x, datetime) else None)
    if min(since, left) > 60 and since < DAY - 60:
        eq(fields(x), M.from_ord(n), f'{what}: day of {x!r}')
        if got[1] is not None:
            near(got[1], since, astro.tol(M.from_ord(n)[0]) + 1.3,
                 f'{what}: time of {x!r}')
        return True
    if got[0] not in (n - 1, n, n + 1):
        fail(f'{what}: {x!r}')
    return False


@P.check(st.tuples(stamps, st.booleans(), place, place,
                   st.sampled_from((None, 0, 12600, -18000))),
         quick=5000, thorough=300000)
def from_timestamp(case):
    t, short, here, there, o = case
    lat, lon = (here or TEHRAN)[:2]
    with local(here):
        d = date.fromtimestamp(t, short=short)
        x = datetime.fromtimestamp(t, short=short)
        f = None if o is None else timezone(timedelta(seconds=o))
        z = datetime.fromtimestamp(t, f, short=short)
    sure = agrees(x, t, lat, lon, f'{t} at {here}')
    sure &= agrees(d, t, lat, lon, f'{t} at {here}')
    nontrivial(sure)
    for v, c in ((d, date), (x, datetime), (z, datetime)):
        eq(type(v), c, 'type')
        eq(v.is_short, short, 'form')
    if sure:
        eq(fields(d), fields(x), 'date and datetime')
    if hasattr(f, 'coordinates'):           # timezone.utc
        agrees(z, t, *f.coordinates[:2], f'{t} with {f!r}')
    else:
        # A time zone without a place is of the local place.
        eq((z.b_date, z.b_time), (x.b_date, x.b_time), 'with an offset')
    eq((x.tzinfo, z.tzinfo), (None, f), 'tzinfo')
    if there:
        tz = TZWithCoords(*map(float, there))
        w = datetime.fromtimestamp(t, tz, short=short)
        eq(w.tzinfo is tz, True, 'tzinfo')
        eq(w.is_short, short, 'form')
        label('place')
        agrees(w, t, *there[:2], f'{t} in {there}')
        if not here:
            # It is the moment that place has as its local one.
            with local(there):
                v = datetime.fromtimestamp(t, short=short)
            near(M.to_ord(*fields(v)) * DAY + secs(v),
                 M.to_ord(*fields(w)) * DAY + secs(w), 0.2, f'{v!r} {w!r}')
    other = datetime.fromtimestamp(t, short=not short)
    if not here:
        eq(fields(other), fields(x), 'the other form')
        near(secs(other), secs(x), 1e-3, 'the other form')


@P.check(st.tuples(G.dates(STRICT, safe=True), st.tuples(
    st.integers(0, 23), G.sixty(), G.sixty(), G.micros()), st.booleans(),
    place), quick=4000, thorough=300000)
def naive(case):
    """The timestamp of a naive datetime is that of its local moment, and
    gives the datetime back."""
    d, t, long, here = case
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    lat, lon = (here or TEHRAN)[:2]
    x = datetime(*a, *t)
    with local(here):
        ts = x.timestamp()
        back = datetime.fromtimestamp(ts, short=not long)
        zero = datetime(*a).timestamp()
    n = M.to_ord(*d)
    near(ts, at(n, lat, lon) + secs(x), astro.tol(d[0]) + .3,
         f'timestamp of {x!r} at {here}')
    near(ts - zero, secs(x), 0.18, f'time of day in the timestamp of {x!r}')
    left = at(n + 1, lat, lon) - ts
    if left < 60 or secs(x) > DAY - 60:
        nontrivial(False)
        return
    if secs(x) < 1:
        # The rounded Julian day may be that of the last instant before.
        eq(M.to_ord(*fields(back)) in (n, n - 1), True, f'{back!r}')
        return
    eq(fields(back), d, f'{x!r} -> {ts} -> {back!r}')
    near(secs(back), secs(x), 0.2, f'{x!r} -> {ts} -> {back!r}')
    eq(back.is_short, not long, 'form')


inst = st.tuples(G.dates(safe=True).filter(
    lambda d: M.MINYEAR < d[0] < M.MAXYEAR), G.times(), st.booleans(),
    G.offsets(False))


def aware_of(d, t, long, o):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=timezone(timedelta(seconds=o)))


def micros_of(d, t, long, o):
    return ((M.to_ord(*d) * DAY + t[0] * 3600 + t[1] * 60 + t[2])
            * 10 ** 6 + t[3] - round(o * 10 ** 6))


@P.check(st.tuples(inst, inst), quick=3000, thorough=300000)
def aware(case):
    """Timestamps of aware datetimes are as far apart as their instants."""
    p, q = case
    x, y = aware_of(*p), aware_of(*q)
    a, b = x.timestamp(), y.timestamp()
    want = (micros_of(*p) - micros_of(*q)) / 1e6
    near(a - b, want, 5e-5, f'{x!r} - {y!r}')
    eq(type(a), float, 'type')
    eq(micros_of(*p) < micros_of(*q), x < y, 'order')
    # The same instant has the same timestamp in any zone.
    z = x.astimezone(timezone(timedelta(seconds=q[3])))
    near(z.timestamp(), a, 1e-6 * 40, f'{x!r} in another zone')
    near(x.replace(microsecond=0).timestamp() + p[1][3] / 1e6, a, 4e-5,
         'microseconds')


@P.sweep(lambda tier, seed: [0])
def epoch(_):
    """The Unix epoch at UTC is 0."""
    z = datetime.fromtimestamp(0, timezone.utc)
    e = getattr(D, '_EPOCH', None) or z
    eq(e.timestamp() if e is not z else 0.0, 0.0, 'the epoch')
    near((z - e).total_seconds(), 0, 1, f'{z!r}')


@P.check(st.tuples(st.integers(0, 4 * 10 ** 12).map(lambda n: n / 1000),
                   st.booleans(), st.one_of(st.none(), G.cities())),
         quick=1500, thorough=100000)
def now(case):
    """now and today are the moment the clock shows."""
    t, short, there = case
    tz = there and TZWithCoords(*map(float, there))
    real = clock.time
    before = real()
    clock.time = lambda: t
    try:
        x = datetime.now(tz, short=short)
        d = date.today(short=short)
        dd = datetime.today(short=short)
    finally:
        clock.time = real
    want = datetime.fromtimestamp(t, tz, short=short)
    wd = date.fromtimestamp(t, short=short)
    if (x.b_date, x.b_time) != (want.b_date, want.b_time):
        # The clock may be read in another way.
        after = real()
        lo, hi = (datetime.fromtimestamp(v, tz, short=short)
                  for v in (before - .2, after + .2))
        if not lo <= x <= hi:
            fail(f'now at {t}: {x!r}, want {want!r}')
        nontrivial(False)
        return
    eq(x, want, 'now')
    eq((x.is_short, x.tzinfo is tz), (short, True), 'now: form, zone')
    eq((type(d), d), (date, wd), 'today')
    eq(type(dd), datetime, 'datetime.today')
    eq(dd.b_date, wd.b_date, 'datetime.today')


@P.check(st.tuples(stamps.filter(lambda t: 0 <= t < 4e9),
                   st.integers(1, 400 * DAY), place), quick=2000,
         thorough=100000)
def later(case):
    """A later timestamp gives a later datetime."""
    t, dt, here = case
    with local(here):
        a, b = datetime.fromtimestamp(t), datetime.fromtimestamp(t + dt)
    n, since, left = moment(t, *(here or TEHRAN)[:2])
    if since > DAY - 300 or min(left, since) < 60:
        nontrivial(False)           # 24:00 and later: KF-SPRING-DAY-END
        return
    if not a <= b or dt > 3600 and not a < b:
        fail(f'{t} {a!r}, {t + dt} {b!r}')


@P.sweep(lambda tier, seed: ['1e18', '-1e18', "float('nan')", "float('inf')",
                             "'0'", 'None', '1e14', '-2e12'])
def refused(src):
    t = eval(src, {'float': float})
    for f in (date.fromtimestamp, datetime.fromtimestamp):
        raises(Exception, lambda: f(t), f'{f} of {src}')


@P.sweep(lambda tier, seed: ['1', "'UTC'", '3.5', 'timedelta(0)'])
def bad_zones(src):
    z = eval(src, {'timedelta': timedelta})
    raises(TypeError, lambda: datetime.fromtimestamp(0, z), src)
    raises(TypeError, lambda: datetime.now(z), src)

