"""C21: places carry their coordinates, offset, key and summer time."""
import copy
import datetime as S
import pickle
import zoneinfo

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial, raises
from target import B, TZWithCoords, datetime, time, timedelta, timezone

P = Prop('C21', rule=(
    'Drawn coordinates, offsets and keys, several places side by side made '
    'from drawn zones of the IANA database in drawn orders, and drawn dates '
    'with times. Oracle: the values the place was made from, the standard '
    'library\'s timezone, and zoneinfo\'s summer time on the days around. '
    'Non-trivial: a key, a fractional offset, a zone with summer time.'),
    assumptions=['The offset of a place is its standard offset; dst() only '
                 'says whether summer time is in force.',
                 'Within two days of a change of the clocks either is '
                 'taken, because the package looks at the civil day.'])

coord = st.tuples(st.floats(-66, 66).map(lambda v: round(v, 4)),
                  st.floats(-180, 180).map(lambda v: round(v, 4)))
zones = st.one_of(st.integers(-12, 14), st.integers(-48, 56).map(
    lambda q: q / 4), st.floats(-23.9, 23.9).map(lambda v: round(v, 4)),
    st.none())
keys = st.one_of(st.none(), st.sampled_from((
    'Asia/Tehran', 'America/New_York', 'UTC', 'x', '')), st.text(max_size=5))
AREAS = ('America/New_York', 'Europe/Berlin', 'Asia/Tehran', 'Asia/Tokyo',
         'America/Sao_Paulo', 'Australia/Sydney', 'Europe/London',
         'Asia/Kolkata', 'Africa/Cairo', 'America/Phoenix', 'UTC',
         'Asia/Jerusalem', 'Pacific/Auckland', 'America/Halifax')
AREAS = tuple(a for a in AREAS if a in zoneinfo.available_timezones())


def mk(d, t, long, tz=None):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=tz)


def offset(zone):
    return timedelta(hours=zone or 0)


@P.check(st.tuples(coord, zones, keys, G.dates(), G.times(), st.booleans()),
         quick=3000, thorough=200000)
def places(case):
    (lat, lon), zone, key, d, t, long = case
    kw = {} if key is None else dict(key=key)
    z = TZWithCoords(lat, lon, zone, **kw)
    nontrivial(bool(key) or zone is None or zone % 1 != 0)
    eq((z.lat, z.lon, z.zone, z.coordinates), (lat, lon, zone,
                                               (lat, lon, zone)), 'place')
    eq(z.key, key or '', 'key')
    s = S.timezone(S.timedelta(hours=zone or 0))
    x, y = mk(d, t, long, z), time(*t, tzinfo=z)
    name = key or s.tzname(None)
    for a in (x, y):
        eq((a.utcoffset(), a.tzname(), a.dst()),
           (offset(zone), name, timedelta(0)), f'{a!r}')
    eq((z.utcoffset(None), z.utcoffset(x), z.tzname(x), z.tzname(None)),
       (offset(zone),) * 2 + (name,) * 2, 'place')
    eq(z.dst(x), timedelta(0), 'dst')
    eq(str(z), f'{lat}, {lon}, {zone}' + (f', {key}' if key else ''), 'str')
    for c in (copy.copy(z), copy.deepcopy(z), pickle.loads(pickle.dumps(z))):
        eq((type(c), c.lat, c.lon, c.zone, c.coordinates, c.key, str(c),
            c.tzname(None), c.utcoffset(None), hash(c)),
           (TZWithCoords, lat, lon, zone, z.coordinates, z.key, str(z), name,
            offset(zone), hash(z)), f'copy of {z}')
    same = timezone(offset(zone))
    eq((z == same, hash(z) == hash(same)), (True, True), 'the fixed offset')
    eq(z == timezone(offset(zone) + timedelta(minutes=1)), False, 'another')
    w = mk(d, t, long, same)
    eq((x == w, hash(x) == hash(w), x - w), (True, True, timedelta(0)),
       f'{x!r} and {w!r}')
    eq(x.isoformat(), w.isoformat(), 'isoformat')
    eq(isinstance(z, timezone), True, 'type')
    eq(z.badioffset(None), offset(zone) - timedelta(hours=3.5), 'badioffset')


@P.check(st.tuples(st.tuples(coord, zones, keys), st.tuples(coord, zones,
                                                            keys),
                   G.dates(-200, 400, safe=True), G.times(), st.booleans()),
         quick=1200, thorough=100000)
def between_places(case):
    """Conversion from place to place is that between their offsets."""
    p, q, d, t, long = case
    z, w = (TZWithCoords(*c, zone, **({} if k is None else dict(key=k)))
            for c, zone, k in (p, q))
    x = mk(d, t, long, z)
    y = x.astimezone(w)
    want = mk(d, t, long, timezone(offset(p[1]))).astimezone(
        timezone(offset(q[1])))
    eq((y.b_date, y.b_time), (want.b_date, want.b_time), f'{x!r} in {w}')
    eq((y.tzinfo is w, y == x), (True, True), 'tzinfo')
    f = w.fromutc(mk(d, t, long, w))
    eq(f - mk(d, t, long, w), offset(q[1]), 'fromutc')


def summer(area, n):
    """Summer time on the civil days about ordinal n: True, False or, near a
    change, None."""
    z = zoneinfo.ZoneInfo(area)
    r = {bool(S.datetime.fromordinal(n + k).replace(hour=h, tzinfo=z).dst())
         for k in (-2, -1, 0, 1, 2, 3) for h in (0, 6, 12, 18)}
    return r.pop() if len(r) == 1 else None


def delta(area, n):
    z = zoneinfo.ZoneInfo(area)
    return S.datetime.fromordinal(n).replace(hour=12, tzinfo=z).dst() \
        or S.timedelta(0)


@P.check(st.tuples(st.lists(st.tuples(coord, zones.filter(
    lambda z: z is not None), st.one_of(st.none(), st.sampled_from(AREAS))),
    min_size=1, max_size=5), st.lists(st.tuples(
        st.integers(-1, 5), G.dates(100, 230, safe=True), G.times(),
        st.booleans(), st.booleans()), min_size=1, max_size=8)),
    quick=1500, thorough=100000)
def summer_time(case):
    """Each place has the summer time of the zone it was made from, whatever
    other places were made before and after it."""
    spec, asks = case
    made = []
    for (lat, lon), zone, area in spec:
        if area is None:
            z = TZWithCoords(lat, lon, zone)
        else:
            z = TZWithCoords.fromzoneinfo(zoneinfo.ZoneInfo(area), lat, lon,
                                          zone)
            eq((z.key, z.tzname(None), str(z)),
               (area, area, f'{lat}, {lon}, {zone}, {area}'), 'key')
        eq((z.coordinates, z.utcoffset(None), z.dst(None) or timedelta(0)),
           ((lat, lon, zone), offset(zone), timedelta(0)), f'{z}')
        made.append((z, area))
    for i, d, t, long, again in asks:
        z, area = made[i % len(made)] if i >= 0 else (timezone.badi, None)
        if again:
            z = pickle.loads(pickle.dumps(z))
        x = mk(d, t, long, z)
        n = M.to_ord(*d)
        dst = x.dst()
        if not isinstance(dst, S.timedelta):
            fail(f'dst of {x!r}: {dst!r}')
        on = bool(area) and summer(area, n)
        label(f'summer {on}')
        if on is not None:
            want = delta(area, n) if area else S.timedelta(0)
            eq(dst, want, f'dst of {x!r} in {z}')
            eq(z.dst(x), want, f'dst of {z}')
            eq(x.timetuple().tm_isdst, int(on), f'timetuple of {x!r} in {z}')
        if i >= 0:
            eq(x.utcoffset(), offset(spec[i % len(spec)][1]), f'{z}')


@P.sweep(lambda tier, seed: [0])
def constants(_):
    """The places of the package."""
    for z, name, off, lat, lon in (
            (B.UTC, 'UTC', 0, 51.4779, 0), (B.BADI, 'Asia/Tehran', 3.5, 35.7,
                                            51.3)):
        eq((z.tzname(None), z.utcoffset(None)), (name, timedelta(hours=off)),
           name)
        if abs(z.lat - lat) > .1 or abs(z.lon - lon) > .1:
            fail(f'{z}')
    eq(timezone.utc.dst(None), timedelta(0), 'dst')


@P.sweep(lambda tier, seed: ['1.0', '', '1.0, 2.0, "3"', '1.0, 2.0, 24.0',
                             '1.0, 2.0, -24', '1., 2., 1.0, key=3'])
def bad_arguments(src):
    raises((TypeError, ValueError),
           lambda: eval(f'TZWithCoords({src})'), src)
