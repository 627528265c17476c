"""C29: the place that is set, with the machine's zone, is the local place."""
import datetime as S
import os
import sys
import time as clock
import zoneinfo

import tzlocal
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, forked, label, near, nontrivial
from target import (B, BC, D, TZWithCoords, date, datetime, timedelta,
                    timezone)

TEHRAN = (35.69435, 51.288701, 3.5)
ZONES = ('UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati',
         'Pacific/Marquesas', 'Asia/Tehran', 'Europe/Dublin', 'Asia/Kathmandu',
         'America/St_Johns', 'Australia/Lord_Howe', 'Pacific/Pago_Pago',
         'Africa/Casablanca', 'Australia/Adelaide', 'America/Sao_Paulo')
P = Prop('C29', rule=(
    'Drawn places, given by coordinates (floats and whole numbers), by name '
    'through a stand-in geocoder, or not at all, one after another, on '
    'machines of 14 IANA zones; then local and other operations on drawn '
    'moments. Oracle: LOCAL_COORD and LOCAL worked out from what was given '
    'and from zoneinfo; the calendar conversions at that place given '
    'explicitly; for what is not local, the same operation on a machine in '
    'UTC with no place set. Non-trivial: the zone is not UTC and a place is '
    'set.'),
    assumptions=['The network geocoder is replaced by one that knows drawn '
                 'names; nothing is sent.'])

lat = st.one_of(st.integers(-6000, 6000).map(lambda n: n / 100),
                st.integers(-60, 60))
lon = st.one_of(st.integers(-18000, 18000).map(lambda n: n / 100),
                st.integers(-180, 180))
name = st.one_of(st.sampled_from(('Haifa', 'New York, NY', '10001', 'Ṭihrán',
                                  'x')), st.text(min_size=1, max_size=8))
setting = st.one_of(
    st.tuples(st.just('coords'), lat, lon),
    st.tuples(st.just('coords'), lat, lon),
    st.tuples(st.just('kw'), lat, lon),
    st.tuples(st.just('name'), lat.map(float), lon.map(float), name),
    st.tuples(st.just('both'), lat, lon, name),
    st.tuples(st.just('none')),
    st.tuples(st.just('unknown'), name))


class Place:
    def __init__(self, lat, lon):
        self.latitude, self.longitude = lat, lon
        self.point = (lat, lon, 0.0)
        self.address = 'somewhere'


def machine(zone, found):
    """Put the machine in a zone, and the geocoder where it finds `found`."""
    os.environ['TZ'] = zone
    clock.tzset()
    tzlocal.reload_localzone()
    asked = []

    class Nominatim:
        def __init__(self, *a, **kw):
            pass

        def geocode(self, query, *a, **kw):
            asked.append(query)
            return found.get(str(query))
    import geopy
    import geopy.geocoders
    import geopy.geocoders.nominatim
    for m in (B, geopy, geopy.geocoders, geopy.geocoders.nominatim):
        if hasattr(m, 'Nominatim'):
            m.Nominatim = Nominatim
    return asked


def hours(zone):
    return S.datetime.now(zoneinfo.ZoneInfo(zone)).utcoffset(
        ).total_seconds() / 3600


def set_place(s):
    """Set it; gives what LOCAL_COORD should be without the offset."""
    k, a = s[0], s[1:]
    if k == 'coords':
        B.set_local_coordinates(*a)
    elif k == 'kw':
        B.set_local_coordinates(lon=a[1], lat=a[0])
    elif k == 'name':
        B.set_local_coordinates(locale=a[2])
    elif k == 'both':
        B.set_local_coordinates(a[0], a[1], locale=a[2])
    elif k == 'none':
        B.set_local_coordinates()
        return None
    return a[:2]


def off(x):
    o = x.utcoffset()
    return None if o is None else o.total_seconds()


def locals_(d, t, ts):
    """The local operations on a moment."""
    a = d + (None, None) + t
    x = datetime(*a)
    y = datetime(*M.long_of(d[0]), *d[1:], *t)
    z = datetime(*a, tzinfo=timezone(timedelta(hours=2)))
    clk = clock.time
    clock.time = lambda: ts
    try:
        now = datetime.now(), date.today(), datetime.now(short=False)
    finally:
        clock.time = clk
    return {
        'naive': (x.timestamp(), y.timestamp()),
        'from': [(tuple(v.b_date), tuple(v.b_time)) for v in (
            datetime.fromtimestamp(ts), datetime.fromtimestamp(
                ts, short=False), datetime.fromtimestamp(
                    ts, timezone(timedelta(hours=-7))))],
        'dates': [tuple(date.fromtimestamp(ts, short=s).b_date)
                  for s in (True, False)],
        'now': [(tuple(v.b_date), tuple(v.b_time)) for v in now[::2]]
        + [tuple(now[1].b_date)],
        'naive_as': [(tuple(v.b_date), tuple(v.b_time), off(v)) for v in (
            x.astimezone(), y.astimezone())],
        'naive_utc': [(tuple(v.b_date), tuple(v.b_time), off(v)) for v in (
            x.astimezone(timezone.utc), y.astimezone(timezone.utc))],
        'aware_as': (tuple(z.astimezone().b_date),
                     tuple(z.astimezone().b_time), off(z.astimezone())),
    }


def others(d, t, ts, there):
    """Operations which ask for no place."""
    a = d + (None, None) + t
    x = datetime(*a)
    z = datetime(*a, tzinfo=timezone(timedelta(hours=2)))
    p = TZWithCoords(*map(float, there))
    r = [x.toordinal(), repr(x), x.isoformat(), str(z.timestamp()),
         repr(z.astimezone(timezone.badi)), repr(z.astimezone(p)),
         z.utctimetuple(), x.timetuple(), x.isocalendar(),
         repr(datetime.fromtimestamp(ts, timezone.utc)),
         repr(datetime.fromtimestamp(ts, timezone.badi)),
         repr(datetime.fromtimestamp(ts, p)),
         BC.badi_date_from_timestamp(ts, us=True),
         BC.gregorian_date_from_badi_date(d + t[:3]),
         BC.timestamp_from_badi_date(d + t[:3], *there),
         BC.utc_sunset(d), BC.naw_ruz_g_date(d[0]),
         str(x + timedelta(seconds=ts)), D.BADI_COORD, D.GMT_COORD,
         str(D.UTC), str(D.BADI), str(D.timezone.badi), str(D.timezone.utc),
         date.fromisoformat('0181-01-01').b_date,
         repr(datetime.strptime('0181-02-03 +0200', '%Y-%m-%d %z'))]
    return [tuple(v) if isinstance(v, tuple) else v for v in r]


@P.check(st.tuples(st.sampled_from(ZONES), st.lists(setting, min_size=1,
                                                    max_size=3),
                   G.dates(-100, 400, safe=True), st.tuples(
                       st.integers(0, 23), G.sixty(), G.sixty(), G.micros()),
                   st.integers(0, 4 * 10 ** 9), G.cities()), quick=360,
         thorough=20000)
def place(case):
    zone, settings, d, t, ts, there = case
    found = {s[3]: Place(s[1], s[2]) for s in settings if s[0] == 'name'}
    unknown = any(s[0] == 'unknown' and s[1] in found for s in settings)

    def f():
        asked = machine(zone, found)
        out = []
        for s in settings:
            del asked[:]
            h = [hours(zone)]
            if s[0] == 'unknown':
                if s[1] in found:
                    continue
                try:
                    B.set_local_coordinates(locale=s[1])
                    out.append('accepted')
                except Exception:
                    out.append('refused')
                B.set_local_coordinates()
                continue
            g = set_place(s)
            if s[0] == 'name':
                p = found[s[3]]
                g = p.latitude, p.longitude
            h.append(hours(zone))
            q = 0, 0
            try:
                q = tuple(D.LOCAL_COORD), locals_(d, t, ts)
                e = ''
            except Exception as err:
                e = f'{type(err).__name__}: {err}'
            out.append((g, h, list(map(str, asked)), q, e, (
                tuple(B.LOCAL_COORD), str(D.LOCAL), str(B.LOCAL),
                str(timezone.local), D.LOCAL.utcoffset(None).total_seconds(),
                timezone.local.utcoffset(None).total_seconds(),
                B.LOCAL.utcoffset(None).total_seconds())))
            out.append(others(d, t, ts, there))
        return out
    got = forked(f)
    plain = forked(lambda: others(d, t, ts, there))
    i = 0
    for s in settings:
        if s[0] == 'unknown':
            if s[1] not in found:
                eq(got[i], 'refused', f'place {s[1]!r}, which is not found')
                i += 1
            continue
        g, h, asked, (coord, ops), e, names = got[i]
        eq(got[i + 1], plain, f'what is not local, in {zone} at {s}')
        i += 2
        where = f'{s} in {zone}'
        eq(e, '', f'local operations at {where}')
        eq(asked, [s[3]] if s[0] == 'name' else [], f'asked for {where}')
        if g is None:
            eq(coord, TEHRAN, f'LOCAL_COORD, {where}')
        else:
            eq(coord[:2], tuple(map(float, g)), f'LOCAL_COORD, {where}')
            eq(coord[2] in h, True, f'offset of {coord}, want {h}, {where}')
        eq(names[0], coord, f'the package\'s LOCAL_COORD, {where}')
        sec = round(coord[2] * 3600)
        std = S.timezone(S.timedelta(seconds=sec))
        eq(names[4:], (sec,) * 3, f'offsets of LOCAL, {where}')
        eq(names[1:4], (str(std),) * 3, f'names of LOCAL, {where}')
        local(coord, ops, d, t, ts, where, sec)
    nontrivial(zone != 'UTC' and any(s[0] not in ('none', 'unknown')
                                     for s in settings))
    if unknown:
        label('name in both')


def local(coord, ops, d, t, ts, where, sec):
    w = BC.timestamp_from_badi_date(d + t, *coord)
    for v in ops['naive']:
        near(v, w, 1e-3, f'timestamp of {d} {t}, {where}')
    want = [BC.badi_date_from_timestamp(ts, *coord, short=s, us=True)
            for s in (True, False)]
    for v, r in zip(ops['from'] + ops['now'][:2],
                    (want[0], want[1], want[0], want[0], want[1])):
        n = len(r) - 4
        eq(v, (r[:n], r[n:]), f'{ts} at {where}')
    for v, r in zip(ops['dates'] + ops['now'][2:],
                    (want[0], want[1], want[0])):
        eq(v, r[:len(r) - 4], f'date of {ts} at {where}')
    # Without a zone given, a naive moment is of the local zone.
    o = M.to_ord(*d)
    mic = o * 86400 * 10 ** 6 + us_of(t)
    long = M.long_of(d[0]) + d[1:]
    eq(ops['naive_as'], [(d, t, sec), (long, t, sec)],
       f'astimezone() of {d} {t}, {where}')
    for k, v in enumerate(ops['naive_utc']):
        eq((v[0], v[1], v[2]), moved(mic - sec * 10 ** 6, k) + (0,),
           f'astimezone(utc) of {d} {t}, {where}')
    v = ops['aware_as']
    eq(v, moved(mic + (sec - 7200) * 10 ** 6, 0) + (sec,),
       f'astimezone() of {d} {t} +02:00, {where}')


def us_of(t):
    return ((t[0] * 60 + t[1]) * 60 + t[2]) * 10 ** 6 + t[3]


def moved(mic, long):
    n, r = divmod(mic, 86400 * 10 ** 6)
    r, us = divmod(r, 10 ** 6)
    m, s = divmod(r, 60)
    d = M.from_ord(n)
    return (M.long_of(d[0]) + d[1:] if long else d), (*divmod(m, 60), s, us)
