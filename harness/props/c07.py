"""C07: Badi' dates, Gregorian dates and timestamps name the same instants."""
import datetime as S

from hypothesis import strategies as st

import astro
import gens as G
import model as M
from core import Prop, eq, fail, label, near, nontrivial
from target import BC

STRICT = -260
TEHRAN = (35.69435, 51.288701, 3.5)
P = Prop('C07', rule=(
    'Drawn Badi\' dates with times, Gregorian date-times of the years '
    '1600-3000 and timestamps, in Tihran and at drawn places. Oracle: the '
    'standard library for civil dates, the independent sunset for when a '
    'Badi\' day starts, and the round trip. Non-trivial: not within 60 s of '
    'a sunset, and not the whole hour 0.'))

place = st.one_of(st.none(), G.cities(), G.cities(), G.odd_places())


def secs(t):
    t = tuple(t) + (0,) * (4 - len(t))
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


def std(g):
    """A package Gregorian date with time as a stdlib datetime."""
    return S.datetime(*g[:3]) + S.timedelta(seconds=secs(g[3:]))


def sunset(n, lat, lon):
    """UTC stdlib datetime of the sunset starting the local day n."""
    j = astro.sunset_near(astro.ORD0 + n + 0.5 - lon / 360, lat, lon)
    return S.datetime(1, 1, 1) + S.timedelta(days=j - astro.ORD0 - 1)


@P.check(st.tuples(G.dates(STRICT), G.times(), place, st.booleans()),
         quick=5000, thorough=300000)
def from_badi(case):
    """The Gregorian date-time is the local clock time of sunset plus the
    time of the day."""
    (y, m, d), t, where, us = case
    n = M.to_ord(y, m, d)
    lat, lon, zone = where or TEHRAN
    g = BC.gregorian_date_from_badi_date((y, m, d) + t, *(where or ()), us=us)
    eq(len(g), 7 if us else 6, f'fields of {g}')
    hh, mi, ss = g[3:6]
    if not (0 <= hh < 24 and 0 <= mi < 60 and 0 <= ss < 60):
        fail(f'{case}: fields of {g}')
    want = sunset(n, lat, lon) + S.timedelta(hours=zone, seconds=secs(t))
    near((std(g) - want).total_seconds(), 0, astro.tol(y) + 1.2,
         f'{case} -> {g}')
    if not where:
        ev = S.date.fromordinal(n)
        eq((want - S.timedelta(seconds=secs(t))).date(), ev, 'evening')
    # and back, in UTC
    u = std(g) - S.timedelta(hours=zone)
    if secs(t) > 86100:
        nontrivial(False)
        return
    gg = (u.year, u.month, u.day, u.hour, u.minute,
          u.second + u.microsecond / 1e6)
    if 30 < secs(t) < 86100:
        b = BC.badi_date_from_gregorian_date(gg, *(where or ()), us=True,
                                             short=True)
        eq(b[:3], (y, m, d), f'{case} -> {g} -> date')
        near(secs(b[3:]), secs(t), 0.3 if not 0 <= secs(t) < 300 else 300,
             f'{case} -> {g} -> time')
    nontrivial(secs(t) > 60)


@P.check(st.tuples(st.one_of(st.integers(1600, 3000),
                             st.integers(1844, 2100)), st.integers(1, 366),
                   st.integers(0, 86399), place, st.booleans()),
         quick=5000, thorough=300000)
def from_gregorian(case):
    """A UTC date-time belongs to the day begun by the last sunset."""
    g, doy, s, where, short = case
    lat, lon, _ = where or TEHRAN
    u = S.datetime(g, 1, 1) + S.timedelta(days=doy - 1, seconds=s)
    gd = (u.year, u.month, u.day, u.hour, u.minute, u.second)
    b = BC.badi_date_from_gregorian_date(gd, *(where or ()), us=True,
                                         short=short)
    if short:
        y, rest = b[0], b[1:]
    else:
        y, rest = M.short_of(*b[:3]), b[3:]
        eq(b[:3], M.long_of(y), f'canonical long form of {case}')
    n = (u + S.timedelta(hours=lon / 15)).toordinal()
    ss = sunset(n, lat, lon)
    if u < ss:
        n -= 1
        ss = sunset(n, lat, lon)
    since = (u - ss).total_seconds()
    left = (sunset(n + 1, lat, lon) - u).total_seconds()
    if min(since, left) < 60 or since > 86340:
        nontrivial(False)
        return
    eq((y,) + rest[:2], M.from_ord(n), f'day of {case}')
    near(secs(rest[2:]), since, astro.tol(y) + .3, f'time of {case}')
    for rtd in (False, True):
        k = M.from_ord(n + (since > 43200)) if rtd else M.from_ord(n)
        if rtd and abs(since - 43200) < 60:
            continue
        p = BC.badi_date_from_gregorian_date(gd, *(where or ()), short=True,
                                             rtd=rtd)
        eq(p[:3], k, f'day of {case} rtd={rtd}')
        if rtd:
            eq(len(p), 3, f'fields of {p}')
    # Back: the local clock time is the one started from.
    if not (since > 86100 or since < 300):
        lc = BC.gregorian_date_from_badi_date((y,) + rest, *(where or ()))
        zone = (where or TEHRAN)[2]
        near((std(lc) - u).total_seconds(), zone * 3600, 0.3,
             f'{case} -> {b} -> {lc}')


@P.check(st.tuples(st.one_of(
    st.integers(-10 ** 10, 3 * 10 ** 10), st.integers(0, 4 * 10 ** 9)),
    place), quick=4000, thorough=200000)
def timestamps(case):
    """A POSIX timestamp is the instant the standard library says it is."""
    t, where = case
    u = S.datetime(1970, 1, 1) + S.timedelta(seconds=t)
    b = BC.badi_date_from_timestamp(t, *(where or ()), us=True, short=True)
    gd = (u.year, u.month, u.day, u.hour, u.minute, u.second)
    c = BC.badi_date_from_gregorian_date(gd, *(where or ()), us=True,
                                         short=True)
    near(M.to_ord(*b[:3]) * 86400 + secs(b[3:]),
         M.to_ord(*c[:3]) * 86400 + secs(c[3:]), 0.3, f'{b} and {c}')
    eq(BC.badi_date_from_timestamp(t, *(where or ()), us=True)[:3],
       M.long_of(b[0]), f'long form of {case}')
    if 300 < secs(b[3:]) < 86000:
        near(BC.timestamp_from_badi_date(b, *(where or ())), t, 0.3,
             f'{t} -> {b} -> timestamp')
        nontrivial()
    else:
        nontrivial(False)
    for kw in (dict(short=True), dict(short=True, trim=True, us=True)):
        p = BC.badi_date_from_timestamp(t, *(where or ()), **kw)
        eq(p[:3], b[:3], f'date of {t} with {kw}')
        near(secs(p[3:]), secs(b[3:]), 2e-3, f'time of {t} with {kw}')


@P.check(st.tuples(G.dates(STRICT), G.times(), place), quick=3000,
         thorough=200000)
def to_timestamp(case):
    (y, m, d), t, where = case
    lat, lon, _ = where or TEHRAN
    ts = BC.timestamp_from_badi_date((y, m, d) + t, *(where or ()))
    want = sunset(M.to_ord(y, m, d), lat, lon) + S.timedelta(seconds=secs(t))
    near(ts, (want - S.datetime(1970, 1, 1)).total_seconds(), astro.tol(y) + .3,
         f'timestamp of {case}')
    base = BC.timestamp_from_badi_date((y, m, d), *(where or ()))
    near(ts - base, secs(t), 0.1, f'time of day in the timestamp of {case}')
    nontrivial(secs(t) > 0)
