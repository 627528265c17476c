"""C04: years start on the day of the March equinox in Tehran."""
import datetime as S
import math

from hypothesis import strategies as st

import astro
import gens as G
import model as M
from core import Prop, eq, fail, known, label, near, nontrivial
from target import BC, GC, date

TEHRAN = (35.69435, 51.288701, 3.5)
MARGIN = 50 / 1440        # an equinox this near to sunset decides nothing
STRICT = -260             # first year after the Gregorian reform

P = Prop('C04', rule=(
    'Sweeps over every year of the range, and drawn years and places. '
    'Oracle: the equinox from the series in Meeus ch. 27 with Delta T of '
    'Espenak and Meeus, and the sunset from an independent low-precision '
    'solar theory; plus the committed leap-year table. A year whose equinox '
    'falls within 50 minutes of the Tehran sunset is trivial for the equinox '
    'check.'), assumptions=[
        'Before the Gregorian reform (years below -260) the package counts '
        'its days in two calendars; there only the committed table and the '
        'length rules are claimed.'])


def all_years(tier, seed):
    return sorted(range(M.MINYEAR, M.MAXYEAR + 1), key=abs)


@P.sweep(lambda tier, seed: sorted(range(STRICT, M.MAXYEAR + 1), key=abs))
def equinox_in_first_day(y):
    g = y + 1843
    e = astro.equinox_jde(g)
    e -= astro.delta_t(astro.year_of(e)) / 86400
    jd = BC.jd_from_badi_date((y, 1, 1)) + astro.EXACT_SHIFT
    s0 = astro.sunset_near(jd - 0.25, *TEHRAN[:2])
    s1 = astro.sunset_near(jd + 0.75, *TEHRAN[:2])
    near(jd, s0, astro.tol(y) / 86400, f'sunset starting year {y}')
    if min(abs(e - s0), abs(e - s1)) < MARGIN:
        nontrivial(False)
        label('too near to sunset to decide')
        return
    if not s0 <= e < s1:
        fail(f'year {y} starts at JD {jd}, the equinox is at {e}, '
             f'{(e - s0) * 24:.2f} h after that sunset')


@P.sweep(all_years)
def start_and_length(y):
    """First day, length and leap year agree with the committed table and
    with each other."""
    jd0 = BC.jd_from_badi_date((y, 1, 1))
    jd1 = BC.jd_from_badi_date((y + 1, 1, 1)) if y < M.MAXYEAR else None
    lon = TEHRAN[1] / 360
    eq(math.floor(jd0 + lon - 1721422.5), M.start(y), f'start of year {y}')
    if jd1 is not None:
        n = math.floor(jd1 + lon + .5) - math.floor(jd0 + lon + .5)
        if n not in (365, 366):
            fail(f'year {y} has {n} days')
        eq(n, M.ylen(y), f'length of year {y}')
    try:
        date(y, 0, 5)
        five = True
    except AssertionError:
        five = False
    eq(five, M.leap(y), f'fifth day of Ayyam-i-Ha in {y}')


@P.sweep(lambda tier, seed: list(range(M.MINYEAR + 3, M.MAXYEAR - 5)))
def leap_gaps(y):
    """A leap year is followed by one four or five years later."""
    def five(k):
        try:
            date(k, 0, 5)
            return True
        except AssertionError:
            return False
    if not five(y):
        nontrivial(False)
        return
    gap = next((k for k in range(1, 6) if five(y + k)), None)
    if gap not in (4, 5):
        fail(f'leap year after {y} comes {gap} years later')


def check_eve(got, n, place, what, hms, tol):
    """got is the local civil date and time of the sunset on civil day n."""
    g = S.date.fromordinal(n)
    lat, lon, zone = place
    ss = astro.sunset_near(astro.ORD0 + n + 0.5 - lon / 360, lat, lon)
    want = ss + zone / 24 - astro.ORD0
    if hms:
        y, m, d, hh, mm, sec = got
        gd = S.date(y, m, d).toordinal() + (hh * 3600 + mm * 60 + sec) / 86400
    else:
        y, m, d = got
        gd = S.date(y, m, int(d)).toordinal() + d % 1
    near(gd, want, (tol + 1) / 86400, f'{what}: {got} for {g}')


@P.check(st.tuples(G.years(STRICT, M.MAXYEAR), st.one_of(
    st.just(None), G.cities()), st.booleans(), st.booleans()),
    quick=1500, thorough=60000)
def feasts(case):
    """Naw-Ruz and the first day of Ridvan: the eve of 1 Baha and the eve of
    13 Jalal, at sunset of the place."""
    y, place, hms, ridvan = case
    args = place or ()
    place = place or TEHRAN
    fn = BC.first_day_of_ridvan_g_date if ridvan else BC.naw_ruz_g_date
    got = fn(y, *args, hms=hms)
    check_eve(got, M.start(y) + (31 if ridvan else 0), place,
              f'{"Ridvan" if ridvan else "Naw-Ruz"} of {y} at {place}', hms,
              astro.tol(y))
    label('place' if args else 'Tehran')


@P.check(G.years(), quick=600, thorough=3000)
def feasts_by_table(y):
    """All years: the Gregorian day of Naw-Ruz in Tehran is the table's."""
    got = BC.naw_ruz_g_date(y, hms=True)
    g = S.date.fromordinal(M.start(y))
    eq(got[:3], (g.year, g.month, g.day), f'Naw-Ruz of {y}')
    got = BC.first_day_of_ridvan_g_date(y, hms=True)
    g = S.date.fromordinal(M.start(y) + 31)
    eq(got[:3], (g.year, g.month, g.day), f'Ridvan of {y}')
    if not (16 <= got[3] <= 20):
        fail(f'Ridvan of {y} starts at {got}')


partial = st.tuples(st.integers(-55, 60), st.integers(-179, 179),
                    st.integers(-48, 56).map(lambda q: q / 4),
                    st.integers(0, 6)).map(
    lambda t: tuple(v if t[3] >> i & 1 else None
                    for i, v in enumerate(t[:3])))


@P.check(st.tuples(G.dates(), G.times(), partial, st.booleans()), quick=600,
         thorough=20000)
def partly_given(case):
    """A place that is given only in part is not a place: Tehran is used."""
    d, t, place, flag = case
    lat, lon, zone = place
    kw = {k: v for k, v in zip(('lat', 'lon', 'zone'), place)
          if v is not None}
    jd = BC.jd_from_badi_date(d + t)
    for what, f in (
            ('Naw-Ruz', lambda *a, **k: BC.naw_ruz_g_date(
                d[0], *a, hms=flag, **k)),
            ('Ridvan', lambda *a, **k: BC.first_day_of_ridvan_g_date(
                d[0], *a, hms=flag, **k)),
            ('sunset', lambda *a, **k: BC.utc_sunset(d, *a, **k)),
            ('day number', lambda *a, **k: BC.jd_from_badi_date(
                d + t, *a, **k)),
            ('date', lambda *a, **k: BC.badi_date_from_jd(
                jd, *a, short=flag, **k)),
            ('Gregorian date', lambda *a, **k:
             BC.gregorian_date_from_badi_date(d + t, *a, us=flag, **k)),
            ('from Gregorian', lambda *a, **k:
             BC.badi_date_from_gregorian_date(
                 (d[0] + 1900 if d[0] < 1000 else 2500, 5, 6), *a,
                 short=flag, **k)),
            ('timestamp', lambda *a, **k: BC.timestamp_from_badi_date(
                d + t, *a, **k)),
            ('from a timestamp', lambda *a, **k:
             BC.badi_date_from_timestamp(
                 (jd - 2440587.5) * 86400, *a, short=flag, **k))):
        w = outcome(f)
        eq(outcome(f, **kw), w, f'{what} of {d + t} at {kw}')
        eq(outcome(f, *place), w, f'{what} of {d + t} at {place}')
        eq(outcome(f, *TEHRAN), w, f'{what} of {d + t} in Tehran')
    nontrivial(bool(kw))
    label(', '.join(kw) or 'nothing given')


def outcome(f, *a, **k):
    """What a call gives, a refusal included."""
    try:
        return f(*a, **k)
    except (ValueError, AssertionError) as e:
        return type(e).__name__
