"""C05: sunsets, sunrises, noons and equinoxes are where the sun is."""
import math

from hypothesis import strategies as st

import astro
import gens as G
import model as M
from core import Prop, eq, fail, known, label, near, nontrivial
from target import BC

STRICT = -260
TEHRAN = (35.69435, 51.288701, 3.5)
GMT = (51.477928, -0.001545, 0.0)
P = Prop('C05', rule=(
    'Drawn days (year -260 on) and places between 55 south and 60.2 north. '
    'Oracle: an independent solar theory (Meeus ch. 25, low precision) and '
    'Meeus ch. 27. Tolerances: 6 s for sunsets up to year 300 (observed: 2.5 s), '
    '14 s up to 700, 32 s beyond; 0.012, 0.045 and 0.1 degrees; 20 s for equinoxes in dynamical time. Every distinct '
    'case is non-trivial.'))
KF = 'KF-EQUINOX-DT'


def hms_days(t):
    return (t[0] * 3600 + t[1] * 60 + t[2]) / 86400


@P.check(st.tuples(G.dates(STRICT), st.one_of(st.just(None), G.cities())),
         quick=3000, thorough=200000)
def sunset(case):
    """A day starts at the instant the sun's upper limb sets, on the civil
    evening the ordinal names, and that is the time of sunset reported."""
    (y, m, d), place = case
    lat, lon, zone = place or TEHRAN
    args = place or ()
    jd = BC.jd_from_badi_date((y, m, d), *args) + astro.EXACT_SHIFT
    n = M.to_ord(y, m, d)
    want = astro.sunset_near(astro.ORD0 + n + 0.5 - lon / 360, lat, lon)
    near(jd, want, astro.tol(y) / 86400, f'sunset of {case} (days)')
    near(astro.altitude(jd, lat, lon), -0.8333, astro.tol_deg(y), f'altitude at {case}')
    got = hms_days(BC.utc_sunset((y, m, d), *args))
    diff = (got - (want + zone / 24 + 0.5)) % 1
    near(min(diff, 1 - diff), 0, (astro.tol(y) + 1) / 86400, f'clock time of sunset {case}')
    label('place' if place else 'Tehran')


@P.check(st.tuples(G.dates(STRICT), st.one_of(
    G.cities(), st.tuples(st.integers(-600, 600), st.integers(-1799, 1799)).map(
        lambda t: (t[0] / 10, t[1] / 10, 0.0))), st.lists(st.one_of(
        st.integers(-49999, 49999), st.sampled_from((-49999, 49999, -49990,
                                                     49990))), max_size=4)),
         quick=1500, thorough=100000)
def rise_and_set(case):
    """Sunrise and sunset of one local day: the sun is at -0.8333 degrees,
    rising before noon and setting after, with noon between."""
    (y, m, d), (lat, lon, _), fracs = case
    n = M.to_ord(y, m, d)
    t = astro.ORD0 + n + 0.5 - lon / 360           # about local noon
    for fn, sgn in ((BC._sun_rising, -1), (BC._sun_setting, 1)):
        got = fn(t, lat, lon)
        a = astro.altitude(got, lat, lon)
        near(a, -0.8333, astro.tol_deg(y), f'altitude at {fn.__name__} of {case}')
        h = astro.hour_angle(got, lon)
        if not 0 < h * sgn < 180:
            fail(f'{fn.__name__} of {case}: hour angle {h}')
        near(got, t + sgn * 0.25, 0.2, f'{fn.__name__} day of {case}')
    # Any other instant of the same local day has the same ones.
    for fn in (BC._sun_rising, BC._sun_setting):
        a = fn(t, lat, lon)
        for f in fracs:
            near(fn(t + f / 100000, lat, lon), a, 20 / 86400,
                 f'{fn.__name__} of {case}, {f} / 100000 day from noon')
    tr = BC._sun_transit(math.floor(t + 0.5) - 0.5, lon)
    h = astro.hour_angle(math.floor(t + 0.5) - 0.5 + tr, lon)
    near(h, 0, astro.tol_deg(y), f'hour angle at transit of {case}')


@P.check(st.tuples(G.dates(STRICT), st.booleans(), st.booleans()),
         quick=800, thorough=40000)
def midday(case):
    """Midday is half the time from the day's first sunset to the next."""
    (y, m, d), long, hms = case
    if M.to_ord(y, m, d) >= M.MAX_ORD:
        return
    arg = M.long_of(y) + (m, d) if long else (y, m, d)
    got = BC.midday(arg, hms=hms, _short=not long)
    if hms:
        got = hms_days(got)
    n = M.to_ord(y, m, d)
    s0 = astro.sunset_near(astro.ORD0 + n + 0.5, *GMT[:2])
    s1 = astro.sunset_near(astro.ORD0 + n + 1.5, *GMT[:2])
    near(got, (s1 - s0) / 2, 30 / 86400, f'midday of {case}')


@P.check(st.tuples(st.integers(-900, 3005), st.integers(0, 3)),
         quick=2000, thorough=15000)
def equinoxes(case):
    """Moments of the equinoxes and solstices."""
    g, season = case
    lam = season * 90
    t = astro.equinox_jde(g, season)
    dt = astro.delta_t(astro.year_of(t)) / 86400
    jd0 = BC._approx_julian_day_for_equinoxes_or_solstices(g, lam)
    near(jd0, t, 0.03, f'mean equinox {case}')
    got = BC._find_moment_of_equinoxes_or_solstices(jd0, lam)
    if abs(got - (t - dt)) <= 20 / 86400:
        return
    if abs(got - t) <= 120 / 86400:
        known(KF)          # Delta T is taken off divided by 86400 twice
        return
    fail(f'equinox {case}: {got}, want {t - dt} UT ({t} TD)')


@P.check(st.tuples(st.integers(-900, 3005), st.integers(0, 3),
                   st.integers(-1440, 1440)), quick=800, thorough=15000)
def equinox_zones(case):
    """A time zone moves the moment by as many hours."""
    g, season, mins = case
    lam = season * 90
    jd0 = BC._approx_julian_day_for_equinoxes_or_solstices(g, lam)
    got = BC._find_moment_of_equinoxes_or_solstices(jd0, lam)
    eq(BC._find_moment_of_equinoxes_or_solstices(jd0, lam, 0), got, 'zone 0')
    near(BC._find_moment_of_equinoxes_or_solstices(jd0, lam, zone=mins / 60)
         - got, mins / 1440, 3e-6, f'equinox {case}')
    # Any day of the year finds the same moment.
    near(BC._find_moment_of_equinoxes_or_solstices(
        jd0 - abs(mins) / 160, lam),
         got, 1e-9, f'equinox {case} from another day of the year')
    nontrivial(mins % 60 != 0)


@P.check(st.integers(-9000, 30100), quick=1500, thorough=30000)
def delta_t(tenth):
    """TD - UT, against the published polynomials."""
    year = tenth / 10
    jd = 2451545.0 + (year - 2000) * 365.25
    if jd > 2299160:
        jd = 2451545.0 + (year - 2000) * 365.2425
    if min(abs(year - e) for e in (-500, 500, 1600, 1700, 1800, 1860, 1900,
                                   1920, 1941, 1961, 1986, 2005, 2050,
                                   2150)) < 0.15:
        nontrivial(False)
        return
    got = BC._delta_t(jd, seconds=True)
    want = astro.delta_t(year)
    near(got, want, 0.5 + abs(want) * 2e-4 + 0.12 * abs(
        astro.delta_t(year + .5) - astro.delta_t(year - .5)),
        f'Delta T of {year}')
    near(BC._delta_t(jd), got / 86400, 1e-12, 'Delta T in days')


@P.check(st.tuples(st.integers(2299170, 2818900), st.integers(0, 999)),
         quick=1500, thorough=60000)
def solar_position(case):
    """Right ascension and declination of the sun, and sidereal time."""
    jd = case[0] + case[1] / 1000
    a, d, gst = astro.sun(jd)
    # The package's functions take Julian centuries of dynamical time.
    jde = jd + astro.delta_t(astro.year_of(jd)) / 86400
    tc = (jde - 2451545.0) / 36525
    ra = BC._sun_apparent_right_ascension(tc)
    near(abs((ra - a + 180) % 360 - 180), 0, 0.03, f'right ascension {jd}')
    near(BC._sun_apparent_declination(tc), d, 0.02, f'declination {jd}')
    g0 = BC._apparent_sidereal_time_greenwich((jd - 2451545.0) / 36525)
    near(abs((g0 - gst + 180) % 360 - 180), 0, 0.03, f'sidereal time {jd}')
