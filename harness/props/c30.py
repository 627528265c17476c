"""C30: the sun's place, the nutation and the obliquity are those of the
theory."""
import math

from hypothesis import strategies as st

import series
from core import Prop, eq, known, near
from target import BC

P = Prop('C30', rule=(
    'Drawn instants from -2000 to 3000, in Julian centuries from J2000. '
    'Oracle: independent sums of the published series (VSOP87 as in Meeus, '
    'appendix III, IAU 1980 nutation, Laskar\'s obliquity, Meeus ch. 12 and '
    '25) to 1e-8 radian, shorter series (20 arc seconds, 60 before the year '
    '0, 120 before -1000; distance 3e-5 AU; nutation 0.8", 2" before 0), and '
    'the same result in the other unit. Every distinct case is '
    'non-trivial.'))
KF = 'KF-SOLAR-UNITS'
SEC = 3600
RAD = 180 / math.pi * SEC           # arc seconds in a radian


def s(d):
    return math.sin(math.radians(d))


def c(d):
    return math.cos(math.radians(d))


def node(T):
    return 125.04452 - 1934.136261 * T + .0020708 * T * T + T ** 3 / 450000


def sun(T):
    """True longitude (degrees) and distance (AU)."""
    m = 357.52911 + T * (35999.05029 - .0001537 * T)
    lo = 280.46646 + T * (36000.76983 + .0003032 * T)
    cen = ((1.914602 - T * (.004817 + .000014 * T)) * s(m)
           + (.019993 - .000101 * T) * s(2 * m) + .000289 * s(3 * m))
    e = .016708634 - T * (.000042037 + 1.267e-7 * T)
    r = 1.000001018 * (1 - e * e) / (1 + e * c(m + cen))
    t = T + 1                       # centuries from 1900
    a, b, v = (153.23 + 22518.7541 * t, 216.57 + 45037.5082 * t,
               312.69 + 32964.3577 * t)
    d = 350.74 + 445267.1142 * t - .00144 * t * t
    lon = (lo + cen + .00134 * c(a) + .00154 * c(b) + .002 * c(v)
           + .00179 * s(d) + .00178 * s(231.19 + 20.2 * t))
    r += (.00000543 * s(a) + .00001575 * s(b) + .00001627 * s(v)
          + .00003076 * c(d) + .00000927 * s(353.4 + 65928.9345 * t))
    return lon % 360, r


def earth_latitude(tm):
    """Radians, times 1e8."""
    b0 = sum(a * math.cos(b + w * tm) for a, b, w in (
        (280, 3.199, 84334.662), (102, 5.422, 5507.553), (80, 3.88, 5223.69),
        (44, 3.70, 2352.87), (32, 4.00, 1577.34)))
    b1 = sum(a * math.cos(b + w * tm) for a, b, w in (
        (9, 3.90, 5507.55), (6, 1.73, 5223.69)))
    return b0 + b1 * tm


def nutation(T):
    """In longitude and obliquity, arc seconds."""
    om, l, lm = node(T), 280.4665 + 36000.7698 * T, 218.3165 + 481267.8813 * T
    return (-17.2 * s(om) - 1.32 * s(2 * l) - .23 * s(2 * lm) + .21
            * s(2 * om), 9.2 * c(om) + .57 * c(2 * l) + .1 * c(2 * lm)
            - .09 * c(2 * om))


def poly(T, *cs):
    r = 0
    for k in reversed(cs):
        r = r * T + k
    return r


def vsop(tm, *tables):
    """The sum of the series, for rounding only in another order."""
    return math.fsum(math.fsum(a * math.cos(b + w * tm) for a, b, w in t)
                     * tm ** i for i, t in enumerate(tables)) / 1e8


def arguments(T):
    """Of the moon and the sun, degrees: M', M, F, D and the node."""
    return (poly(T, 134.96298, 477198.867398, .0086972, 1 / 56250),
            poly(T, 357.52772, 35999.05034, -.0001603, -1 / 300000),
            poly(T, 93.27191, 483202.017538, -.0036825, 1 / 327270),
            poly(T, 297.85036, 445267.11148, -.0019142, 1 / 189474), node(T))


def full_nutation(T):
    """In longitude and obliquity, degrees, by all the terms."""
    args = arguments(T)
    dp = de = 0
    for row in series.NUT:
        w = sum(k * a for k, a in zip(row, args)) % 360
        dp += (row[5] + row[6] * T) * s(w)
        de += (row[7] + row[8] * T) * c(w)
    return dp / 3.6e7, de / 3.6e7


def obliquity(T):
    """Mean, degrees."""
    return poly(T / 100, 84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67,
                -39.05, 7.12, 27.87, 5.79, 2.45) / SEC


def low(T):
    """The sun's true longitude by the shorter theory."""
    m = arguments(T)[1]
    return (280.46646 + T * (36000.76983 + .0003032 * T)
            + (1.914602 - T * (.004817 + .000014 * T)) * s(m)
            + (.019993 - .000101 * T) * s(2 * m) + .00029 * s(3 * m))


def turn(a, b):
    """Degrees from b to a."""
    return (a - b + 180) % 360 - 180


def lon_tol(T):
    return (20 if T > -20 else 60 if T > -30 else 120) / SEC


instants = st.one_of(
    st.integers(-4000000, 1000000).map(lambda n: n / 100000),
    st.integers(-300000, 1000000).map(lambda n: n / 100000),
    st.integers(-2400, 1000).map(lambda n: n / 1000),
    st.sampled_from((0.0, 1.0, -1.0, -20.0, 9.99)))


@P.check(instants, quick=2500, thorough=100000)
def place(T):
    """Longitude, latitude and distance."""
    lon, r = sun(T)
    tm = T / 10
    got = BC._heliocentric_ecliptical_longitude(tm, True)
    eq(0 <= got < 360, True, f'longitude {got} at {T}')
    near(turn(got + 180, lon), 0, lon_tol(T), f'heliocentric longitude {T}')
    lr = BC._heliocentric_ecliptical_longitude(tm)
    near(turn(math.degrees(lr), got), 0, 1e-8, f'longitude in radians {T}')
    near(BC._radius_vector(tm), r, 3e-5, f'distance {T}')
    near(turn(got, math.degrees(vsop(tm, *(
        getattr(series, f'L{i}') for i in range(6))))), 0, 1e-7,
        f'longitude by VSOP87 {T}')
    near(BC._radius_vector(tm), vsop(tm, *(
        getattr(series, f'R{i}') for i in range(5))), 1e-9,
        f'distance by VSOP87 {T}')
    b = BC._heliocentric_ecliptical_latitude(tm)
    near(b * 1e8, earth_latitude(tm), .1, f'latitude {T}')
    bd = BC._heliocentric_ecliptical_latitude(tm, True)
    near(turn(bd, math.degrees(b)), 0, 1e-9, f'latitude in degrees {T}')


@P.check(instants, quick=2500, thorough=100000)
def theory(T):
    """The shorter theory, by which the sunsets are found."""
    lon, _ = sun(T)
    tol = 36 / SEC if T > -20 else 120 / SEC
    true = BC._sun_true_longitude(T)
    near(turn(true, lon), 0, tol, f'true longitude {T}')
    app = BC._sun_apparent_longitude(T)
    near(turn(app, true), -.00569 - .00478 * s(node(T)), 1e-5,
         f'apparent longitude {T}')
    near(turn(BC._sun_mean_longitude(T) + BC._sun_equation_of_center(T),
              true), 0, 1e-9, f'mean longitude and centre {T}')
    near(BC._eccentricity_earth_orbit(T), .016708634 - T * (
        .000042037 + 1.267e-7 * T), 1e-9, f'eccentricity {T}')
    t2, t3 = T * T, T ** 3
    for fn, want in zip((
            BC._moon_mean_anomaly, BC._sun_earth_mean_anomaly,
            BC._moon_latitude, BC._mean_moon_elongation,
            BC._moon_ascending_node_longitude), arguments(T)):
        got = fn(T)
        eq(0 <= got < 360, True, f'{fn.__name__}({T}) = {got}')
        near(turn(got, want), 0, 1e-6, f'{fn.__name__}({T})')
    near(turn(true, low(T)), 0, 1e-6, f'true longitude {T}, shorter theory')


@P.check(instants, quick=1500, thorough=60000)
def tilt(T):
    """Nutation and obliquity."""
    dp, de = nutation(T)
    tol = .8 if T > -20 else 2
    gp, ge = BC._nutation_longitude(T), BC._nutation_obliquity(T)
    near(gp * SEC, dp, tol, f'nutation in longitude {T}')
    near(ge * SEC, de, tol, f'nutation in obliquity {T}')
    fp, fe = full_nutation(T)
    near(gp, fp, 1e-8, f'nutation in longitude {T}, all terms')
    near(ge, fe, 1e-8, f'nutation in obliquity {T}, all terms')
    eq(BC._nutation_obliquity_longitude(T), (gp, ge), f'nutation {T}')
    ob = BC._true_obliquity_of_ecliptic(T)
    near(ob, obliquity(T) + fe, 1e-7, f'obliquity {T}')
    # The one named degrees is 57.3 times too much: KF-SOLAR-UNITS.
    for fn, g in ((BC._nutation_longitude, gp), (BC._nutation_obliquity, ge)):
        d = fn(T, degrees=True)
        if abs(turn(d, g)) < 1e-9:
            continue
        near(turn(d, math.degrees(g)), 0, 1e-9, f'{fn.__name__}, degrees {T}')
        known(KF)


@P.check(instants, quick=2000, thorough=60000)
def equator(T):
    """Right ascension and declination, and the sidereal time."""
    om = node(T)
    fp, fe = full_nutation(T)
    true = obliquity(T) + fe
    eps, lam = true + .00256 * c(om), low(T) - .00569 - .00478 * s(om)
    ra = math.degrees(math.atan2(c(eps) * s(lam), c(lam)))
    got = BC._sun_apparent_right_ascension(T)
    eq(0 <= got < 360, True, f'right ascension {got} at {T}')
    near(turn(got, ra), 0, 2e-6, f'right ascension {T}')
    near(BC._sun_apparent_declination(T), math.degrees(math.asin(
        s(eps) * s(lam))), 2e-6, f'declination {T}')
    mean = (280.46061837 + 360.98564736629 * (T * 36525) + .000387933 * T * T
            - T ** 3 / 38710000)
    got = BC._mean_sidereal_time_greenwich(T)
    eq(0 <= got < 360, True, f'mean sidereal time {got} at {T}')
    near(turn(got, mean), 0, 1e-6, f'mean sidereal time {T}')
    app = BC._apparent_sidereal_time_greenwich(T)
    eq(0 <= app < 360, True, f'apparent sidereal time {app} at {T}')
    near(turn(app, got), fp * c(true), 1e-7, f'apparent sidereal time {T}')


@P.check(instants, quick=1500, thorough=60000)
def apparent(T):
    """Apparent longitude and latitude, and aberration."""
    jde = 2451545 + 36525 * T
    tm = T / 10
    near(BC._julian_centuries(jde), T, 1e-12, f'centuries of {jde}')
    near(BC._julian_millennia(jde), tm, 1e-13, f'millennia of {jde}')
    lon, r = sun(T)
    tol = lon_tol(T)
    dp, _ = nutation(T)
    got = BC._apparent_solar_longitude(jde)
    want = lon + (dp - .0903) / SEC - 20.4898 / r / SEC
    gr = math.degrees(BC._apparent_solar_longitude(jde, degrees=False))
    near(turn(gr, got), 0, 1e-8, f'longitude in radians {T}')
    if abs(turn(got, want)) > tol + 1 / SEC:
        # Nutation and aberration are degrees added to radians.
        lr = math.degrees(BC._heliocentric_ecliptical_longitude(tm) + math.pi
                          + BC._nutation_longitude(T) + BC._aberration(tm))
        near(turn(got, lr - .0903 / SEC), 0, 1e-5,
             f'apparent longitude {T}, want {want % 360}')
        known(KF)
    for fixed, n in ((True, 3548.193), (False, 3548.330)):
        a = BC._aberration(tm, fixed) * SEC
        # The daily motion, by Kepler's second law.
        if abs(a + 20.4898 / r) < .02:
            continue
        # The periodic terms are taken for degrees, so there are none.
        near(a, -.005775518 * r * n, .06, f'aberration {T}')
        known(KF)
    lat = BC._apparent_solar_latitude(jde)
    b = BC._heliocentric_ecliptical_latitude(tm)
    near(turn(lat, -math.degrees(b)), 0, .06 / SEC, f'apparent latitude {T}')
    near(turn(math.degrees(BC._apparent_solar_latitude(jde, degrees=False)),
              lat), 0, 1e-8, f'apparent latitude in radians {T}')


@P.sweep(lambda tier, seed: (0.24,))
def finding(T):
    """The known finding, on a fixed instant."""
    tilt(T)
    apparent(T)
