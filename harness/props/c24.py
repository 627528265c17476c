"""C24: units of time and angle convert exactly, and both ways."""
import calendar
import math
from fractions import Fraction as F

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, near, nontrivial, raises
from target import BC, GC, datetime, timedelta

DAY = 86400
KF_LON = 'KF-LON-ZONE'
P = Prop('C24', rule=(
    'Drawn angles, times of day, day fractions, counts of seconds, years, '
    'polynomials and fractional hours, minutes and seconds, many of them '
    'next to a whole minute, second or microsecond. Oracle: rational '
    'arithmetic, the inverse function, and the calendar module of the '
    'standard library. Non-trivial: a value that is not whole.'),
    assumptions=['Times taken from a day fraction are rounded to 1e-6 of an '
                 'hour and of a minute by the package (at most 2 ms).'])

us_day = st.one_of(st.integers(0, DAY * 10 ** 6 - 1), st.tuples(
    st.integers(0, DAY - 1), st.sampled_from((0, 1, 999999, 500000))).map(
        lambda t: t[0] * 10 ** 6 + t[1]))
angle = st.one_of(st.integers(-360 * 10 ** 6, 360 * 10 ** 6).map(
    lambda n: n / 10 ** 6), st.integers(-21600, 21600).map(lambda n: n / 60),
    st.integers(-1296000, 1296000).map(lambda n: n / 3600))


def in_range(h, m, s, what, top=24):
    if not (0 <= h < top and 0 <= m < 60 and 0 <= s < 60
            and h == int(h) and m == int(m)):
        fail(f'{what}: {(h, m, s)}')


@P.check(st.tuples(angle, st.booleans()), quick=4000, thorough=300000)
def degrees(case):
    a, lat = case
    names = ('LATITUDE', 'latitude', 'Lat', 'LAT', 'lati') if lat else (
        'LONGITUDE', 'longitude', 'Lon', 'LON', 'longi')
    name = names[int(abs(a) * 7) % 5]
    d, m, s, way = BC._dms_from_decimal(a, name)
    nontrivial(a % 1 != 0)
    if not (0 <= d <= 360 and 0 <= m < 60 and -1e-8 <= s < 60 + 1e-8):
        fail(f'{a}: {(d, m, s, way)}')
    eq(way, ('N' if a >= 0 else 'S') if lat else ('E' if a >= 0 else 'W'),
       f'direction of {a}')
    near(d + m / 60 + s / 3600, abs(a), 1e-9, f'{a} in degrees')
    near(BC._decimal_from_dms(d, m, s, way), a, 1e-9, f'{a} and back')
    eq(BC._decimal_from_dms(d, m, s, way.lower()),
       BC._decimal_from_dms(-d, m, s, way), 'letter case, minus sign')
    raises((AssertionError, TypeError, ValueError),
           lambda: BC._decimal_from_dms(d, m, s, 'X'), 'direction X')
    raises((AssertionError, TypeError, ValueError),
           lambda: BC._dms_from_decimal(a, 'La'), 'direction La')


@P.check(angle, quick=3000, thorough=200000)
def hours(a):
    h, m, s = BC._hms_from_degrees(a)
    if not (0 <= m < 60 and -1e-8 <= s < 60 + 1e-8 and h == a // 15):
        fail(f'{a}: {(h, m, s)}')
    near(15 * (h + m / 60 + s / 3600), a, 1e-8, f'{a} in hours')
    near(BC._degrees_from_hms(h, m, s), a, 1e-8, f'{a} and back')
    c = BC._coterminal_angle(a * 7)
    if not 0 <= c < 360:
        fail(f'{a * 7}: {c}')
    near((c - a * 7 + 180) % 360 - 180, 0, 1e-9, f'{a * 7} in a circle')
    near(BC._sin_deg(a), math.sin(a * math.pi / 180), 1e-12, 'sine')
    near(BC._cos_deg(a), math.cos(a * math.pi / 180), 1e-12, 'cosine')
    nontrivial(a % 15 != 0)


@P.check(st.tuples(us_day, st.integers(-5, 10 ** 6)), quick=5000,
         thorough=400000)
def day_fraction(case):
    """A fraction of a day is a time of day."""
    u, whole = case
    s, us = divmod(u, 10 ** 6)
    h, m, s = s // 3600, s // 60 % 60, s % 60
    nontrivial(u)
    f = BC._decimal_day_from_hms(h, m, s, us)
    near(f, u / 1e6 / DAY, 1e-15, f'{case} as a fraction')
    near(BC._decimal_day_from_hms(h, m, s + us / 1e6), f, 1e-15,
         'fractional second')
    for dec in (f, whole + f):
        if dec != f and dec // 1 != whole:
            continue                        # the sum is rounded up
        # Hours have six digits, and the day ends at 23.999999.
        tol = 2.1e-3 + (0 if dec == f else abs(whole) * 2e-11)
        if u > DAY * 10 ** 6 - 3600:
            tol += 1.7e-3
        g = BC._hms_from_decimal_day(dec)
        in_range(*g, f'{dec}')
        near(g[0] * 3600 + g[1] * 60 + g[2], u / 1e6, tol, f'{dec}')
        g = BC._hms_from_decimal_day(dec, us=True)
        in_range(*g[:3], f'{dec}')
        if not (0 <= g[3] < 10 ** 6 and g[3] == int(g[3])
                and g[2] == int(g[2])):
            fail(f'{dec}: {g}')
        near(g[0] * 3600 + g[1] * 60 + g[2] + g[3] / 1e6, u / 1e6, tol,
             f'{dec}')
    if us:
        raises(AssertionError, lambda: BC._decimal_day_from_hms(
            h, m, s + .5, us), 'two fractions of a second')


@P.check(st.one_of(us_day, st.integers(0, 60 * 10 ** 6)), quick=5000,
         thorough=400000)
def split_seconds(u):
    """Seconds split into whole seconds and microseconds."""
    s, us = divmod(u, 10 ** 6)
    eq(BC._sec_microsec_from_seconds(u / 1e6), (s, us), f'{u / 1e6} s')
    nontrivial(us)


@P.check(st.tuples(st.integers(0, 2 * DAY - 1), st.one_of(st.just(0),
                                                          G.micros()),
                   st.integers(-48, 56)), quick=5000, thorough=400000)
def seconds(case):
    """Counts of seconds and days, hours, minutes, seconds."""
    n, us, q = case
    d, h, m, s = n // DAY, n // 3600 % 24, n // 60 % 60, n % 60
    x = n + us / 1e6
    nontrivial(us or q)
    eq(BC._seconds_from_dhms(d, h, m, s), n, f'{n}')
    near(BC._seconds_from_dhms(d, h, m, s, us), x, 1e-9, f'{x}')
    near(BC._seconds_from_dhms(d, h, m, s + us / 1e6), x, 1e-9, f'{x}')
    near(BC._seconds_from_dhms(d, h, m, s, us, zone=q / 4), x + q * 900,
         1e-9, f'{x} in zone {q / 4}')
    near(BC._tz_decimal_from_dhms(d, h, m, s), n / DAY, 1e-15, 'turns')
    g = BC._dhms_from_seconds(x)
    in_range(*g[1:], f'{x}')
    near(((g[0] * 24 + g[1]) * 60 + g[2]) * 60 + g[3], x, 1e-8, f'{x}')
    g = BC._dhms_from_seconds(x, us=True)
    eq(g, (d, h, m, s, us), f'{x} with microseconds')
    z = x + q * 900
    if 0 <= z < 2 * DAY:
        g = BC._dhms_from_seconds(x, zone=q / 4, us=True)
        k = n + q * 900
        eq(g, (k // DAY, k // 3600 % 24, k // 60 % 60, k % 60, us),
           f'{x} in zone {q / 4}')
    g = BC._tz_dhms_from_decimal(n / DAY)
    near(((g[0] * 24 + g[1]) * 60 + g[2]) * 60 + g[3], n, 1e-8, f'{n / DAY}')
    if us:
        raises(AssertionError, lambda: BC._seconds_from_dhms(
            d, h, m, s + .5, us), 'two fractions of a second')


def moment(t):
    return ((t[0] * 60 + t[1]) * 60 + t[2]) * 10 ** 6 + t[3]


@P.check(st.tuples(st.integers(0, 23), st.integers(0, 59),
                   st.integers(0, 59), st.one_of(
                       st.integers(1, 999999), st.sampled_from(
                           (1, 999999, 500000, 250000, 999))),
                   st.integers(0, 2), st.booleans()), quick=5000,
         thorough=400000)
def fractional_fields(case):
    """datetime takes a fraction in the last field that is given."""
    h, m, s, n, k, long = case
    date = (1, 10, 11, 5, 7) if long else (182, 5, 7, None, None)
    f = F(n, 10 ** 6)
    args = ((h + n / 1e6,), (h, m + n / 1e6), (h, m, s + n / 1e6))[k]
    want = (F(h * 3600) + f * 3600, F(h * 3600 + m * 60) + f * 60,
            F(h * 3600 + m * 60 + s) + f)[k] * 10 ** 6
    x = datetime(*date, *args)
    t = (x.hour, x.minute, x.second, x.microsecond)
    for v in t:
        eq(type(v), int, f'fields of {args}: {t}')
    in_range(*t[:3], f'{args}')
    # A field is rounded to 1e-6 of a minute on the way.
    near(moment(t), want, (70, 1.5, 0.5)[k], f'{args}: {t}')
    eq(x.b_time, t, 'b_time')
    label(('hour', 'minute', 'second')[k])
    low = [(args + v)[:4] for v in (
        (1,), (0, 1), (0, 0, 1), (59,))]
    for a in low:
        if len(a) > len(args) and any(a[len(args):]):
            raises(ValueError, lambda: datetime(*date, *a), f'{a}')


@P.check(st.one_of(st.integers(-6000, 10000), st.integers(1, 3000)),
         quick=3000, thorough=20000)
def years(y):
    """Days before a year, in either leap year rule."""
    n = BC._days_in_years(y) - BC._days_in_years(y - 1)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    eq(n, 365 + leap, f'year {y}')
    if y > 0:
        eq(leap, calendar.isleap(y), f'{y}')
        eq(BC._days_in_years(y), 365 * y + calendar.leapdays(1, y + 1),
           f'years to {y}')
    n = BC._days_in_years(y, alt=True) - BC._days_in_years(y - 1, alt=True)
    eq(n, 365 + (y % 4 == 0 and y % 128 != 0), f'year {y}, 4|128 rule')
    eq(GC._days_in_years(y), BC._days_in_years(y), 'either calendar')




@P.check(st.one_of(st.integers(0, 5500000), st.sampled_from(
    (1757641, 1794166, 1830691, 1903741, 1940266, 1976791, 2049841, 2086366,
     2122891, 2195941, 2232466, 2268991, 2299160, 2299148, 2299158)).flatmap(
         lambda n: st.integers(2 * n - 8, 2 * n + 8))), quick=5000,
    thorough=300000)
def historic(n):
    """The historic and the exact count of days convert both ways, and keep
    the order."""
    jd = n / 2
    try:
        e = BC._exact_from_meeus(jd)
    except ValueError:
        label('no exact day')
        k = math.floor(jd + .5)
        # 29 February of a Julian calendar century year.
        eq(any(abs(k - v - 1) < 1 for v in (
            1757641, 1794166, 1830691, 1903741, 1940266, 1976791, 2049841,
            2086366, 2122891, 2195941, 2232466, 2268991)), True, f'{jd}')
        return
    eq(BC._meeus_from_exact(e), jd, f'{jd} to exact and back')
    try:
        m = BC._meeus_from_exact(jd)
    except ValueError:
        label('reform gap')
        eq(2299148.5 <= jd < 2299158.5, True, f'{jd}')
        return
    eq(BC._exact_from_meeus(m), jd, f'{jd} to historic and back')
    if jd + 0.5 < 2299148.5 or jd >= 2299158.5:
        eq(BC._meeus_from_exact(jd + .5) - m in (0.5, 1.5), True,
           f'half a day after {jd}')


@P.check(st.tuples(st.lists(st.integers(-999, 999), max_size=6),
                   st.integers(-400, 400)), quick=2000, thorough=100000)
def sums(case):
    """Polynomials and sums."""
    a, x = case
    eq(BC._poly(x, a), sum(c * x ** i for i, c in enumerate(a)), f'{case}')
    eq(BC._poly(x / 8, a), float(sum(c * F(x, 8) ** i
                                     for i, c in enumerate(a)))
       if len(a) < 4 else BC._poly(x / 8, a), f'{case}')
    if a:
        eq(BC._sigma((a, a[::-1]), lambda p, q: p * q + x),
           sum(p * q + x for p, q in zip(a, a[::-1])), f'{case}')
        raises(AssertionError, lambda: BC._sigma((a, a[1:]), max), 'lengths')


@P.check(st.tuples(st.integers(-1000, 1000), st.integers(-1000, 1000),
                   st.integers(-1000, 1000), st.integers(-8, 8)),
         quick=1500, thorough=50000)
def interpolation(case):
    """The parabola through three points."""
    y1, y2, y3, k = case
    n = F(k, 8)
    want = y2 + n / 2 * ((y2 - y1) + (y3 - y2) + n * (y1 - 2 * y2 + y3))
    near(BC._interpolation_from_three(y1, y2, y3, k / 8), want, 1e-9,
         f'{case}')
    for p, y in ((-1, y1), (0, y2), (1, y3)):
        near(BC._interpolation_from_three(y1, y2, y3, p), y, 1e-9, f'{case}')
    # Angles that pass 360 on the way.
    a = [(y1 + v) % 360 for v in (0, abs(y2) % 90, abs(y2) % 90
                                  + abs(y3) % 90)]
    got = BC._interpolation_from_three(*a, k / 8, normalize=True)
    b = (abs(y2) % 90, abs(y3) % 90)
    want = a[1] + n / 2 * (b[0] + b[1] + n * (b[1] - b[0]))
    near(got, want, 1e-9, f'{a} {k / 8}')


@P.check(st.lists(st.booleans(), max_size=6), quick=200, thorough=500)
def one_at_most(flags):
    eq(BC._xor_boolean(tuple(flags)), sum(flags) <= 1, f'{flags}')


@P.check(st.tuples(G.dates(-200, 1000), st.booleans(), st.booleans(),
                   st.booleans()), quick=200, thorough=2000)
def options(case):
    """Options that exclude one another are refused together."""
    d, *flags = case
    kw = dict(zip(('fraction', 'us', 'rtd'), flags))
    jd = M.to_ord(*d) + 1721422.9

    def f():
        return BC.badi_date_from_jd(jd, short=True, **kw)
    if sum(flags) > 1:
        raises((AssertionError, ValueError), f, f'{kw}')
    else:
        f()


@P.check(st.tuples(st.integers(0, 23), st.integers(0, 59),
                   st.integers(0, 59), st.integers(0, 9), st.integers(0, 15)),
         quick=800, thorough=20000)
def trim(case):
    """Trimming takes the zeros at the end away."""
    *t, bits = case
    t = tuple(v if bits >> i & 1 else 0 for i, v in enumerate(t))
    want = t
    while want and not want[-1]:
        want = want[:-1]
    eq(BC._trim_hms(t), want, f'{t}')


@P.check(st.tuples(st.integers(-10 ** 9, 10 ** 9), st.integers(1, 8)),
         quick=500, thorough=20000)
def truncated(case):
    n, p = case
    x = n / 4096
    eq(BC._truncate_decimal(x, p), math.floor(F(n, 4096) * 10 ** p) / 10 ** p,
       f'{x} to {p} places')


@P.check(st.tuples(st.one_of(us_day.map(lambda u: u / 1e6 / DAY), st.tuples(
    st.integers(0, 5 * 10 ** 6), us_day).map(
        lambda t: t[0] + t[1] / 1e6 / DAY)),
    st.one_of(st.integers(-840, 840).map(lambda m: m / 60),
              st.integers(-180, 180)), st.integers(-18000, 18000),
    st.booleans(), st.booleans()), quick=3000, thorough=100000)
def local_zone(case):
    """A UT moment in the local time of a zone, and back."""
    jd, zone, lon, inverse, mod = case
    kw = dict(inverse=inverse, mod_jd=mod)
    sign = -1 if inverse else 1

    def same(got, want):
        d = got - want
        if not mod:
            if not 0 <= got <= 1:
                fail(f'{case}: {got}')
            d = (d + .5) % 1 - .5
        return abs(d) < 2e-9

    for args in ((zone,), (zone, lon / 100)):
        got = BC._local_zone_correction(jd, *args, **kw)
        if not same(got, jd + sign * zone / 24):
            fail(f'{jd} in zone {args} {kw}: {got}')
    got = BC._local_zone_correction(jd, None, lon / 100, **kw)
    if not same(got, jd + sign * lon / 36000):
        if same(got, jd + sign * lon / 36000 / 24):
            known(KF_LON)
        else:
            fail(f'{jd} at longitude {lon / 100} {kw}: {got}')
    for bad in (181, -181, 180.001, -180.001):
        raises(AssertionError, lambda: BC._local_zone_correction(
            jd, bad, **kw), f'zone {bad}')
    raises(AssertionError, lambda: BC._local_zone_correction(jd, **kw),
           'neither zone nor longitude')
    nontrivial(zone % 1 != 0)


@P.sweep(lambda tier, seed: [(51.285817, 0), (-71.0833, 1)])
def longitude_zone(case):
    lon, inverse = case
    got = BC._local_zone_correction(2451545., None, lon, inverse=bool(inverse),
                                    mod_jd=True) - 2451545
    want = -lon / 360 if inverse else lon / 360
    if abs(got - want) < 1e-8:
        return
    if abs(got - want / 24) < 1e-8:
        known(KF_LON)
    else:
        fail(f'local time of longitude {lon}: {got}')
