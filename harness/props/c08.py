"""C08: the Gregorian calendar and its Julian days."""
import datetime as S
import math

from hypothesis import strategies as st

from core import Prop, eq, fail, label, near, nontrivial, raises
from target import GC

EPOCH = 1721422.5         # exact Julian day of midnight of ordinal 0
P = Prop('C08', rule=(
    'Gregorian date-times of the years 1-9999 (exact count, against the '
    'standard library), -4711 to 9999 (historic count, against an '
    'independent Julian/Gregorian day count) and -1 to -9999 (round trip), '
    'and drawn Julian days. Non-trivial: a time of day, a year edge, a '
    'leap day, or a year before 1583.'),
    assumptions=['Times are kept in a day fraction rounded to 1e-6 day '
                 '(0.0864 s), the precision of the package.'])

gyear = st.one_of(st.integers(1, 9999), st.integers(1500, 2300),
                  st.integers(1, 99).map(lambda c: c * 100),
                  st.integers(0, 77).map(lambda c: c * 128 + 4),
                  st.sampled_from((1, 2, 4, 9998, 9999, 1582, 1583, 4713,
                                   4714)))


def secs(t):
    t = tuple(t) + (0,) * (4 - len(t))
    return t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6


@st.composite
def gdates(draw, year=gyear, julian=False):
    y = draw(year)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0
                           or julian and y < 1583)
    m = draw(st.one_of(st.integers(1, 12), st.sampled_from((1, 2, 3, 12))))
    last = (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
            31)[m - 1]
    d = draw(st.one_of(st.integers(1, last), st.sampled_from((1, last))))
    return y, m, d


tod = st.one_of(st.just(()), st.tuples(st.integers(0, 23)), st.tuples(
    st.integers(0, 23), st.integers(0, 59)), st.tuples(
    st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)))


def std(g):
    return S.datetime(*g[:3]) + S.timedelta(seconds=secs(g[3:]))


def ordinal(g):
    """Day number of any proleptic Gregorian date."""
    return days_from_civil(*g, True) - 1721425


def interesting(g, t):
    return bool(any(t)) or g[0] < 1583 or g[1:] in ((1, 1), (12, 31),
                                                    (2, 29), (2, 28), (3, 1))


@P.check(st.tuples(st.one_of(gdates(), gdates(), gdates(
    st.integers(-9999, 0))), tod), quick=8000, thorough=500000)
def exact(case):
    """The exact count is the standard library's day count."""
    g, t = case
    if g[0] > 0:
        eq(ordinal(g), S.date(*g).toordinal(), 'harness day count')
    jd = GC.jd_from_gregorian_date(g + t, exact=True)
    want = ordinal(g) + EPOCH + secs(t) / 86400
    near(jd, want, 1.1e-6, f'exact JD of {case}')
    back = GC.gregorian_date_from_jd(jd, exact=True)
    eq(back[:2], g[:2], f'month of JD {jd}')
    near(back[2], g[2] + secs(t) / 86400, 2.1e-6, f'day of JD {jd}')
    back = GC.gregorian_date_from_jd(jd + 1e-6, exact=True, hms=True, us=True)
    if g[0] > 0 and (g, t) < ((9999, 12, 31), (23, 59)):
        near((std(back) - S.datetime(*g, *t)).total_seconds() if t
             else (std(back) - S.datetime(*g)).total_seconds(), 0, 0.3,
             f'date-time of JD {jd}')
    nontrivial(interesting(g, t))


@P.check(st.tuples(st.one_of(st.integers(1, 3652058),
                             st.integers(577000, 1000000)),
                   st.integers(0, 86399)), quick=6000, thorough=400000)
def exact_from_jd(case):
    n, s = case
    jd = n + EPOCH + s / 86400
    want = S.datetime.fromordinal(n) + S.timedelta(seconds=s)
    for us in (False, True):
        g = GC.gregorian_date_from_jd(jd, exact=True, hms=True, us=us)
        eq(len(g), 7 if us else 6, f'fields of {g}')
        if not (0 <= g[3] < 24 and 0 <= g[4] < 60 and 0 <= g[5] < 60):
            fail(f'{case}: {g}')
        near((std(g) - want).total_seconds(), 0, 0.2, f'date of JD {jd}')
    near(GC.jd_from_gregorian_date(g[:5] + (g[5] + g[6] / 1e6,), exact=True),
         jd, 3e-6, f'JD {jd} -> {g} -> JD')
    nontrivial(s > 0)


def days_from_civil(y, m, d, gregorian):
    """Chronological Julian day number at noon, by an independent rule."""
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    n = d + (153 * mm + 2) // 5 + 365 * yy + yy // 4
    return n - yy // 100 + yy // 400 - 32045 if gregorian else n - 32083


hyear = st.one_of(st.integers(-4711, 9999), st.integers(1500, 1700),
                  st.integers(-50, 50), st.sampled_from((-4711, 0, -1, 1, 4,
                                                         100, 1500, 1582)))


@P.check(st.tuples(gdates(hyear, julian=True), tod), quick=8000, thorough=400000)
def historic(case):
    """The historic count: Julian calendar to 1582-10-04, then Gregorian."""
    g, t = case
    if (1582, 10, 5) <= g <= (1582, 10, 14):
        raises(AssertionError, lambda: GC.jd_from_gregorian_date(g + t),
               f'{g} does not exist')
        return
    jd = GC.jd_from_gregorian_date(g + t)
    want = days_from_civil(*g, g >= (1582, 10, 15)) - 0.5 + secs(t) / 86400
    near(jd, want, 1.1e-6, f'historic JD of {case}')
    back = GC.gregorian_date_from_jd(jd + 5e-7)
    eq(back[:2], g[:2], f'month of historic JD {jd}')
    near(back[2], g[2] + secs(t) / 86400, 3e-6, f'day of historic JD {jd}')
    eq(GC.gregorian_year_from_jd(jd + 5e-7), g[0], f'year of JD {jd}')
    nontrivial(interesting(g, t))


def chosen_years(tier, seed):
    full = set(range(1575, 1605)) | {-4711, -4710, -401, -400, -101, -100,
                                     -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5,
                                     9998, 9999}
    full |= {c + k for c in range(-4600, 9999, 100) for k in (-1, 0, 1)}
    if tier != 'quick':
        full = set(range(-4711, 10000))
    return sorted(full, key=lambda y: (abs(y - 1582) > 20, abs(y - 1582)))


@P.sweep(chosen_years)
def every_day(y):
    """Each day of a year, in both counts: day after day, and back."""
    for exact in (False, True):
        if y < 1 and exact:
            continue            # drawn in exact(), the year 0 is not claimed
        jd = None
        for m in range(1, 13):
            for d in range(1, 32):
                greg = exact or (y, m, d) >= (1582, 10, 15)
                n = days_from_civil(y, m, d, greg)
                if n >= days_from_civil(y + m // 12, m % 12 + 1, 1, greg):
                    break
                if not exact and (1582, 10, 5) <= (y, m, d) < (1582, 10, 15):
                    continue
                if jd is not None and exact:
                    eq(n - 0.5 - jd, 1, f'day before {(y, m, d)}')
                jd = n - 0.5
                want = jd + (EPOCH - 1721424.5 if exact else 0)
                eq(GC.jd_from_gregorian_date((y, m, d), exact=exact), want,
                   f'JD of {(y, m, d)}, exact={exact}')
                for f in (0, 0.25, 0.75):
                    eq(GC.gregorian_date_from_jd(want + f, exact=exact),
                       (y, m, d + f), f'date of JD {want + f}')
                eq(GC.gregorian_date_from_jd(want + .5, hms=True,
                                             exact=exact),
                   (y, m, d, 12, 0, 0), f'date and time of JD {want + .5}')
                near(GC.jd_from_gregorian_date((y, m, d, 18, 30),
                                               exact=exact),
                     want + 18.5 / 24, 1.1e-6, f'JD of {(y, m, d)}, 18:30')
                eq(GC.gregorian_year_from_jd(want) if not exact else y, y,
                   f'year of JD {want}')


@P.check(st.tuples(gdates(st.one_of(gyear, st.integers(-9999, 9999))),
                   st.booleans()), quick=5000, thorough=200000)
def alternative_leap_rule(case):
    """With one leap year in four but for multiples of 128."""
    (y, m, d), alt = case
    leap = y % 4 == 0 and (y % 128 != 0 if alt
                           else y % 100 != 0 or y % 400 == 0)
    eq(bool(GC._is_leap_year(y, alt=alt)), leap, f'leap year {y} alt={alt}')
    if not alt or (m, d) == (2, 29):
        nontrivial(leap)
        return
    n = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 128
    n += sum((31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:m - 1])
    jd = GC.jd_from_gregorian_date((y, m, d), exact=True, alt=True)
    near(jd, n + d + EPOCH, 1e-6, f'JD of {case}')
    if 1 <= y <= 4000:
        back = GC.gregorian_date_from_jd(jd, exact=True, alt=True)
        eq(back, (y, m, d), f'date of JD {jd} alt')


@P.check(st.one_of(st.integers(1721423, 2299146), st.integers(2299159,
                                                              2900000)),
         quick=6000, thorough=300000)
def counts_convert(n):
    """Exact and historic counts convert to one another, by date."""
    jd = n + 0.5
    o = int(jd - EPOCH)
    g = S.date.fromordinal(o)
    hist = days_from_civil(g.year, g.month, g.day, g >= S.date(1582, 10, 15))
    got = GC._meeus_from_exact(jd)
    eq(got, hist - 0.5, f'historic JD of exact {jd} ({g})')
    eq(GC._exact_from_meeus(got), jd, f'exact JD of historic {got}')
    eq(GC._meeus_from_exact(jd + 0.25) - got, 0.25, 'in the day')
    nontrivial(o < 600000)


field = st.one_of(st.integers(-12, 40), st.integers(0, 62),
                  st.sampled_from((0, 1, 12)))


@P.check(st.tuples(st.integers(-3000, 9999), field, field,
                   st.one_of(st.just(()), st.tuples(field), st.tuples(
                       field, field), st.tuples(field, field, field))),
         quick=5000, thorough=200000)
def validation(case):
    """Only dates and times that exist are accepted."""
    y, m, d, t = case
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    last = (31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
    tt = t + (0,) * (3 - len(t))
    ok = (1 <= m <= 12 and 1 <= d <= last[m - 1] and 0 <= tt[0] < 24
          and 0 <= tt[1] < 60 and 0 <= tt[2] <= 60)
    f = lambda: GC.jd_from_gregorian_date((y, m, d) + t, exact=True)
    if ok and tt[2] == 60:
        label('leap second')    # taken or refused
    elif ok:
        f()
    else:
        raises(AssertionError, f, f'{case}')
    nontrivial(not ok)


@P.check(st.tuples(gdates(), st.tuples(st.integers(0, 23), st.integers(0, 59),
                                       st.integers(0, 59),
                                       st.integers(0, 999999))),
         quick=4000, thorough=200000)
def pack(case):
    """A time of day and a day fraction convert to one another."""
    g, t = case
    p = GC.date_from_ymdhms(g + t[:2] + (t[2] + t[3] / 1e6,))
    eq(p[:2], g[:2], 'month')
    near(p[2], g[2] + secs(t) / 86400, 6e-7, f'packed {case}')
    if p[2] >= g[2] + 1 - 1e-6:
        nontrivial(False)
        return
    q = GC.ymdhms_from_date(p, us=True)
    eq(q[:3], g, f'unpacked {p}')
    near(secs(q[3:]), secs(t), 0.06, f'unpacked {p}')
    q = GC.ymdhms_from_date(p)
    eq(q[:3], g, f'unpacked {p}')
    near(secs(q[3:]), secs(t), 0.06, f'unpacked {p}')
    q = GC.ymdhms_from_date(g + t, us=True)
    eq(q[:3], g, f'from fields {g + t}')
    near(secs(q[3:]), secs(t), 5e-3, f'from fields {g + t}')
    eq(0 <= q[6] < 10 ** 6 and 0 <= q[5] < 60 and 0 <= q[4] < 60
       and 0 <= q[3] < 24, True, f'fields {q}')


@P.check(st.tuples(st.one_of(
    st.integers(-62135510400, 253402214400), st.integers(-10 ** 6, 10 ** 6),
    st.tuples(st.integers(2, 9998), st.integers(-90000, 90000)).map(
        lambda t: (S.date(t[0], 1, 1).toordinal() - 719163) * 86400 + t[1])),
    st.one_of(st.just(0), st.integers(0, 999999)), st.integers(-48, 56),
    st.booleans()), quick=4000, thorough=200000)
def posix(case):
    """The date and time of a POSIX timestamp in a time zone."""
    n, us, q, split = case
    want = S.datetime(1970, 1, 1) + S.timedelta(
        seconds=n + q * 900, microseconds=us)
    got = GC.posix_timestamp(n + us / 1e6, zone=q / 4, us=split)
    tol = 1e-6 + abs(n) * 4e-16       # a float has as many digits
    eq(len(got), 7 if split else 6, f'fields of {got}')
    if split:
        eq((type(got[5]), type(got[6])), (int, int), f'types in {got}')
    # Seconds that are rounded up may be 60.
    s = got[5] + (got[6] / 1e6 if split else 0)
    if not 0 <= s <= 60:
        fail(f'{case}: {got}')
    near((S.datetime(*got[:5]) + S.timedelta(seconds=s)
          - want).total_seconds(), 0, tol + 1e-6, f'{case}: {got}')
    nontrivial(n < 0 or want.timetuple().tm_yday in (1, 365, 366))
