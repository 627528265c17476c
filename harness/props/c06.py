"""C06: Badi' dates and Julian days convert both ways, at any place."""
from hypothesis import strategies as st

import astro
import gens as G
import model as M
from core import Prop, eq, fail, known, label, near, nontrivial, raises
from target import BC

STRICT = -260
TEHRAN = (35.69435, 51.288701, 3.5)
GAP, SPRING = 'KF-REFORM-GAP', 'KF-SPRING-DAY-END'
SKIPS = 'KF-SKIPPED-DAYS'
P = Prop('C06', rule=(
    'Drawn dates with times and drawn Julian days, in Tihran and at drawn '
    'places between 60 N and 60 S. Oracles: the round trip; for years from '
    '-260 on the independent sunset of the place, which says which day an '
    'instant belongs to and how long ago the day began; the options of the '
    'conversion agree with one another; later instants have later dates. '
    'Instants within 90 s of a sunset are trivial where the two sunset '
    'formulas may differ.'),
    assumptions=['Where the day is longer than 24 hours, its instants past '
                 '24:00 are the recorded finding KF-SPRING-DAY-END.',
                 'Julian days are rounded to 1e-6 day by the package.'])

place = st.one_of(st.none(), st.none(), G.cities(), st.tuples(
    st.integers(-600, 600), st.integers(-1799, 1799), st.integers(-12, 12)
    ).map(lambda t: (t[0] / 10, t[1] / 10, float(t[2]))))


def secs(t):
    return t[0] * 3600 + t[1] * 60 + t[2] + (t[3] / 1e6 if len(t) > 3 else 0)


def ends(y, m, d, args):
    """Julian day of the start of a day, and of the next."""
    j0 = BC.jd_from_badi_date((y, m, d), *args)
    n = M.to_ord(y, m, d)
    return j0, BC.jd_from_badi_date(M.from_ord(n + 1), *args)


@P.check(st.tuples(G.dates(), G.times(), place), quick=6000, thorough=400000)
def round_trip(case):
    (y, m, d), t, where = case
    args = where or ()
    n = M.to_ord(y, m, d)
    if M.near_skip(n) or n >= M.MAX_ORD:
        nontrivial(False)
        return
    j0, j1 = ends(y, m, d, args)
    s = secs(t)
    jd = BC.jd_from_badi_date((y, m, d) + t, *args)
    near(jd, j0 + s / 86400, 1.1e-6, f'the time of day of {case} in the JD')
    length = (j1 - j0) * 86400
    near(length, 86400, 900, f'length of the day {case}')
    back = BC.badi_date_from_jd(jd, *args, us=True, short=True)
    if s > min(length, 86400) - 5 or s < max(0, length - 86400) + 1:
        nontrivial(False)          # the seams between two days
        return
    eq(back[:3], (y, m, d), f'{case} -> {jd} -> date')
    near(secs(back[3:]), s, 0.2, f'{case} -> {jd} -> time')
    back = BC.badi_date_from_jd(jd, *args, us=True)
    eq(back[:5], M.long_of(y) + (m, d), f'{case} -> {jd} -> long date')
    near(secs(back[5:]), s, 0.2, f'{case} -> {jd} -> time (long)')
    label('place' if where else 'Tehran')


jds = st.tuples(st.integers(M.MIN_ORD + 2, M.MAX_ORD - 2),
                st.one_of(st.integers(0, 86399999),
                          st.integers(-300000, 300000)), place)


def instant(n, msec, lat, lon):
    """An instant of the local day n (its noon plus msec; negative or small
    msec: around its sunset)."""
    j = n + 1721422.5 + 0.5 - lon / 360
    return j + 0.25 + msec / 86400000 if msec < 300001 else j + msec / 86400000


@P.check(jds, quick=6000, thorough=400000)
def which_day(case):
    """The day is that of the last sunset, and the time that since it."""
    n, msec, where = case
    lat, lon, _ = where or TEHRAN
    if M.from_ord(n)[0] < STRICT:
        n = M.start(STRICT) + n % (M.MAX_ORD - M.start(STRICT) - 2) + 1
    jd = instant(n, msec, lat, lon)
    args = where or ()
    for k in (n + 1, n, n - 1):
        ss = astro.sunset_near(astro.ORD0 + k + 0.5 - lon / 360, lat, lon) \
            - astro.EXACT_SHIFT
        if ss <= jd:
            break
    nxt = astro.sunset_near(astro.ORD0 + k + 1.5 - lon / 360, lat, lon) \
        - astro.EXACT_SHIFT
    got = BC.badi_date_from_jd(jd, *args, us=True, short=True)
    want = M.from_ord(k)
    since = (jd - ss) * 86400
    if got[:3] == want:
        near(secs(got[3:]), since, astro.tol(want[0]) + .3, f'time of {case} (JD {jd})')
        nontrivial(since > 90)
    elif since < 60 and got[:3] == M.from_ord(k - 1):
        if secs(got[3:]) < 85000:
            fail(f'{case} (JD {jd}): {got}, just after the start of {want}')
        nontrivial(False)
    elif (nxt - jd) * 86400 < 60 and got[:3] == M.from_ord(k + 1):
        if secs(got[3:]) > 900:
            fail(f'{case} (JD {jd}): {got}, just before the end of {want}')
        nontrivial(False)
    elif since > 86400 - 60 and got[:3] == M.from_ord(k + 1) \
            and secs(got[3:]) < since - 86400 + 60:
        known(SPRING)
    else:
        fail(f'{case} (JD {jd}): {got}, want {want} + {since} s')


@P.check(jds, quick=4000, thorough=300000)
def there_and_back(case):
    n, msec, where = case
    lat, lon, _ = where or TEHRAN
    jd = instant(n, msec, lat, lon)
    args = where or ()
    if M.near_skip(n):
        nontrivial(False)
        return
    b = BC.badi_date_from_jd(jd, *args, us=True, short=True)
    got = (BC.jd_from_badi_date(b, *args) - jd) * 86400
    if abs(got) <= 0.3:
        return
    # Past 24:00 of a day longer than that: recorded.
    j0, _ = ends(*b[:3], args)
    p0 = BC.jd_from_badi_date(M.from_ord(M.to_ord(*b[:3]) - 1), *args)
    if secs(b[3:]) < 900 and 0 < got < (j0 - p0 - 1) * 86400 + 0.3 \
            and jd - p0 > 1 - 1e-5:
        known(SPRING)
        return
    fail(f'{case}: JD {jd} -> {b} -> {got} s later')


@P.check(st.tuples(jds, st.booleans()), quick=4000, thorough=200000)
def options(case):
    """Forms and options describe the same instant."""
    (n, msec, where), exact_sec = case
    lat, lon, _ = where or TEHRAN
    jd = instant(n, msec - msec % 1000 if exact_sec else msec, lat, lon)
    if M.near_skip(n):
        nontrivial(False)
        return
    args = where or ()
    f = BC.badi_date_from_jd
    sh = f(jd, *args, us=True, short=True)
    y, m, d = sh[:3]
    eq(M.valid(y, m, d), True, f'{sh} exists')
    h, mi, s, u = sh[3:]
    if not (0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60
            and 0 <= u < 10 ** 6):
        fail(f'{case}: fields of {sh}')
    lo = M.long_of(y)
    eq(f(jd, *args, us=True), lo + sh[1:], f'long form of {case}')
    for short, head in ((True, (y,)), (False, lo)):
        t = sh[3:]
        while t and t[-1] == 0:
            t = t[:-1]
        eq(f(jd, *args, us=True, short=short, trim=True), head + (m, d) + t,
           f'trimmed {case} short={short}')
        p = f(jd, *args, short=short)
        eq(p[:len(head) + 2], head + (m, d), f'date without us {case}')
        near(secs(p[len(head) + 2:] + (0,) * 3), secs(sh[3:]), 1.5e-3,
             f'time without us {case}: {p}')
    frac = secs(sh[3:]) / 86400
    if abs(frac - 0.5) > 1e-6:
        k = M.to_ord(y, m, d) + (frac > 0.5)
        if k <= M.MAX_ORD:
            eq(f(jd, *args, rtd=True, short=True), M.from_ord(k),
               f'rounded to the day {case}')
            r = M.from_ord(k)
            got = f(jd, *args, rtd=True)
            eq(tuple(got[:5]), M.long_of(r[0]) + r[1:],
               f'rounded to the day, long {case}')
            if any(got[5:]):
                fail(f'rounded to the day, time: {got}')
    fr = f(jd, *args, fraction=True)
    eq(fr[:2], (y, m), f'fraction {case}')
    near(fr[2], d + frac, 1.6e-6, f'fraction {case}')
    if not d <= fr[2] < d + 1:
        fail(f'fraction {case}: {fr} is not in day {d}')


@P.check(st.tuples(jds, st.one_of(st.integers(1, 10 ** 6),
                                  st.integers(10 ** 6, 10 ** 13))),
         quick=2500, thorough=150000)
def monotone(case):
    """Of two instants (milliseconds apart) the later has the later date."""
    (n, msec, where), gap = case
    lat, lon, _ = where or TEHRAN
    args = where or ()
    a = instant(n, msec, lat, lon)
    b = a + gap / 86400000
    if b > M.MAX_ORD + 1721421.5 or M.near_skip(n) \
            or M.near_skip(b - 1721422.5):
        nontrivial(False)
        return
    f = lambda j: BC.badi_date_from_jd(j, *args, us=True, short=True)
    p, q = f(a), f(b)
    key = lambda t: M.to_ord(*t[:3]) * 86400 + secs(t[3:])
    if key(p) <= key(q) + 0.001:
        return
    if gap < 10 ** 6 and secs(p[3:]) < 900 and secs(q[3:]) < 900 \
            and p[:3] == q[:3]:
        known(SPRING)
        return
    fail(f'{case}: {p} at JD {a} but {q} at {b}')


@P.sweep(lambda tier, seed: [9, 10, 11, 15, 18, 19, 20])
def reform_gap(d):
    y, m = (-261, 11) if d < 20 else (-261, 12)
    if 10 <= d <= 19:
        e = raises(ValueError, lambda: BC.jd_from_badi_date((y, m, d)), 'gap')
        eq('reform gap' in str(e), True, f'message {e}')
        known(GAP)
    else:
        BC.jd_from_badi_date((y, m, d % 19))


@P.sweep(lambda tier, seed: [(180, 3, 5, 50.0), (181, 4, 1, 55.0),
                             (5, 5, 5, 40.0)])
def spring(case):
    y, m, d, lat = case
    args = (lat, 10.0, 1.0)
    j0, j1 = ends(y, m, d, args)
    got = BC.badi_date_from_jd(j1 - 20 / 86400, *args, us=True, short=True)
    if got[:3] == (y, m, d):
        return
    eq(got[:3], M.from_ord(M.to_ord(y, m, d) + 1), f'{case}')
    near(secs(got[3:]), (j1 - j0) * 86400 - 86420, 1, f'{case}')
    known(SPRING)


@P.sweep(lambda tier, seed: [(n, hh) for n in M.SKIPPED
                             for hh in (1, 6, 12, 18, 23)])
def skipped_days(case):
    """Around the days the historic calendar has and the exact one skips."""
    n0, hh = case
    for args in ((), (50.0, -170.0, -11.0), (-50.0, 175.0, 12.0)):
        for n in range(n0 - 4, n0 + 5):
            want = M.from_ord(n)
            jd = BC.jd_from_badi_date(want + (hh,), *args)
            got = BC.badi_date_from_jd(jd, *args, us=True, short=True)
            eq(got[:3], want, f'{want + (hh,)} -> JD {jd}')
            off = abs(secs(got[3:]) - hh * 3600)
            if off > 0.3:
                if n - n0 in (-2, -1) and off < 140:
                    known(SKIPS)
                else:
                    fail(f'{want + (hh,)} -> JD {jd} -> {got}')


def edge_years(tier, seed):
    return sorted(range(M.MINYEAR, M.MAXYEAR), key=abs)


@P.sweep(edge_years)
def year_edges(y):
    """The last and the first day of every year, noon and midnight."""
    for yy, mm, dd in ((y, 19, 19), (y, 1, 1), (y, 0, M.ayyam(y)),
                       (y, 18, 19), (y, 19, 1)):
        if M.near_skip(M.to_ord(yy, mm, dd)):
            continue
        for hh in (6, 18):
            jd = BC.jd_from_badi_date((yy, mm, dd, hh))
            eq(BC.badi_date_from_jd(jd + 1e-5, short=True)[:4],
               (yy, mm, dd, hh), f'JD {jd}')
