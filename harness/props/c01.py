"""C01: every day has one ordinal, and ordinals count days."""
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial
from target import date, datetime

P = Prop('C01', rule=(
    'Cases are dates or ordinals of the supported range: for every year a '
    'seeded choice of days plus its edges (all days in the thorough tier), '
    'and Hypothesis-drawn dates/ordinals weighted to month, year, leap and '
    'range edges. Oracle: an integer model of the calendar over a committed '
    'leap-year table. Every case compares at least one computed ordinal, '
    'date or weekday with the model, so every distinct case is non-trivial.'))

KF_FUDGE, KF_GAP = 'KF-ORD-FUDGE', 'KF-REFORM-GAP'


def ordinal_of(y, m, d, long=False):
    """toordinal, with the recorded findings mapped onto the model."""
    want = M.to_ord(y, m, d)
    dt = date(*M.long_of(y), m, d) if long else date(y, m, d)
    got = dt.toordinal()
    if y in M.FUDGED and got == want + 1:
        known(KF_FUDGE)
        got = want
    eq(got, want, f'ordinal of {(y, m, d)} long={long}')
    return got


def check_day(y, m, d, long=False):
    ordinal_of(y, m, d, long)
    back(M.to_ord(y, m, d), long)


def back(n, long=False):
    want = M.from_ord(n)
    try:
        dt = date.fromordinal(n, short=not long)
    except ValueError as e:
        if M.GAP_FIRST <= n <= M.GAP_LAST and 'reform gap' in str(e):
            known(KF_GAP)
            return
        raise
    if long:
        got = (M.short_of(dt.kull_i_shay, dt.vahid, dt.year), dt.month, dt.day)
        eq((dt.kull_i_shay, dt.vahid, dt.year), M.long_of(got[0]),
           f'canonical long form of ordinal {n}')
    else:
        got = (dt.year, dt.month, dt.day)
    eq(dt.is_short, not long, 'form')
    eq(got, want, f'date of ordinal {n} long={long}')
    wd = dt.weekday()
    if wd != M.weekday(n):
        if want[0] in M.FUDGED and wd == M.weekday(n + 1):
            known(KF_FUDGE)
        else:
            fail(f'weekday of {want}: got {wd}, want {M.weekday(n)}')
    eq(dt.isoweekday(), wd + 1, f'isoweekday of {want}')


def year_cases(tier, seed):
    out = []
    for y in sorted(range(M.MINYEAR, M.MAXYEAR + 1), key=abs):
        n = M.ylen(y)
        if tier == 'thorough':
            ds = list(range(1, n + 1))
        else:
            h = (seed ^ (y * 2654435761)) & 0xffffffff
            ds = sorted({1, 342, 343, 342 + M.ayyam(y), 343 + M.ayyam(y), n,
                         1 + h % n, 1 + (h // 401) % n})
        out.append((y, ds))
    return out


@P.sweep(year_cases)
def every_year(case):
    y, ds = case
    for k in ds:
        check_day(*M.from_doy(y, k), long=(k + y) % 3 == 0)


@P.check(st.tuples(G.dates(), st.booleans()), quick=3000, thorough=200000)
def any_date(case):
    (y, m, d), long = case
    check_day(y, m, d, long)
    # the day after is the next ordinal
    n = M.to_ord(y, m, d)
    if n < M.MAX_ORD:
        ordinal_of(*M.from_ord(n + 1), long=long)
    label('ayyam' if m == 0 else 'month 19' if m == 19 else 'month 1-18')


@P.check(st.tuples(st.one_of(
    st.integers(M.MIN_ORD, M.MAX_ORD),
    st.integers(M.MIN_ORD, M.MIN_ORD + 400),
    st.integers(M.MAX_ORD - 400, M.MAX_ORD),
    st.integers(M.GAP_FIRST - 40, M.GAP_LAST + 40),
    st.integers(M.MINYEAR, M.MAXYEAR).flatmap(
        lambda y: st.integers(-2, 2).map(
            lambda k: min(M.MAX_ORD, max(M.MIN_ORD, M.start(y) + k))))),
    st.booleans()), quick=3000, thorough=200000)
def any_ordinal(case):
    n, long = case
    back(n, long)


@P.check(st.tuples(G.dates(safe=True), G.times(), st.booleans()),
         quick=1500, thorough=60000)
def datetime_agrees(case):
    """A datetime has the ordinal and weekday of its date, at any hour."""
    (y, m, d), (hh, mm, ss, us), long = case
    a = M.long_of(y) + (m, d) if long else (y, m, d, None, None)
    dt = datetime(*a, hh, mm, ss, us)
    n = M.to_ord(y, m, d)
    eq(dt.toordinal(), n, 'datetime ordinal')
    eq(dt.weekday(), M.weekday(n), 'datetime weekday')
    eq(dt.isoweekday(), M.weekday(n) + 1, 'datetime isoweekday')
    nontrivial((hh, mm, ss, us) != (0, 0, 0, 0))


@P.check(st.tuples(G.dates(), G.dates()), quick=1500, thorough=60000)
def order(case):
    """Ordinals are ordered as the dates are (no two days share one)."""
    a, b = case
    if a[0] in M.FUDGED or b[0] in M.FUDGED:
        nontrivial(False)
        return
    x, y = date(*a).toordinal(), date(*b).toordinal()
    key = lambda t: (t[0], M.doy(*t))
    eq((x > y) - (x < y), (key(a) > key(b)) - (key(a) < key(b)),
       f'order of the ordinals of {a} and {b}')
    nontrivial(a != b)
