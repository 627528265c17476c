"""C09: date arithmetic counts days."""
from datetime import timedelta as S_td

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from target import D, date, datetime, timedelta

KF_FUDGE, KF_GAP = 'KF-ORD-FUDGE', 'KF-REFORM-GAP'
P = Prop('C09', rule=(
    'Drawn dates (both forms) and timedeltas of -3000 to 3000 years, most '
    'landing in range, some one day to either side of its ends. Oracle: '
    'ordinals of the integer model. Non-trivial: a step across a month, a '
    'year or the end of the range.'),
    assumptions=['Results inside the Gregorian reform gap and dates of the '
                 'three years of KF-ORD-FUDGE are recorded findings.'])


def mk(d, long):
    return date(*M.long_of(d[0]), *d[1:]) if long else date(*d)


def tup(x):
    if x.is_short:
        return x.year, x.month, x.day
    return M.short_of(x.kull_i_shay, x.vahid, x.year), x.month, x.day


deltas = st.one_of(st.integers(-25, 25), st.integers(-800, 800),
                   st.integers(-1100000, 1100000))
dates = G.dates(safe=True)


@st.composite
def step(draw):
    """A date and a number of days, which mostly lands in range."""
    a = draw(dates)
    n = M.to_ord(*a)
    k = draw(st.integers(0, 9))
    if k < 4:
        return a, draw(st.integers(M.MIN_ORD, M.MAX_ORD)) - n
    if k == 4:
        return a, draw(st.sampled_from((M.MIN_ORD, M.MAX_ORD))) - n \
            + draw(st.integers(-2, 2))
    return a, draw(deltas)


@P.check(st.tuples(step(), st.booleans(), st.integers(0, 86399),
                   st.integers(0, 5)), quick=8000, thorough=500000)
def add(case):
    (a, k), long, secs, form = case
    x = mk(a, long)
    n = M.to_ord(*a) + k
    td = timedelta(k, secs)          # the seconds do not count
    ops = {0: lambda: x + td, 1: lambda: td + x,
           2: lambda: x - timedelta(-k), 3: lambda: x + timedelta(k),
           4: lambda: x - timedelta(-k - 1, 86399),
           5: lambda: x - -timedelta(k)}
    op = ops[form]
    if form == 4:
        n += 1                       # -(days) of the timedelta
    if not M.MIN_ORD <= n <= M.MAX_ORD:
        raises(OverflowError, op, f'{case}: ordinal {n} is out of range')
        label('overflow')
        return
    if M.GAP_FIRST <= n <= M.GAP_LAST:
        e = raises(ValueError, op, 'gap')
        eq('reform gap' in str(e), True, str(e))
        known(KF_GAP)
        return
    r = op()
    eq(tup(r), M.from_ord(n), f'{case}')
    eq(r.is_short, not long, f'form of the result of {case}')
    eq(type(r), date, 'type')
    nontrivial(r.month != a[1] or r.year != x.year)


@P.check(st.tuples(dates, dates, st.booleans(), st.booleans()),
         quick=6000, thorough=400000)
def subtract(case):
    a, b, la, lb = case
    x, y = mk(a, la), mk(b, lb)
    want = M.to_ord(*a) - M.to_ord(*b)
    got = x - y
    eq(got, timedelta(want), f'difference of {a} and {b}')
    eq(y - x, -got, f'reversed difference of {a} and {b}')
    if not M.GAP_FIRST <= M.to_ord(*a) <= M.GAP_LAST:
        eq(tup(y + got), a, f'{b} + ({a} - {b})')
    nontrivial(want != 0)


@P.check(st.tuples(dates, deltas, deltas, st.booleans()), quick=4000,
         thorough=200000)
def steps_add_up(case):
    """(d + a) + b == d + (a + b), and d + a - a == d."""
    d, a, b, long = case
    n = M.to_ord(*d)
    bad = False
    for k in (n + a, n + a + b):
        if not M.MIN_ORD <= k <= M.MAX_ORD \
                or M.GAP_FIRST <= k <= M.GAP_LAST \
                or M.from_ord(k)[0] in M.FUDGED:
            bad = True
    if bad:
        nontrivial(False)
        return
    x = mk(d, long)
    p = x + timedelta(a)
    eq(p - timedelta(a), x, f'{case}: there and back')
    eq(p + timedelta(b), x + timedelta(a + b), f'{case}')
    eq((p > x, p == x), (a > 0, a == 0), f'{case}: order')


@P.check(st.tuples(dates, st.sampled_from(
    ('1', '1.5', 'None', 'object()', "'x'", '(1,)'))), quick=300,
    thorough=3000)
def other_types(case):
    d, other = case
    x, o = date(*d), eval(other)
    for op in (lambda: x + o, lambda: x - o, lambda: o + x, lambda: o - x,
               lambda: x + x):
        raises(TypeError, op, f'{x!r} with {other}')


@P.sweep(lambda tier, seed: [-1796, -1792, -1788])
def fudged(y):
    """The recorded ordinals show in differences, by exactly one day."""
    got = (date(y + 1, 1, 1) - date(y, 1, 1)).days
    if got == M.ylen(y):
        return
    eq(got, M.ylen(y) - 1, f'length of year {y}')
    known(KF_FUDGE)


@P.sweep(lambda tier, seed: [0])
def range_ends(_):
    for lo, hi, long in ((date.min, date.max, False),
                         (date.longmin, date.longmax, True)):
        eq((tup(lo), tup(hi)), ((M.MINYEAR, 1, 1), (M.MAXYEAR, 19, 19)),
           'ends')
        raises(OverflowError, lambda: lo - timedelta(1), 'before min')
        raises(OverflowError, lambda: hi + timedelta(1), 'after max')
        raises(OverflowError, lambda: hi + timedelta.max, 'after max')
        raises(OverflowError, lambda: lo + timedelta.min, 'before min')
        eq(hi - lo, timedelta(M.MAX_ORD - M.MIN_ORD), 'range')
        eq(tup(lo + (hi - lo)), tup(hi), 'min to max')
        eq(tup(hi - (hi - lo)), tup(lo), 'max to min')
    eq(date.resolution, timedelta(1), 'resolution')
    eq(timedelta, S_td, 'timedelta')
    a = date.fromordinal(M.GAP_FIRST - 1)
    e = raises(ValueError, lambda: a + timedelta(1), 'gap')
    eq('reform gap' in str(e), True, str(e))
    known(KF_GAP)
