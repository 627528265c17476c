"""C18: ISO weeks number every day once, and name it back."""
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from target import date, datetime

KF_52 = 'KF-ISO-WEEK-52'
KF_ORD = 'KF-ORD-FUDGE'
P = Prop('C18', rule=(
    'Every year with the days at its ends and drawn days and weeks, in both '
    'forms. Oracle: weeks counted in the integer model: week 1 is the first '
    'week, from Jalál, with four days of the year. Non-trivial: a day or '
    'week in the first or last week of a year, or a refused week.'))


def mk(d, long):
    return date(*M.long_of(d[0]), *d[1:]) if long else date(*d)


def year4(y):
    return ('-' if y < 0 else '') + f'{abs(y):04}'


def days(tier, seed):
    for y in range(M.MINYEAR, M.MAXYEAR + 1):
        n = M.ylen(y)
        for k in ((1, 2, 3, 4, 5, 8, n - 6, n - 3, n - 2, n - 1, n)
                  if tier != 'quick' else
                  (1 + (y + seed) % 4, 5 + (y + seed) % 300,
                   n - (y + seed) % 4)):
            yield M.from_doy(y, k), bool((y + k) % 2)


def iso_of(x, d):
    r = x.isocalendar()
    w = M.iso(*d)
    if tuple(r) != w and (d[0] in M.FUDGED or w[0] in M.FUDGED):
        known(KF_ORD)
        return
    eq(tuple(r), w, f'ISO date of {x!r}')
    eq((r.year, r.week, r.weekday), w, f'fields of the ISO date of {x!r}')
    eq(x.isoweekday(), w[2], f'ISO weekday of {x!r}')
    eq(x.weekday(), w[2] - 1, f'weekday of {x!r}')


@P.sweep(days)
def ends_of_years(case):
    d, long = case
    iso_of(mk(d, long), d)


@P.check(st.tuples(G.dates(), st.booleans(), G.times()), quick=3000,
         thorough=400000)
def iso_calendar(case):
    d, long, t = case
    x = mk(d, long)
    iso_of(x, d)
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    eq(tuple(datetime(*a, *t).isocalendar()), tuple(x.isocalendar()),
       'datetime')
    eq(str(x.isocalendar()).count('week='), 1, 'repr')
    w = M.iso(*d)[1]
    nontrivial(w in (1, 52, 53))


def from_iso(y, w, wd, long):
    n = M.iso_week1(y) + (w - 1) * 7 + wd - 1
    s = f'{year4(y)}-W{w:02}-{wd}'
    odd = M.weekday(M.start(y)) in (2, 3)
    if odd and w == 53 and w <= M.iso_weeks(y):
        try:
            date.fromisocalendar(y, w, wd)
        except AssertionError as e:
            eq('Invalid week' in str(e), True, str(e))
            known(KF_52)
            return
    if not 1 <= w <= M.iso_weeks(y):
        raises(AssertionError, lambda: date.fromisocalendar(y, w, wd), s)
        if 0 <= w <= 99:
            raises(ValueError, lambda: date.fromisoformat(s), s)
        return
    if not 1 <= wd <= 7:
        raises(AssertionError, lambda: date.fromisocalendar(y, w, wd), s)
        if 0 <= wd <= 9:
            raises((ValueError, AssertionError),
                   lambda: date.fromisoformat(s), s)
        return
    if odd and w == 52:
        try:
            r = date.fromisocalendar(y, w, wd)
        except (AssertionError, IndexError):
            if n + 7 <= M.MAX_ORD:
                raise
            known(KF_52)
            return
        if M.to_ord(*r.b_date) == n + 7:
            known(KF_52)
            return
    # The day must be of the calendar.
    if n > M.MAX_ORD or n < M.MIN_ORD:
        nontrivial(False)
        return
    r = date.fromisocalendar(y, w, wd, short=not long)
    d = M.from_ord(n)
    eq(r.is_short, not long, f'{s}: form')
    eq(r.b_date, M.long_of(d[0]) + d[1:] if long else d, s)
    eq(tuple(r.isocalendar()), (y, w, wd), f'{s} and back')
    z = date.fromisoformat(s)
    eq(z.b_date, d, f'text {s}')
    eq(date.fromisoformat(s.replace('-W', 'W')[:-2] + str(wd)).b_date, d,
       f'basic text of {s}')
    if wd == 1:
        eq(date.fromisoformat(s[:-2]).b_date, d, f'text {s[:-2]}')


def usable(y):
    return not any(k in M.FUDGED for k in (y - 1, y, y + 1)) and y != -261


@P.sweep(lambda tier, seed: [
    (y, w, 1 + (y + w + seed) % 7, bool((y + w) % 2))
    for y in range(M.MINYEAR, M.MAXYEAR + 1) if usable(y)
    for w in ((1, 52, 53) if tier == 'quick' else (0, 1, 2, 51, 52, 53, 54))])
def ends_from_iso(case):
    from_iso(*case)


@P.check(st.tuples(G.years().filter(usable), st.one_of(
    st.integers(1, 52), st.sampled_from((0, 1, 51, 52, 53, 54, -1, 99))),
    st.one_of(st.integers(1, 7), st.sampled_from((0, 1, 7, 8, -1))),
    st.booleans()), quick=3000, thorough=200000)
def from_iso_calendar(case):
    y, w, wd, long = case
    from_iso(y, w, wd, long)
    nontrivial(w in (1, 52, 53) or not 1 <= wd <= 7 or not 1 <= w <= 53)


@P.sweep(lambda tier, seed: [(y, n) for y in M.FUDGED for n in (1, 100)])
def fudged(case):
    d = M.from_doy(*case)
    iso_of(date(*d), d)


@P.sweep(lambda tier, seed: [(1, 52, 1, False), (181, 52, 1, False),
                             (175, 53, 7, True)])
def week_52(case):
    from_iso(*case)
