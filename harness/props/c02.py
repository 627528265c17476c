"""C02: a date or time can be built exactly when the calendar has it."""
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial, raises
from target import BC, date, datetime, time, timezone, timedelta

REJECT = (AssertionError, ValueError, TypeError, OverflowError)

P = Prop('C02', rule=(
    'Field tuples drawn around the valid range (valid, one off, far off) for '
    'short and long form dates, datetimes and times, and a sweep over every '
    'year. Oracle: the model calendar says which exist; acceptance must '
    'agree, the fields read back must be the ones given. Non-trivial: a '
    'rejected case, an Ayyam-i-Ha case or a case at the edge of a field.'),
    assumptions=['The constructors accept one year beyond each end of the '
                 'supported range on purpose; nothing is claimed there.'])

near = st.one_of(st.integers(-2, 22), st.sampled_from((0, 1, 4, 5, 6, 19, 20)))
anyint = st.integers(-10 ** 6, 10 ** 6)


def claims(y):
    return M.MINYEAR <= y <= M.MAXYEAR or y < M.MINYEAR - 1 \
        or y > M.MAXYEAR + 1


def build(ok, fn, what):
    if ok:
        return fn()
    raises(REJECT, fn, what)
    return None


@P.sweep(lambda tier, seed: sorted(range(M.MINYEAR, M.MAXYEAR + 1), key=abs))
def ayyam_i_ha_length(y):
    """4 or 5 days of Ayyam-i-Ha, as the year has 365 or 366 days."""
    k = M.ayyam(y)
    for d in range(1, k + 1):
        eq((date(y, 0, d).month, date(y, 0, d).day), (0, d), 'fields')
    raises(REJECT, lambda: date(y, 0, k + 1), f'{(y, 0, k + 1)}')
    raises(REJECT, lambda: date(y, 0, 0), f'{(y, 0, 0)}')
    raises(REJECT, lambda: datetime(y, 0, k + 1), f'datetime {(y, 0, k + 1)}')
    datetime(y, 0, k)
    lf = M.long_of(y)
    date(*lf, 0, k)
    datetime(*lf, 0, k)
    raises(REJECT, lambda: date(*lf, 0, k + 1), f'{lf + (0, k + 1)}')
    raises(REJECT, lambda: datetime(*lf, 0, k + 1), f'dt {lf + (0, k + 1)}')
    raises(REJECT, lambda: BC.jd_from_badi_date((y, 0, k + 1)), 'jd')


@P.check(st.tuples(
    st.one_of(G.years(), st.sampled_from(
        (M.MINYEAR - 2, M.MINYEAR - 3, M.MAXYEAR + 2, M.MAXYEAR + 3)), anyint),
    st.one_of(near, near, anyint), st.one_of(near, near, near, anyint)),
    quick=8000, thorough=400000)
def short_date(case):
    y, m, d = case
    if not claims(y):
        nontrivial(False)
        return
    ok = M.valid(y, m, d)
    x = build(ok, lambda: date(y, m, d), f'date{case}')
    z = build(ok, lambda: datetime(y, m, d), f'datetime{case}')
    if ok:
        eq((x.year, x.month, x.day), case, 'date fields')
        eq((z.year, z.month, z.day), case, 'datetime fields')
        eq((z.hour, z.minute, z.second, z.microsecond, z.tzinfo, z.fold),
           (0, 0, 0, 0, None, 0), 'datetime defaults')
        eq((x.is_short, z.is_short), (True, True), 'form')
        eq(tuple(x.b_date), case, 'b_date')
        eq(tuple(z.b_date), case, 'b_date')
        label('ayyam' if m == 0 else 'valid')
        nontrivial(m == 0 or d in (1, 19) or m == 19)
    else:
        label('rejected')


@P.check(st.tuples(G.dates(), st.tuples(
    st.integers(0, 4), st.one_of(st.integers(-1, 21), anyint))),
    quick=6000, thorough=300000)
def long_date(case):
    """A valid long form date with at most one field replaced."""
    (y, m, d), (i, v) = case
    f = list(M.long_of(y) + (m, d))
    f[i] = v
    k, va, yy, m2, d2 = f
    sy = M.short_of(k, va, yy)
    shape = 1 <= va <= 19 and 1 <= yy <= 19 and 0 <= m2 <= 19
    if shape and -5 <= k <= 4 and not M.MINYEAR <= sy <= M.MAXYEAR:
        nontrivial(False)       # long dates beyond the years: nothing claimed
        return
    if k in (-6, 5):
        nontrivial(False)
        return
    ok = (shape and -5 <= k <= 4 and 1 <= d2 <= M.mlen(sy, m2))
    x = build(ok, lambda: date(*f), f'date{f}')
    z = build(ok, lambda: datetime(*f), f'datetime{f}')
    if ok:
        for o in (x, z):
            eq([o.kull_i_shay, o.vahid, o.year, o.month, o.day], f, 'fields')
            eq(o.is_short, False, 'form')
            eq(list(o.b_date), f, 'b_date')
    label('valid' if ok else f'rejected field {i}')


tfield = st.one_of(st.integers(-1, 62), anyint)
hfield = st.one_of(st.integers(-1, 26), anyint)
ufield = st.one_of(G.micros(), st.sampled_from((-1, 1000000, 999999)), anyint)


@P.check(st.tuples(G.dates(), st.one_of(
    st.tuples(hfield, tfield, tfield, ufield), G.times(),
    st.tuples(hfield, G.sixty(), G.sixty(), G.micros()),
    st.tuples(G.hours(), tfield, G.sixty(), G.micros()),
    st.tuples(G.hours(), G.sixty(), tfield, G.micros()),
    st.tuples(G.hours(), G.sixty(), G.sixty(), ufield)),
    st.sampled_from((0, 0, 0, 1, 2, -1)), st.booleans()),
    quick=6000, thorough=300000)
def time_fields(case):
    (y, m, d), (hh, mm, ss, us), fold, long = case
    # The last Badi' day may exceed 24 h: hour 24 is in range; so is a leap
    # second (60).
    ok = (0 <= hh <= 24 and 0 <= mm <= 59 and 0 <= ss <= 60
          and 0 <= us <= 999999 and fold in (0, 1))
    a = M.long_of(y) + (m, d) if long else (y, m, d, None, None)
    t = build(ok, lambda: time(hh, mm, ss, us, fold=fold), f'time {case}')
    z = build(ok, lambda: datetime(*a, hh, mm, ss, us, fold=fold),
              f'datetime {case}')
    if ok:
        for o in (t, z):
            eq((o.hour, o.minute, o.second, o.microsecond, o.fold, o.tzinfo),
               (hh, mm, ss, us, fold, None), 'time fields')
        eq(tuple(z.b_time), (hh, mm, ss, us), 'b_time')
    label('valid' if ok else 'rejected')


@P.check(st.tuples(
    G.dates(), st.booleans(), st.integers(0, 2), st.integers(1, 999),
    st.tuples(G.hours(), G.sixty(), G.sixty(), G.micros()),
    st.lists(st.booleans(), min_size=3, max_size=3)),
    quick=2500, thorough=50000)
def fraction_followed(case):
    """A fraction of a field is refused before a field that is not zero."""
    (y, m, d), long, i, n, t, keep = case
    t = [v if k else 0 for v, k in zip(t, [True] + keep)]
    t[i] += n / 1000
    a = M.long_of(y) + (m, d) if long else (y, m, d, None, None)
    if any(t[i + 1:]):
        raises(REJECT, lambda: datetime(*a, *t), f'{t}')
        label('rejected')
    else:
        x = datetime(*a, *t)
        eq((x.hour, x.minute, x.second)[:i + 1],
           tuple(int(v) for v in t[:i + 1]), f'{t}')
        label('valid')


@P.check(st.tuples(G.dates(safe=True), st.one_of(
    st.tuples(hfield, tfield, tfield), G.times().map(lambda t: t[:3])),
    st.integers(-1, 6)), quick=1500, thorough=50000)
def conversions_reject(case):
    """The calendar's conversions check their dates as the constructors do."""
    (y, m, d), (hh, mm, ss), extra = case
    if extra >= 0:
        d2 = d
    else:
        d2 = M.mlen(y, m) + 1
    if ss == 60 or hh == 24:
        nontrivial(False)
        return
    ok = (1 <= d2 <= M.mlen(y, m) and 0 <= hh <= 23 and 0 <= mm <= 59
          and 0 <= ss <= 59)
    f = (y, m, d2, hh, mm, ss)
    lf = M.long_of(y) + (m, d2, hh, mm, ss)
    for what, fn in (
            ('jd_from_badi_date', lambda: BC.jd_from_badi_date(f)),
            ('gregorian', lambda: BC.gregorian_date_from_badi_date(f)),
            ('timestamp', lambda: BC.timestamp_from_badi_date(f)),
            ('to long', lambda: BC.long_date_from_short_date(f)),
            ('fraction', lambda: BC.date_from_kvymdhms(lf))):
        build(ok, fn, f'{what} of {f}')
    label('valid' if ok else 'rejected')


@P.check(st.tuples(G.dates(), st.lists(st.one_of(st.integers(-3, 20),
                                                 st.none()), max_size=5)),
         quick=2000, thorough=50000)
def field_count(case):
    """Three or five fields, nothing else."""
    (y, m, d), rest = case
    full = [y, m, d] if len(rest) % 2 else list(M.long_of(y)) + [m, d]
    n = len(rest)
    args = full[:n] + [None] * max(0, 0)
    got = [a for a in args if a is not None]
    if len(got) in (3, 5) or n == 0:
        nontrivial(False)
        return
    raises(REJECT, lambda: date(*args), f'date{args}')
    raises(REJECT, lambda: datetime(*args), f'datetime{args}')


@P.check(st.tuples(G.dates(), st.booleans(), st.lists(st.booleans(),
                                                      min_size=5,
                                                      max_size=5)),
         quick=2000, thorough=50000)
def missing_fields(case):
    """A field that is left out is one at the end, of a short date."""
    (y, m, d), long, keep = case
    full = list(M.long_of(y)) + [m, d] if long else [y, m, d]
    args = []
    for k in keep:
        args.append(full.pop(0) if k and full else None)
    got = [a for a in args if a is not None]
    ok = len(got) == 5 or len(got) == 3 and args[3:] == [None, None] \
        and not long
    if ok or not long or len(got) != 3:
        build(ok, lambda: date(*args), f'date{tuple(args)}')
        build(ok, lambda: datetime(*args), f'datetime{tuple(args)}')
    elif args[3:] != [None, None]:
        raises(REJECT, lambda: date(*args), f'date{tuple(args)}')
        raises(REJECT, lambda: datetime(*args), f'datetime{tuple(args)}')
    nontrivial(not ok)


@P.check(st.tuples(st.integers(-90000, 90000), st.sampled_from(
    (0, 0, 1, -1, 500000))), quick=3000, thorough=100000)
def zone_offsets(case):
    """timezone() takes offsets strictly between -24 h and 24 h."""
    s, us = case
    td = timedelta(seconds=s, microseconds=us)
    ok = timedelta(hours=-24) < td < timedelta(hours=24)
    z = build(ok, lambda: timezone(td), f'timezone({td!r})')
    if ok:
        eq(z.utcoffset(None), td, 'utcoffset')
    label('valid' if ok else 'rejected')
    nontrivial(abs(abs(s) - 86400) < 4000 or s % 60 != 0)


@P.sweep(lambda tier, seed: [0, 1, 'x', 3.5, None, 12600, (1, 2), True])
def zone_types(x):
    raises(REJECT, lambda: timezone(x), f'timezone({x!r})')
    if x is not None:
        raises(REJECT, lambda: time(1, 2, tzinfo=x), f'time tz {x!r}')
        raises(REJECT, lambda: datetime(181, 1, 1, None, None, 1, tzinfo=x),
               f'datetime tz {x!r}')
    if x is not None and x != 'x':
        raises(REJECT, lambda: timezone(timedelta(hours=1), x),
               f'timezone name {x!r}')
