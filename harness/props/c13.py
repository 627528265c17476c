"""C13: dates survive their ISO 8601 text, in every accepted shape."""
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial, raises
from target import date, datetime

P = Prop('C13', rule=(
    'Drawn dates in both forms, and every year with its edges: the text '
    'isoformat and str give, and every ISO shape written by the harness from '
    'the model. Oracle: the text expected from the model, and the date the '
    'text was written from. Refused texts are made from one valid date by '
    'moving one field out of its range. Non-trivial: a long form, a year '
    'below 1000, Ayyam-i-Ha or a shape other than YYYY-MM-DD.'))

SHAPES = ('Y-m-d', 'Ymd', 'Y-j', 'Yj', 'Y-m', 'iso')


def year4(y):
    return ('-' if y < 0 else '') + f'{abs(y):04}'


def text(shape, y, m, d, j=None):
    j = M.doy(y, m, d) if j is None else j
    if shape == 'iso':
        return f'{y:04}-{m:02}-{d:02}'
    y = year4(y)
    return {'Y-m-d': f'{y}-{m:02}-{d:02}', 'Ymd': f'{y}{m:02}{d:02}',
            'Y-j': f'{y}-{j:03}', 'Yj': f'{y}{j:03}',
            'Y-m': f'{y}-{m:02}'}[shape]


def mk(d, long):
    return date(*M.long_of(d[0]), *d[1:]) if long else date(*d)


def same(got, d, long, what):
    eq(type(got), date, what + ': type')
    eq(got.is_short, not long, what + ': form')
    eq(got.b_date, M.long_of(d[0]) + d[1:] if long else d, what)


def str_of(d, long):
    if not long:
        return text('iso', *d)
    k, v, y = M.long_of(d[0])
    return (f'{k:0{3 if k < 0 else 2}}-{v:02}-{y:02}-{d[1]:02}-{d[2]:02}')


def one(d, long):
    x = mk(d, long)
    want = text('iso', *d)
    eq(x.isoformat(), want, f'isoformat of {x!r}')
    eq(str(x), str_of(d, long), f'str of {x!r}')
    eq(format(x, ''), str(x), f'format of {x!r}')
    for short in (True, False):
        same(date.fromisoformat(want, short=short), d, not short, want)
    same(date.fromisoformat(want), d, False, want)
    eq(date.fromisoformat(want) == x, True, f'{want} and {x!r}')


@P.check(st.tuples(G.dates(), st.booleans()), quick=9000, thorough=200000)
def round_trip(case):
    d, long = case
    one(d, long)
    nontrivial(long or d[0] < 1000 or d[1] == 0)


@P.sweep(lambda tier, seed: range(M.MINYEAR, M.MAXYEAR + 1))
def every_year(y):
    for n in (1, 19, 20, 342, 343, 342 + M.ayyam(y), 343 + M.ayyam(y),
              M.ylen(y)):
        one(M.from_doy(y, n), bool(n % 2))


@P.check(st.tuples(G.dates(), st.sampled_from(SHAPES[:5]), st.booleans()),
         quick=12000, thorough=300000)
def shapes(case):
    d, shape, long = case
    if shape == 'Y-m':
        d = d[:2] + (1,)
    s = text(shape, *d)
    same(date.fromisoformat(s, short=not long), d, long, s)
    x = datetime.fromisoformat(s)
    eq((x.b_date, x.b_time, x.tzinfo), (d, (0, 0, 0, 0), None),
       f'datetime of {s}')
    for tail, hms in (('T06:07:08', (6, 7, 8, 0)), (' 0607', (6, 7, 0, 0))):
        x = datetime.fromisoformat(s + tail)
        eq((x.b_date, x.b_time), (d, hms), f'datetime of {s + tail}')
    nontrivial(shape != 'Y-m-d')


@P.check(st.tuples(G.dates(), st.sampled_from(('y-w-d', 'ywd', 'y-w')),
                   st.booleans()), quick=4000, thorough=100000)
def week_shapes(case):
    d, shape, long = case
    y, w, wd = M.iso(*d)
    if not M.MINYEAR <= y <= M.MAXYEAR or {y - 1, y, y + 1} & set(M.FUDGED) \
            or w >= 52 or M.near_finding(M.to_ord(*d), 7):
        nontrivial(False)               # the findings of C01 and C18
        return
    if shape == 'y-w':
        d = M.from_ord(M.to_ord(*d) - wd + 1)
        if d[0] < M.MINYEAR:
            nontrivial(False)
            return
    y = year4(y)
    s = {'y-w-d': f'{y}-W{w:02}-{wd}', 'ywd': f'{y}W{w:02}{wd}',
         'y-w': f'{y}-W{w:02}'}[shape]
    same(date.fromisoformat(s, short=not long), d, long, s)
    for tail, hms in (('', (0, 0, 0, 0)), ('T06:07:08', (6, 7, 8, 0))):
        x = datetime.fromisoformat(s + tail)
        eq((x.b_date, x.b_time), (d, hms), f'datetime of {s + tail}')


@P.sweep(lambda tier, seed: range(M.MINYEAR, M.MAXYEAR + 1))
def day_of_year_ends(y):
    """The last day of the year parses and the day after it does not."""
    n = M.ylen(y)
    for s, j in (('Y-j', n), ('Yj', n), ('Yj', 343), ('Y-j', n - 19),
                 ('Yj', n - 18)):
        t = text(s, y, 1, 1, j)
        same(date.fromisoformat(t), M.from_doy(y, j), False, t)
    for s, j in (('Y-j', n + 1), ('Yj', n + 1), ('Yj', 0), ('Y-j', 999)):
        t = text(s, y, 1, 1, j)
        raises(ValueError, lambda: date.fromisoformat(t), t)
    a = M.ayyam(y)
    for s in ('Y-m-d', 'Ymd', 'iso'):
        t = text(s, y, 0, a)
        same(date.fromisoformat(t), (y, 0, a), False, t)
        t = text(s, y, 0, a + 1, 1)
        raises((ValueError, AssertionError),
               lambda: date.fromisoformat(t), t)


@P.check(st.tuples(G.dates(), st.sampled_from(('Y-m-d', 'Ymd', 'iso')),
                   st.sampled_from(('month', 'day', 'year')),
                   st.integers(0, 99), st.integers(0, 8157)),
         quick=6000, thorough=100000)
def refused(case):
    d, shape, what, k, yy = case
    y, m, dd = d
    if what == 'month':
        m = max(20, k)
    elif what == 'day':
        dd = k if not 1 <= k <= M.mlen(y, m) else 0
    else:
        y = 1163 + yy % 8836 if k % 2 else -1844 - yy
    t = text(shape, y, m, dd, 1)
    for f in (date.fromisoformat, datetime.fromisoformat):
        raises((ValueError, AssertionError), lambda: f(t), t)


@P.check(st.tuples(G.dates(), st.sampled_from(SHAPES),
                   st.sampled_from(('T00', ' 00', 'T', ' ', 'Z', 'x', '-',
                                    '0', '00', '-0', '+00:00'))),
         quick=3000, thorough=50000)
def date_with_a_tail(case):
    """date.fromisoformat takes nothing but a date, whole."""
    d, shape, tail = case
    s = text(shape, *d) + tail
    if shape == 'Y-m' and tail == '0' or shape == 'Yj' and tail == '0' \
            or shape in ('Y-j', 'Y-m', 'Yj', 'Ymd') and tail.isdigit():
        nontrivial(False)               # another shape of date
        return
    raises(ValueError, lambda: date.fromisoformat(s), s)


@P.sweep(lambda tier, seed: ['None', '181', "b'0181-01-01'", '1.5', '()'])
def other_types(src):
    raises(TypeError, lambda: date.fromisoformat(eval(src)), src)
