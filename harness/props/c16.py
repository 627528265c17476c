"""C16: strftime writes what each directive documents."""
import math
import re

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from target import BC, D, date, datetime, time, timedelta, timezone

KF_Z = 'KF-PCT-Z'
P = Prop('C16', rule=(
    'Drawn dates, times and datetimes in both forms, naive and aware, with '
    'formats put together from every documented directive and literal text. '
    'Oracle: a formatter written from the documentation\'s table on top of '
    'the integer calendar model. Non-trivial: a directive whose value '
    'depends on the calendar (week, day of the year, ISO year, Váḥid), a '
    'long form, or an offset.'),
    assumptions=['The C locale; AM and PM change at the true midday, within '
                 'three minutes of 12:00; there the midday is the one the '
                 'package gives (C05 checks it), and within 5 seconds of '
                 'that either is taken.'])

MA = {1: 'Bah', 2: 'Jal', 3: 'Jam', 4: 'Aẓa', 5: 'Núr', 6: 'Raḥ', 7: 'Kal',
      8: 'Kam', 9: 'Asm', 10: 'Izz', 11: 'Mas', 12: 'Ilm', 13: 'Qud',
      14: 'Qaw', 15: 'Mas', 16: 'Sha', 17: 'Sul', 18: 'Mul', 0: 'Ayy',
      19: 'Alá'}
MN = dict(M.MONTHS)
MN[15] = 'Masá’il'


def tz_of(o):
    return None if o is None else timezone(timedelta(seconds=o))


def mk(d, t, long, o):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tzinfo=tz_of(o))


def year(y):
    return ('-' if y < 0 else '') + f'{abs(y):04}'


def year2(y):
    """The year without century; that of -1842 is -42."""
    return f'{int(math.fmod(y, 100)):02}'


DIRS = ('a A b B c C d -d D e f G h H -H I j -j k :K K l -l m -m M -M n p r S '
        '-S T u U V :V w W x X y -y Y z :z Z %').split()
NOON = 43200


def want(dr, d, t, long, o, at_day=True):
    """The text of a directive; None where it is not specified."""
    y, m, dd = d
    hh, mm, ss, us = t
    n = M.to_ord(*d)
    wd = M.weekday(n)
    k, v, vy = M.long_of(y)
    h12 = hh % 12 or 12
    ampm = None
    secs = hh * 3600 + mm * 60 + ss
    if abs(secs - NOON) > 180:
        ampm = 'PM' if secs > NOON else 'AM'
    elif dr in ('p', 'r') and at_day:
        mid = BC.midday(d, _short=True) * 86400
        if abs(secs - mid) > 5:
            ampm = 'PM' if secs > mid else 'AM'
    hms = f'{hh:02}:{mm:02}:{ss:02}'
    if dr in ('a', 'A'):
        return (M.WEEKDAYS_ABV if dr == 'a' else M.WEEKDAYS)[wd]
    if dr in ('b', 'h'):
        return MA[m]
    if dr == 'B':
        return MN[m]
    if dr == 'c':
        yt = f'{k} {v:02} {vy:02}' if long else f'{y:04}'
        return f'{M.WEEKDAYS_ABV[wd]} {MA[m]} {dd:02} {hms} {yt}'
    if dr == 'C':
        return ('-' if y < 0 else '') + f'{abs(y) // 100:02}'
    if dr == 'd':
        return f'{dd:02}'
    if dr == '-d':
        return str(dd)
    if dr in ('D', 'x'):
        return f'{m:02}/{dd:02}/' + year2(y)
    if dr == 'e':
        return f'{dd:2}'
    if dr == 'f':
        return f'{us:06}'
    if dr == 'G':
        return year(M.iso(*d)[0])
    if dr in ('H', 'k'):
        return f'{hh:02}'
    if dr == '-H':
        return str(hh)
    if dr == 'I':
        return f'{h12:02}'
    if dr == 'l':
        return f'{h12:2}'
    if dr == '-l':
        return None
    if dr == 'j':
        return f'{M.doy(*d):03}'
    if dr == '-j':
        return str(M.doy(*d))
    if dr == ':K':
        return str(k)
    if dr == 'K':
        return ''
    if dr == 'm':
        return f'{m:02}'
    if dr == '-m':
        return str(m)
    if dr == 'M':
        return f'{mm:02}'
    if dr == '-M':
        return str(mm)
    if dr == 'n':
        return '\n'
    if dr == 'p':
        return ampm
    if dr == 'r':
        return ampm and f'{h12:02}:{mm:02}:{ss:02} {ampm}'
    if dr == 'S':
        return f'{ss:02}'
    if dr == '-S':
        return str(ss)
    if dr == 'T':
        return hms
    if dr == 'u':
        return str(wd + 1)
    if dr == 'w':
        return str(wd)
    if dr in ('U', 'W'):
        return f'{(n - M.iso_week1(y)) // 7 + 1:02}'
    if dr == 'V':
        return f'{M.iso(*d)[1]:02}'
    if dr == ':V':
        return f'{v:02}'
    if dr == 'X':
        return f'{h12:02}:{mm:02}:{ss:02}'
    if dr == 'y':
        return year2(y)
    if dr == '-y':
        return str(int(math.fmod(y, 100)))
    if dr == 'Y':
        return year(y)
    if dr in ('z', ':z'):
        if o is None:
            return ''
        return G.offset_text(o, ':' if dr == ':z' else '')
    if dr == 'Z':
        return '' if o is None else tz_of(o).tzname(None)
    if dr == '%':
        return '%'
    raise KeyError(dr)


ZRE = re.compile(r'([+-])(\d\d)(:?)(\d\d)(?:\3(\d\d))?(\.\d{6})?')


def check(x, dr, d, t, long, o, at_day=True):
    fmt = '%' + dr
    got = x.strftime(fmt)
    w = want(dr, d, t, long, o, at_day)
    eq(type(got), str, fmt)
    if w is None:
        if dr == 'p':
            eq(got in ('AM', 'PM'), True, got)
        elif dr == 'r':
            eq(got[:8], want('X', d, t, long, o), got)
        return got
    if dr in ('z', ':z') and o and o % 3600 and got != w:
        m = ZRE.fullmatch(got)
        if m and m[1] == w[0] and m[2] == w[1:3] \
                and (m[3] == ':') == (dr == ':z'):
            val = int(m[2]) + int(m[4]) / 100 + int(m[5] or 0) / 1e4
            if abs(val - abs(o) / 3600) < 1.1e-4:
                known(KF_Z)
                return got
    if d[0] < 0 and got != w:
        # The sign of a century 0, and the zero in front of one digit.
        if dr == 'C' and (got, w) == ('00', '-00') \
                or dr in 'Dxy' and got[-2:] == '0' + w[-1:] \
                and got[:-2] == w[:-1]:
            return got
    eq(got, w, f'{fmt} of {x!r}')
    return got


def usable(d):
    n = M.to_ord(*d)
    return not (M.near_skip(n, 9) or d[0] in (M.MINYEAR, M.MAXYEAR)
                or M.from_ord(n - 7)[0] in M.FUDGED
                or M.from_ord(n + 7)[0] in M.FUDGED)


offs = st.one_of(st.none(), st.none(), G.offsets(False))
dirs = st.sampled_from(DIRS)


@P.check(st.tuples(G.dates(safe=True).filter(usable), G.times(),
                   st.booleans(), offs), quick=800, thorough=150000)
def all_directives(case):
    d, t, long, o = case
    x = mk(d, t, long, o)
    for dr in DIRS:
        check(x, dr, d, t, long, o)


YEAR_DIRS = 'G V U u j a A :K :V b B'.split()


def year_days(tier, seed):
    for y in range(M.MINYEAR + 1, M.MAXYEAR):
        ends = (1, 2, 3, 4, 5, 7, 8, 343, M.ylen(y) - 5, M.ylen(y) - 1,
                M.ylen(y))
        if tier == 'quick':
            ends = (1 + (y + seed) % 4, M.ylen(y) - (y + seed) % 3)
        for n in ends:
            yield M.from_doy(y, n), bool((y + n) % 2)


@P.sweep(year_days)
def weeks_of_every_year(case):
    """Weeks, days of the year and ISO years at the ends of each year."""
    d, long = case
    if not usable(d):
        return
    x = mk(d, (1, 2, 3, 4), long, None)
    eq(x.strftime('|%'.join([''] + YEAR_DIRS)),
       '|'.join([''] + [want(dr, d, (1, 2, 3, 4), long, None)
                        for dr in YEAR_DIRS]), f'{x!r}')


literal = st.text(st.characters(codec='utf8', exclude_characters='%'),
                  max_size=4) | st.sampled_from(
    ('-', ':', ' ', '/', 'T', 'at', '-:', '', 'd', 'Y', 'K'))


@P.check(st.tuples(G.dates(safe=True).filter(usable), G.times(),
                   st.booleans(), offs,
                   st.lists(st.tuples(literal, dirs), min_size=1,
                            max_size=6), literal), quick=3600,
         thorough=400000)
def formats(case):
    """A format is the texts of its directives and literals, in order."""
    d, t, long, o, parts, end = case
    x = mk(d, t, long, o)
    fmt = ''.join(a + '%' + b for a, b in parts) + end
    w = ''.join(a + check(x, b, d, t, long, o) for a, b in parts) + end
    eq(x.strftime(fmt), w, f'{fmt!r} of {x!r}')
    eq(format(x, fmt), w, f'format of {fmt!r}')
    eq('{:{}}'.format(x, fmt) if '}' not in fmt and '{' not in fmt else w, w,
       'str.format')


@P.check(st.tuples(G.dates(safe=True).filter(usable), st.booleans()),
         quick=350, thorough=50000)
def of_dates(case):
    d, long = case
    x = date(*M.long_of(d[0]), *d[1:]) if long else date(*d)
    for dr in DIRS:
        check(x, dr, d, (0, 0, 0, 0), long, None)
    eq(x.strftime('%Y-%m-%dT%T'), mk(d, (0, 0, 0, 0), long, None)
       .strftime('%Y-%m-%dT%T'), f'{x!r}')


@P.check(st.tuples(G.dates(safe=True).filter(usable), st.one_of(
    st.integers(NOON - 150, NOON + 150), st.integers(0, 86399)), G.micros(),
    st.booleans(), offs), quick=1500, thorough=50000)
def around_midday(case):
    """AM and PM change at the midday of that day."""
    d, s, us, long, o = case
    t = (s // 3600, s // 60 % 60, s % 60, us)
    x = mk(d, t, long, o)
    check(x, 'p', d, t, long, o)
    check(x, 'r', d, t, long, o)
    nontrivial(abs(s - NOON) < 151)


TIME_DIRS = [x for x in DIRS if x in 'f H -H I k l M -M n p r S -S T X z :z '
             'Z %'.split()]


@P.check(st.tuples(G.times(), offs), quick=1500, thorough=50000)
def of_times(case):
    t, o = case
    x = time(*t, tzinfo=tz_of(o))
    for dr in TIME_DIRS:
        check(x, dr, (1, 1, 1), t, False, o, False)
    eq(format(x, '%H:%M'), f'{t[0]:02}:{t[1]:02}', 'format')


@P.check(st.tuples(G.dates(safe=True).filter(usable), G.sixty(), G.sixty(),
                   st.booleans(), offs), quick=300, thorough=10000)
def hour_24(case):
    """Midnight written as 24 is after midday."""
    d, mm, ss, long, o = case
    for x in (mk(d, (24, mm, ss, 0), long, o), time(24, mm, ss,
                                                    tzinfo=tz_of(o))):
        eq(x.strftime('%H|%k|%-H|%M|%S|%T|%p'),
           f'24|24|24|{mm:02}|{ss:02}|24:{mm:02}:{ss:02}|PM', f'{x!s}')


BAD = [c for c in 'EFgiJKLNOoPqQRstvmMdHjSyYVz!é 1' if c not in
       'KmMdHjSyYVz'] + [':d', ':Y', ':m', '-Y', '-a', '-K', '-V', '-z',
                         ':', '-', '--d', '::K', '-%', ':%']


@P.check(st.tuples(G.dates(safe=True), G.times(), st.sampled_from(BAD),
                   literal, st.booleans()), quick=1200, thorough=30000)
def bad_directives(case):
    d, t, bad, lit, lead = case
    if bad in ':-':
        lit = ''
    x = datetime(*d, None, None, *t)
    fmt = ('%Y' if lead else '') + '%' + bad + lit
    raises(ValueError, lambda: x.strftime(fmt), fmt)
    raises(ValueError, lambda: x.date().strftime(fmt), fmt)


@P.sweep(lambda tier, seed: [12600, 1800, -34200, 20700])
def offset_minutes(o):
    x = mk((181, 1, 1), (1, 2, 3, 4), False, o)
    check(x, 'z', (181, 1, 1), (1, 2, 3, 4), False, o)
    check(x, ':z', (181, 1, 1), (1, 2, 3, 4), False, o)


@P.sweep(lambda tier, seed: ['datetime', 'date', 'time'])
def empty_format(name):
    cls = {'datetime': datetime, 'date': date, 'time': time}[name]
    x = {datetime: lambda: datetime(181, 1, 1), date: lambda: date(181, 1, 1),
         time: lambda: time(1, 2)}[cls]()
    raises(ValueError, lambda: x.strftime(''), 'empty format')
    eq(format(x, ''), str(x), 'empty format specification')
