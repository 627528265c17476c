"""C17: strptime reads what a text says under a format, or refuses it."""
import re

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, nontrivial, raises
from props.c16 import MA, MN
from target import datetime, timedelta, timezone

KF_Z, KF_U, KF_MAS, KF_52 = ('KF-PCT-Z', 'KF-PCT-U', 'KF-MAS',
                             'KF-ISO-WEEK-52')
P = Prop('C17', rule=(
    'Drawn datetimes written with strftime in formats that determine them; '
    'texts written by the harness in every width, case, order and spacing '
    'that a directive takes; and mutations of both. Oracle: the value that '
    'was written, and for mutations the set of all readings of the text '
    'found by a backtracking reader built on the integer model. '
    'Non-trivial: an offset, a week or a day of the year, a name, a 12 hour '
    'clock, an unpadded field, or a refused text.'),
    assumptions=['The C locale, TZ=UTC.',
                 'As in the standard library, a weekday next to year, month '
                 'and day is not compared with them, and day 366 of a common '
                 'year is the first of the next.'])

REFUSED = (ValueError, AssertionError, OverflowError)
FD = [x.lower() for x in M.WEEKDAYS]
AD = [x.lower() for x in M.WEEKDAYS_ABV]
EXPAND = {'c': '%a %b %d %H:%M:%S %Y', 'x': '%m/%d/%y', 'X': '%I:%M:%S'}


def off(o, us=0):
    return timezone(timedelta(seconds=o, microseconds=us))


# -- The reader --------------------------------------------------------------

def numbers(lo, hi, widths, space=False, neg=False):
    """Readings of a number of so many digits at the start of a text."""
    def read(s):
        for w in widths:
            t, skip = s, 0
            if neg and s[:1] == '-':
                t, skip = s[1:], 1
            if space and s[:1] == ' ':
                if w == 2:
                    continue
                t, skip = s[1:], 1
            t = t[:w]
            if len(t) == w and t.isdecimal():
                n = int(t)
                if neg and skip:
                    n = -n
                if lo <= n <= hi:
                    yield n, skip + w
    return read


def names(table):
    """Readings of a name; table maps a name in lower case to a value."""
    def read(s):
        for name, val in table:
            if s[:len(name)].lower() == name:
                yield val, len(name)
    return read


def read_f(s):
    for w in range(1, 7):
        if len(s) >= w and s[:w].isdecimal():
            yield int(s[:w].ljust(6, '0')), w


ZRE = re.compile(r'([+-])(\d\d)(:?)(\d\d)(?:\3(\d\d)(\.\d{1,6})?)?')


def read_z(s):
    if s[:1] == 'Z':
        yield (0, 0), 1
    for n in range(5, len(s) + 1):
        m = ZRE.fullmatch(s, 0, n)
        if m and int(m[4]) < 60 and int(m[5] or 0) < 60:
            o = int(m[2]) * 3600 + int(m[4]) * 60 + int(m[5] or 0)
            us = int((m[6] or '.')[1:].ljust(6, '0'))
            k = -1 if m[1] == '-' else 1
            if o < 86400:
                yield (k * o, k * us), n


READ = {
    'Y': numbers(-9999, 9999, (1, 2, 3, 4), neg=True),
    'y': numbers(0, 99, (2,)), 'G': numbers(-9999, 9999, (4,), neg=True),
    'm': numbers(0, 19, (1, 2)), 'd': numbers(1, 19, (1, 2), space=True),
    'j': numbers(1, 366, (1, 2, 3)), 'H': numbers(0, 23, (1, 2)),
    'I': numbers(1, 12, (1, 2)), 'M': numbers(0, 59, (1, 2)),
    'S': numbers(0, 61, (1, 2)), 'f': read_f, 'w': numbers(0, 6, (1,)),
    'u': numbers(1, 7, (1,)), 'U': numbers(0, 53, (1, 2)),
    'W': numbers(0, 53, (1, 2)), 'V': numbers(1, 53, (1, 2)), 'z': read_z,
    'A': names([(n, i) for i, n in enumerate(FD)]),
    'a': names([(n, i) for i, n in enumerate(AD)]),
    'B': names([(n.lower(), i) for i, n in MN.items()]),
    # Mashiyyat and Masa'il have the same abbreviation: the first is meant.
    'b': names([(n.lower(), i) for i, n in MA.items() if i != 15]),
    'p': names([('am', 0), ('pm', 1)]),
    'Z': names([('utc', 'utc'), ('gmt', 'gmt')])}


def tokens(fmt):
    fmt = re.sub(r'%([cxX])', lambda m: EXPAND[m[1]], fmt)
    return re.findall(r'%.|\s+|[^%\s]', fmt, re.S)


def readings(toks, s, i=0, got=None):
    got = got or {}
    if i == len(toks):
        if not s:
            yield got
        return
    t = toks[i]
    if t[0] == '%' and t != '%%':
        for val, n in READ[t[1]](s):
            yield from readings(toks, s[n:], i + 1,
                                {**got, t[1]: (val, s[:n])})
    elif t.isspace():
        m = re.match(r'\s+', s)
        for n in range(1, m.end() + 1 if m else 0):
            yield from readings(toks, s[n:], i + 1, got)
    elif s and re.fullmatch(re.escape(t[-1]), s[0], re.I):
        yield from readings(toks, s[1:], i + 1, got)


ANY = 'any'


def value(r):
    """The datetime a reading means, as (date, time, offset); None where it
    means none and ANY where nothing is specified."""
    g = {k: v[0] for k, v in r.items()}
    text = {k: v[1] for k, v in r.items()}
    wd = next((g[k] - (k == 'u') for k in 'Aawu' if k in g), None)
    m = next((g[k] for k in 'bBm' if k in g), 1)
    d = g.get('d', 1)
    y = g.get('Y', g.get('y'))
    if 'G' in g:
        if 'j' in g or 'V' not in g or wd is None:
            return None
        gy = g['G']
        if not M.MINYEAR < gy < M.MAXYEAR or gy in M.FUDGED:
            return ANY
        if M.weekday(M.start(gy)) in (2, 3) and g['V'] >= 52:
            return ANY                                 # KF-ISO-WEEK-52
        if g['V'] > M.iso_weeks(gy):
            return None
        date = M.from_ord(M.iso_week1(gy) + 7 * (g['V'] - 1) + wd)
    elif 'V' in g:
        return None
    else:
        if y is None:
            y = 1 if (m, d) == (0, 5) else 2
        if not M.MINYEAR < y < M.MAXYEAR:
            return None if abs(y) > 1900 else ANY
        if y in M.FUDGED or y + 1 in M.FUDGED or y == -261:
            return ANY
        week = g.get('U', g.get('W'))
        if 'j' in g:
            date = M.from_ord(M.start(y) + g['j'] - 1)
        elif week is not None and wd is not None:
            first = M.weekday(M.start(y))
            if week == 0 and wd < first:
                return ANY                  # no such day
            date = M.from_ord(M.start(y) + (-first) % 7 + 7 * (week - 1) + wd)
            if week == 0:
                date = M.from_ord(M.start(y) + wd - first)
        else:
            date = (y, m, d)
            if not M.valid(*date):
                return None
    hh = g.get('H', 0)
    if 'I' in g:
        hh = g['I'] % 12 + 12 * g.get('p', 0)
    ss = g.get('S', 0)
    if ss == 61:
        return ANY
    o = g.get('z')
    if 'Z' in g and o is not None:
        o += (text['Z'],)
    return date, (hh, g.get('M', 0), ss, g.get('f', 0)), o


def seen(x):
    o = x.utcoffset()
    if o is not None:
        us = (o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds
        o = us
    return ((x.year, x.month, x.day), (x.hour, x.minute, x.second,
                                       x.microsecond), o)


def plain(v):
    if v[2] is None:
        return v
    return v[:2] + (v[2][0] * 10 ** 6 + v[2][1],)


def parse(s, fmt):
    try:
        x = datetime.strptime(s, fmt)
    except REFUSED:
        return None
    eq(type(x), datetime, 'type')
    eq(x.is_short, True, 'form')
    return x


def one(s, fmt):
    """strptime gives one of the readings of the text, or refuses it."""
    toks = tokens(fmt)
    dirs = [t for t in toks if t[0] == '%' and t != '%%']
    if len(set(dirs)) != len(dirs) or any(t[1:] not in READ for t in dirs):
        return
    vals = [value(r) for r in readings(toks, s)]
    x = parse(s, fmt)
    if ANY in vals:
        label('unspecified')
        nontrivial(False)
        return
    vals = [v for v in vals if v is not None]
    if x is None:
        label('refused')
        return
    label('accepted')
    got = seen(x)
    if got not in [plain(v) for v in vals]:
        fail(f'{s!r} as {fmt!r}: got {x!r}, want '
             f'{vals or "a refusal"}')


# -- Round trip --------------------------------------------------------------

def ok_day(d):
    """None of the days of other recorded findings."""
    n = M.to_ord(*d)
    return not (M.near_skip(n, 9) or d[0] in (M.MINYEAR, M.MAXYEAR)
                or any(M.from_ord(n + k)[0] in M.FUDGED for k in (-7, 7))
                or d[0] == -261)


DATES = ('%Y-%m-%d', '%Y %B %d', '%Y %b %d', '%Y-%j', '%d/%m/%Y', '%Y%m%d',
         '%G-%V-%u', '%G-%V-%w', '%G-W%V %A', '%G-W%V %a', '%Y %U %w',
         '%Y-%m-%d %a', '%A %d %B %Y', '%Y%j', '%Y %W %A', '%c', '%m%d%Y')
TIMES = ('', ' %H:%M:%S.%f', ' %H%M%S%f', 'T%H:%M:%S', ' %I:%M:%S.%f %p',
         ' %p %I %M', ' %H')
dates = G.dates(safe=True).filter(ok_day)
offs = st.one_of(st.none(), st.none(), G.offsets(False))


@P.check(st.tuples(dates, G.times(), st.booleans(), offs,
                   st.sampled_from(DATES), st.sampled_from(TIMES)),
         quick=6000, thorough=400000)
def round_trip(case):
    """strptime gives back what strftime wrote."""
    d, t, long, o, fd, ft = case
    if '%c' in fd:
        ft, long = '', False
    fmt = fd + ft + ('' if o is None else ' %z')
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    x = datetime(*a, *t, tzinfo=None if o is None else off(o))
    kept = tuple(n if c in fmt or '%c' in fmt else 0
                 for n, c in zip(t, ('H', 'M', 'S', 'f')))
    if '%I' in ft:
        if abs(t[0] * 3600 + t[1] * 60 + t[2] - 43200) <= 180:
            nontrivial(False)
            return
        kept = (t[0],) + kept[1:]
    if '%c' in fmt:
        kept = t[:3] + (0,)
    text = x.strftime(fmt)
    want = (d, kept, None if o is None else o * 10 ** 6)
    if '%b' in fmt or '%c' in fmt:
        if d[1] == 15:
            d11 = (d[0], 11, d[2])
            got = parse(text, fmt)
            if o is None or o % 3600 == 0:
                if got is not None and seen(got) == (d11,) + want[1:]:
                    known(KF_MAS)
                    return
                eq(got and seen(got), want, f'{text!r} as {fmt!r}')
            return
    if ('%U' in fmt or '%W' in fmt) \
            and 1 <= M.weekday(M.start(d[0])) <= 3:
        # strftime counts the week of Naw-Ruz as 1, strptime as 0.
        x7 = M.from_ord(M.to_ord(*d) + 7)
        got = parse(text, fmt)
        if got is not None and seen(got)[0] == x7:
            known(KF_U)
            return
        if o is None or o % 3600 == 0:
            eq(got and seen(got), want, f'{text!r} as {fmt!r}')
        return
    if '%G' in fmt:
        iy, w, _ = M.iso(*d)
        if M.weekday(M.start(iy)) in (2, 3) and w >= 52:
            nontrivial(False)
            return
    label(fd)
    if o is not None and o % 3600:
        # strftime writes the minutes as hundredths: KF-PCT-Z of C16.
        one(text, fmt)
        hh = parse(text, fmt)
        if hh is not None:
            eq(seen(hh)[:2], want[:2], f'{text!r} as {fmt!r}')
        return
    got = parse(text, fmt)
    if got is None:
        fail(f'{text!r} as {fmt!r} is refused; {x!r}')
    eq(seen(got), want, f'{text!r} as {fmt!r}')


# -- Texts of the harness ----------------------------------------------------

def digits(n, w, pad, space=False):
    """A number of at most w digits, padded or not."""
    if pad == 0:
        return f'{n:0{w}}'
    if pad == 1 and space and n < 10:
        return f' {n}'
    return str(n)


def cased(s, k):
    return (s, s.upper(), s.lower(), s.swapcase())[k]


@st.composite
def written(draw):
    """(text, format) of a drawn moment."""
    d = draw(dates)
    t = draw(G.times())
    pads = draw(st.lists(st.integers(0, 1), min_size=8, max_size=8))
    case = draw(st.integers(0, 3))
    n, iso = M.to_ord(*d), M.iso(*d)
    wd = M.weekday(n)
    y = f'{"-" if d[0] < 0 else ""}{digits(abs(d[0]), 4, pads[0])}'
    kind = draw(st.sampled_from(('ymd', 'ymd', 'yj', 'iso', 'week')))
    wdk = draw(st.sampled_from('aAwu'))
    wdt = {'a': cased(M.WEEKDAYS_ABV[wd], case),
           'A': cased(M.WEEKDAYS[wd], case), 'w': str(wd),
           'u': str(wd + 1)}[wdk]
    parts = []
    if kind == 'ymd':
        mk = draw(st.sampled_from('mbB' if d[1] != 15 else 'mB'))
        parts = [('Y', y), (mk, {
            'm': digits(d[1], 2, pads[1]), 'b': cased(MA[d[1]], case),
            'B': cased(MN[d[1]], case)}[mk]),
            ('d', digits(d[2], 2, pads[2], True))]
        if draw(st.booleans()):
            parts.append((wdk, wdt))
    elif kind == 'yj':
        parts = [('Y', y), ('j', digits(M.doy(*d), 3, pads[1]))]
    elif kind == 'iso' and not (M.weekday(M.start(iso[0])) in (2, 3)
                                and iso[1] >= 52):
        parts = [('G', f'{"-" if iso[0] < 0 else ""}{abs(iso[0]):04}'),
                 ('V', digits(iso[1], 2, pads[1])), (wdk, wdt)]
    else:
        s = M.start(d[0])
        first = s + (-M.weekday(s)) % 7       # the first Jalal of the year
        w = (n - first) // 7 + 1
        parts = [('Y', y), (draw(st.sampled_from('UW')),
                            digits(w, 2, pads[1])), (wdk, wdt)]
    clock = draw(st.sampled_from(('', 'H', 'HM', 'HMS', 'HMSf', 'pI', 'pIM',
                                  'pIMSf')))
    kept = [0, 0, 0, 0]
    for c in clock:
        i = 'HMSf'.find(c if c != 'I' else 'H')
        if c == 'f':
            f = f'{t[3]:06}'
            parts.append(('f', f if pads[3] else f.rstrip('0') or '0'))
        elif c == 'p':
            parts.append(('p', cased('PM' if t[0] >= 12 else 'AM', case)))
            continue
        elif c == 'I':
            parts.append(('I', digits(t[0] % 12 or 12, 2, pads[4])))
        else:
            parts.append((c, digits(t[i], 2, pads[4 + i % 3])))
        kept[i] = t[i]
    o = draw(st.one_of(st.none(), G.whole_offsets()))
    ous, name = 0, None
    if o is not None:
        c = draw(st.sampled_from(('', ':')))
        a = abs(o)
        txt = f'{"-" if o < 0 else "+"}{a // 3600:02}{c}{a // 60 % 60:02}'
        frac = draw(st.booleans()) and o
        if a % 60 or frac:
            txt += f'{c}{a % 60:02}'
        if frac:
            u = draw(G.micros())
            txt += f'.{u:06}'.rstrip('0') if u else ''
            ous = u if o > 0 else -u
        if o == 0 and draw(st.booleans()):
            txt = 'Z'
        parts.append(('z', txt))
        if draw(st.integers(0, 3)) == 0:
            name = cased(draw(st.sampled_from(('UTC', 'GMT'))), case)
            parts.append(('Z', name))
    parts = draw(st.permutations(parts))
    space = draw(st.sampled_from((' ', ' ', '  ', '\t', ' \n')))
    fmt = text = ''
    for i, (k, v) in enumerate(parts):
        if i or draw(st.booleans()):
            lit = draw(st.sampled_from((' ', ' ', ',', '/', ' at ', '|', '%%',
                                        '(', '.', '\n', '[x]', ' * ', '\t',
                                        '  ', ' \t')))
            fmt += lit
            # Any white space stands for any other.
            text += re.sub(r'\s+', lambda m: space, lit.replace('%%', '%'))
        fmt += '%' + k
        text += v
    return (text, fmt, d, tuple(kept), None if o is None else
            o * 10 ** 6 + ous, name)


@P.check(written(), quick=6000, thorough=500000)
def read_back(case):
    """A text is read as what it was written from."""
    text, fmt, d, t, o, name = case
    x = parse(text, fmt)
    if x is None:
        fail(f'{text!r} as {fmt!r} is refused')
    eq(seen(x), (d, t, o), f'{text!r} as {fmt!r}')
    if name is not None:
        eq(x.tzname(), name, f'{text!r} as {fmt!r}: tzname')
    elif o is None:
        eq(x.tzinfo, None, 'tzinfo')


ALPHA = "0123456789 -+:./ZTWampMAJál%Kb`'"


@P.check(st.tuples(written(), st.lists(st.tuples(
    st.integers(0, 3), st.integers(0, 40), st.sampled_from(ALPHA)),
    min_size=1, max_size=3)), quick=5000, thorough=1000000)
def mutations(case):
    """Whatever the text has become, it is read as what it says."""
    (text, fmt, *_), ops = case
    for op, i, c in ops:
        i %= len(text) + 1
        if op == 0:
            text = text[:i] + text[i + 1:]
        elif op == 1:
            text = text[:i] + c + text[i:]
        elif op == 2:
            text = text[:i] + c + text[i + 1:]
        else:
            text = text + c
    one(text, fmt)


@P.check(st.lists(st.tuples(
    st.sampled_from(sorted(READ)), st.sampled_from((' ', '-', ':', '/')),
    st.one_of(st.integers(0, 70).map(str), st.integers(0, 9).map(
        lambda n: f'0{n}'), st.integers(0, 1300).map(str), st.sampled_from(
        list(M.WEEKDAYS) + list(MN.values()) + list(MA.values())
        + ['AM', 'pm', 'UTC', '+0330', '-05:00', 'Z', '000001', '-0260']))),
    min_size=1, max_size=4, unique_by=lambda p: p[0]), quick=6000,
    thorough=500000)
def combinations(parts):
    """Any directives together, with any values."""
    fmt = ''.join(s + '%' + k for k, s, _ in parts)[1:]
    text = ''.join(s + v for _, s, v in parts)[1:]
    ks = {p[0] for p in parts}
    if len(ks & set('bBm')) > 1 or len(ks & set('Yy')) > 1 \
            or len(ks & set('HI')) > 1 or len(ks & set('aAuw')) > 1 \
            or len(ks & set('UW')) > 1:
        nontrivial(False)
        return
    one(text, fmt)


# -- Refusals ----------------------------------------------------------------

BAD = ['%Q', '%', '%Y-%', '%E', '%-', '%i', '%Y %q', '%,', '% Y']


@P.check(st.tuples(dates, st.sampled_from((
    ('%Y-%m-%d', '{0}-20-{2}'), ('%Y-%m-%d', '{0}-{1}-20'),
    ('%Y-%m-%d', '{0}-{1}-00'), ('%Y-%j', '{0}-367'), ('%Y-%j', '{0}-000'),
    ('%Y-%m-%d', '{0}-{1}-{2}x'), ('%Y-%m-%d', 'x{0}-{1}-{2}'),
    ('%Y-%m-%d', '{0}-{1}'), ('%Y-%m-%d', '{0}-{1}-{2} '),
    ('%Y-%m-%d %H', '{0}-{1}-{2} 24'), ('%Y-%m-%d %M', '{0}-{1}-{2} 60'),
    ('%Y-%m-%d %I', '{0}-{1}-{2} 13'), ('%Y-%m-%d %I', '{0}-{1}-{2} 00'),
    ('%Y-%m-%d %S', '{0}-{1}-{2} 62'), ('%Y-%m-%d %z', '{0}-{1}-{2} +0360'),
    ('%Y-%m-%d %z', '{0}-{1}-{2} +2400'),
    ('%Y-%m-%d %z', '{0}-{1}-{2} +03:3015'),
    ('%Y-%m-%d %f', '{0}-{1}-{2} 1234567'), ('%Y-%m-%d', ''),
    ('%Y %V %u', '{0} 10 1'), ('%G %V', '{0:04} 10'), ('%G %j', '{0} 100'),
    ('%Y-%m-%d %w', '{0}-{1}-{2} 7'), ('%Y-%m-%d %u', '{0}-{1}-{2} 0'),
    ('%Y %B %d', '{0} Baha {2}'), ('%Y-%m-%d', '{0}-0-6'),
    ('%Y-%m-%d', '{0}-0-5+'), ('%Y-%m-%d', '9{0}-{1}-{2}')))), quick=2500,
    thorough=50000)
def refused(case):
    d, (fmt, text) = case
    text = text.format(*d)
    if text.endswith('+'):
        text = text[:-1]
        if M.leap(d[0]):
            return
    if text.startswith('9') and fmt == '%Y-%m-%d' and len(
            text.split('-')[0]) < 4:
        return
    raises(REFUSED, lambda: datetime.strptime(text, fmt),
           f'{text!r} as {fmt!r}')


@P.sweep(lambda tier, seed: BAD)
def bad_formats(fmt):
    raises(ValueError, lambda: datetime.strptime('0181-01-01', fmt), fmt)


@P.sweep(lambda tier, seed: ["(1, '%Y')", "('181', 1)", "(None, None)",
                             "(b'181', '%Y')"])
def other_types(src):
    a = eval(src)
    raises(TypeError, lambda: datetime.strptime(*a), src)


# -- Recorded findings, and history ------------------------------------------

@P.sweep(lambda tier, seed: [(181, 15, 3), (1, 15, 19), (-5, 15, 1)])
def masail(d):
    """Mashiyyat and Masa'il have one abbreviation."""
    x = datetime(*d)
    for fmt in ('%Y %b %d', '%c'):
        got = seen(datetime.strptime(x.strftime(fmt), fmt))[0]
        if got == (d[0], 11, d[2]):
            known(KF_MAS)
        else:
            eq(got, d, fmt)


@P.sweep(lambda tier, seed: [y for y in range(170, 200)])
def week_numbers(y):
    """%U of strptime numbers the weeks as %U of strftime."""
    for n in (1, 2, 9, 100, 360):
        d = M.from_doy(y, n)
        x = datetime(*d)
        got = seen(datetime.strptime(x.strftime('%Y %U %w'), '%Y %U %w'))[0]
        if 1 <= M.weekday(M.start(y)) <= 3 \
                and got == M.from_ord(M.to_ord(*d) + 7):
            known(KF_U)
        else:
            eq(got, d, f'{x!r}')


@P.sweep(lambda tier, seed: [(1, 3), (181, 4)])
def week_52(case):
    y, wd = case
    s = f'{y:04} 52 {wd}'
    want = M.from_ord(M.iso_week1(y) + 51 * 7 + wd - 1)
    got = seen(datetime.strptime(s, '%G %V %u'))[0]
    if got == M.from_ord(M.to_ord(*want) + 7):
        known(KF_52)
    else:
        eq(got, want, s)


@P.sweep(lambda tier, seed: [12600, -34200])
def offset_minutes(o):
    x = datetime(181, 2, 3, None, None, 4, 5, 6, 7, tzinfo=off(o))
    fmt = '%Y-%m-%d %H:%M:%S.%f %z'
    got = parse(x.strftime(fmt), fmt)
    if got is not None and seen(got) == seen(x):
        return
    if got is None or seen(got)[:2] == seen(x)[:2]:
        known(KF_Z)
    else:
        eq(got, x, fmt)


@P.check(st.lists(written(), min_size=8, max_size=14), quick=100,
         thorough=20000)
def many_formats(cases):
    """Formats used before do not change what a format reads."""
    for c in cases + cases[::-1]:
        read_back(c)
