"""C15: ISO text is read strictly: a value is what the text says, or the text
is refused."""
import itertools
import re

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, Violation, eq, fail, label, nontrivial
from target import D, date, datetime, time, timedelta, timezone

P = Prop('C15', rule=(
    'Texts over the alphabet of ISO 8601, texts put together from well and '
    'badly formed pieces, and valid texts with one to three characters '
    'inserted, deleted, replaced or swapped. Oracle: a grammar of the '
    'accepted shapes written for the harness; a text in it with fields in '
    'range must give its value, any other text must be refused with a '
    'ValueError or AssertionError, and never give a value. '
    'Non-trivial: a text that datetime accepts.'))

OK = (ValueError, AssertionError)
D4 = r'(?P<y>-?\d{4})'
DATES = [re.compile(p) for p in (
    D4 + r'-(?P<m>\d\d)-(?P<d>\d\d)', D4 + r'(?P<m>\d\d)(?P<d>\d\d)',
    r'(?P<y>-\d{3})-(?P<m>\d\d)-(?P<d>\d\d)',
    D4 + r'-(?P<m>\d\d)', D4 + r'-?(?P<j>\d\d\d)',
    D4 + r'-W(?P<w>\d\d)-(?P<wd>\d)', D4 + r'W(?P<w>\d\d)(?P<wd>\d)',
    D4 + r'-W(?P<w>\d\d)')]
# The three digit negative year isoformat writes, before a hyphen.
D3 = r'(?P<y>-\d{3})'
DATES += [re.compile(D3 + p) for p in (
    r'-(?P<m>\d\d)', r'-(?P<j>\d\d\d)', r'-W(?P<w>\d\d)-(?P<wd>\d)',
    r'-W(?P<w>\d\d)')]
TIME = re.compile(r'[T ](?P<h>\d\d)(?:(?P<m1>:\d\d)(?P<s1>:\d\d)?'
                  r'|(?P<m2>\d\d)(?P<s2>\d\d)?)?(?P<f>\.\d+)?')
TZ = re.compile(r'Z|B|(?P<sg>[+-])(?P<h>\d{1,2})(?::(?P<m>\d{1,2}))?')
ASCII = re.compile(r'[\x00-\x7f]*')


def read_date(s):
    """(y, m, d), None (not a date), or 'gap' for a week date of a recorded
    finding."""
    for p in DATES:
        m = p.fullmatch(s)
        if not m:
            continue
        g = m.groupdict()
        y = int(g['y'])
        if not M.MINYEAR <= y <= M.MAXYEAR:
            return None
        if 'w' in g:
            w = int(g['w'])
            wd = int(g['wd']) if g.get('wd') else 1
            if not 1 <= wd <= 7 or w < 1:
                return None
            n = M.iso_week1(y) + (w - 1) * 7 + wd - 1
            if w >= 52 or y < M.MINYEAR + 2 or y > M.MAXYEAR - 2 \
                    or M.near_skip(n, 9) or y + 1 in M.FUDGED \
                    or y in M.FUDGED or y - 1 in M.FUDGED:
                return 'maybe' if w <= 53 else None
            return M.from_ord(n)
        if 'j' in g:
            j = int(g['j'])
            return M.from_doy(y, j) if 1 <= j <= M.ylen(y) else None
        mm, d = int(g['m']), int(g['d']) if g.get('d') else 1
        if 0 <= mm <= 19 and 1 <= d <= M.mlen(y, mm):
            return y, mm, d
        return None
    return None


def read_time(s):
    """(h, m, s, us) or None; us may be a fraction."""
    if s in ('', 'T', ' '):
        return 0, 0, 0, 0
    m = TIME.fullmatch(s)
    if not m:
        return None
    g = m.groupdict()
    h = int(g['h'])
    mi = g['m1'] or g['m2']
    se = g['s1'] or g['s2']
    mi = mi and int(mi.strip(':'))
    se = se and int(se.strip(':'))
    if h > 24 or (mi or 0) > 59 or (se or 0) > 60:
        return None
    f = float(g['f']) if g['f'] else 0.0
    unit = 1 if se is not None else 60 if mi is not None else 3600
    return h, mi or 0, se or 0, f * unit


def read_tz(s):
    """Offset in minutes or None."""
    m = TZ.fullmatch(s)
    if not m:
        return None
    if s in 'ZB':
        return {'Z': 0, 'B': 210}[s]
    o = int(m['h']) * 60 + int(m['m'] or 0)
    if int(m['m'] or 0) > 59 or o >= 1440:
        return None
    return -o if m['sg'] == '-' else o


def read(s):
    """All readings of a date and time: date, time and offset."""
    out = []
    for i in range(4, len(s) + 1):
        d = read_date(s[:i])
        if d is None:
            continue
        for j in range(i, len(s) + 1):
            if j == i and i < len(s) and s[i] not in 'ZB+-T ':
                continue
            t = read_time(s[i:j])
            if t is None:
                continue
            # A hyphen after the date may also be one of the date.
            must = j > i or s[i:i + 1] != '-'
            if j == len(s):
                out.append((d, t, None, must))
            else:
                o = read_tz(s[j:])
                if o is not None:
                    out.append((d, t, o, must))
    return out


def one(s):
    ascii_ = ASCII.fullmatch(s) is not None
    # date
    want = read_date(s) if ascii_ else None
    try:
        x = date.fromisoformat(s)
    except OK:
        if want not in (None, 'maybe'):
            fail(f'date {s!r} refused, it is {want}')
        label('date refused')
    else:
        if want is None:
            fail(f'date {s!r} gave {x!r}')
        if want != 'maybe':
            eq(x.b_date, want, f'date {s!r}')
        label('date')
    # time
    want = read_time(s) if ascii_ else None
    try:
        z = time.fromisoformat(s)
    except ValueError:
        if want not in (None, 'maybe'):
            fail(f'time {s!r} refused')
    else:
        if want is None:
            fail(f'time {s!r} gave {z}')
        label('time')
        if want != 'maybe':
            got = (z.hour * 60 + z.minute) * 60 + z.second \
                + z.microsecond / 1e6
            w = (want[0] * 60 + want[1]) * 60 + want[2] + want[3]
            if abs(got - w) > 2e-6:
                fail(f'time {s!r} gave {z}')
    # datetime
    wants = read(s) if ascii_ else []
    try:
        x = datetime.fromisoformat(s)
    except OK as e:
        for w in wants:
            if w != 'maybe' and w[0] != 'maybe' and w[3] and w[1][2] < 60:
                fail(f'datetime {s!r} refused ({e}), it is {wants}')
        label('refused ' + type(e).__name__)
        nontrivial(False)
        return
    label('accepted')
    if not wants:
        fail(f'datetime {s!r} gave {x!r}')
    for w in wants:
        if w == 'maybe' or w[0] == 'maybe':
            break
        d, t, o = w[:3]
        secs = (t[0] * 60 + t[1]) * 60 + t[2] + t[3]
        hh, mm, ss, us = x.b_time
        got = (hh * 60 + mm) * 60 + ss + us / 1e6
        off = None if o is None else timedelta(minutes=o)
        if x.b_date == d and abs(got - secs) < 2e-6 and x.utcoffset() == off:
            break
    else:
        fail(f'datetime {s!r} gave {x!r}, readings {wants}')
    if ascii_ and M.MINYEAR <= x.year <= M.MAXYEAR:
        y = datetime.fromisoformat(x.isoformat())
        eq((y.b_date, y.b_time, y.utcoffset()),
           (x.b_date, x.b_time, x.utcoffset()), f'{s!r} written and read')


def dtext(d):
    return f'{d[0]:04}-{d[1]:02}-{d[2]:02}'


two = st.integers(0, 99).map('{:02}'.format)
piece_date = st.one_of(
    G.dates(safe=True).map(dtext), G.dates(safe=True).map(
        lambda d: dtext(d).replace('-', '') if d[0] >= 0 else dtext(d)),
    G.dates(safe=True).map(lambda d: ('-' if d[0] < 0 else '')
                           + f'{abs(d[0]):04}-{M.doy(*d):03}'),
    st.tuples(G.years(), st.integers(0, 54), st.integers(0, 8),
              st.sampled_from(('{}-W{}-{}', '{}W{}{}', '{}-W{}'))).map(
        lambda t: t[3].format(('-' if t[0] < 0 else '')
                              + f'{abs(t[0]):04}', f'{t[1]:02}', t[2])),
    st.tuples(st.integers(0, 2000).map('{:04}'.format), two, two).map(
        '-'.join))
piece_time = st.one_of(
    st.just(''), G.times().map(
        lambda t: f'T{t[0]:02}:{t[1]:02}:{t[2]:02}.{t[3]:06}'),
    st.tuples(st.sampled_from(('T', ' ', '')), st.lists(
        two, min_size=0, max_size=4), st.sampled_from((':', '', '.')),
        st.sampled_from(('', '.5', '.25', '.', '.123456', ',5'))).map(
        lambda t: t[0] + t[2].join(t[1]) + t[3]))
piece_tz = st.one_of(
    st.just(''), st.sampled_from(('Z', 'B', '+03:30', '-03:30', '+00:00',
                                  '-00:30', '+5', '-05', '+24:00', '+0530',
                                  'Z1', '+1:2:3', 'ZB', '+-1', 'X')),
    st.tuples(st.sampled_from('+-'), two, two).map(
        lambda t: f'{t[0]}{t[1]}:{t[2]}'))
texts = st.tuples(piece_date, piece_time, piece_tz).map(''.join)
ALPHA = '0123456789-:.TWZB+ '


@st.composite
def mutated(draw):
    s = draw(texts)
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, max(0, len(s) - 1)))
        k = draw(st.integers(0, 3))
        c = draw(st.sampled_from(ALPHA + 'x\n٣²'))
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + c + s[i:]
        elif k == 2:
            s = s[:i] + c + s[i + 1:]
        else:
            s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    return s


def short_texts(tier, seed):
    """Every short text of a few letters, after some well formed heads."""
    deep = tier == 'thorough'
    for h in ('0181', '0000', '-181', '-0181', '1161'):
        for n in range(9 if deep else 8):
            for t in itertools.product('01-W', repeat=n):
                yield h + ''.join(t)
    for h in ('0181-01-01', '-181-01-01T', '01810101T'):
        for n in range(7 if deep else 6):
            for t in itertools.product(('11', '1', ':', '.', '+', '-', 'Z'),
                                       repeat=n):
                yield h + ''.join(t)


@P.sweep(lambda tier, seed: list(short_texts(tier, seed)))
def all_short(s):
    one(s)


@P.check(texts, quick=15000, thorough=1000000)
def pieces(s):
    one(s)


@P.check(mutated(), quick=15000, thorough=1500000)
def mutations(s):
    one(s)


@P.check(st.text(ALPHA, max_size=24), quick=10000, thorough=1000000)
def letters(s):
    one(s)


@P.check(st.text(max_size=12), quick=2000, thorough=100000)
def any_text(s):
    one(s)


# Digits that Python reads as numbers and ISO 8601 does not have.
SCRIPTS = (0x660, 0x6f0, 0x966, 0xe50, 0xff10, 0x1d7ce)


@P.check(st.tuples(texts, st.sampled_from(SCRIPTS),
                   st.sets(st.integers(0, 24), min_size=1, max_size=12)),
         quick=600, thorough=30000)
def other_digits(case):
    """Digits of other scripts are not those of ISO 8601."""
    s, base, where = case
    one(''.join(chr(base + int(c)) if i in where and c in '0123456789' else c
                for i, c in enumerate(s)))
