"""C03: the long and the short form name the same days."""
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, known, label, near, nontrivial
from target import BC, date

P = Prop('C03', rule=(
    'All years of the range (sweep), and drawn dates with times. Oracle: the '
    'long form is the year written in base 19 (digits 1..19) over cycles of '
    '361; converting back gives the same tuple. Non-trivial: negative or zero '
    'years, years at a Vahid or Kull-i-Shay boundary, or a non-zero time.'))
KF = 'KF-LONG-OVERFLOW'


def trimmed(t):
    t = list(t)
    while t and t[-1] == 0:
        t.pop()
    return tuple(t)


@P.sweep(lambda tier, seed: sorted(range(M.MINYEAR, M.MAXYEAR + 1), key=abs))
def every_year(y):
    want = M.long_of(y)
    for m, d in ((1, 1), (19, 19), (0, 4), (18, 19), (19, 1),
                 (0, M.ayyam(y))):
        lf = BC.long_date_from_short_date((y, m, d), trim=True)
        eq(lf, want + (m, d), f'long form of {(y, m, d)}')
        eq(BC.short_date_from_long_date(lf, trim=True), (y, m, d),
           f'short form of {lf}')


@P.check(st.tuples(G.dates(), st.one_of(G.times(), st.just((0, 0, 0, 0))),
                   st.integers(0, 4), st.booleans()),
         quick=6000, thorough=400000)
def with_times(case):
    (y, m, d), t, n, trim = case
    given, full = t[:n], t[:n] + (0,) * (4 - n)
    hms = trimmed(full) if trim else full
    sf = (y, m, d) + given
    lf = M.long_of(y) + (m, d) + given
    eq(BC.long_date_from_short_date(sf, trim=trim),
       M.long_of(y) + (m, d) + hms, f'long form of {sf} trim={trim}')
    eq(BC.short_date_from_long_date(lf, trim=trim), (y, m, d) + hms,
       f'short form of {lf} trim={trim}')
    nontrivial(y <= 0 or y % 19 in (0, 1) or any(t[:n]))
    label(f'{n} time fields')


@P.check(st.tuples(G.dates(), st.tuples(G.hours(), G.sixty(), st.one_of(
    G.sixty(), st.floats(0, 59.999).map(lambda f: round(f, 6)))),
    st.booleans(), st.booleans()), quick=3000, thorough=200000)
def float_seconds(case):
    """Seconds with a fraction pass through unchanged."""
    (y, m, d), (hh, mm, ss), trim, z = case
    hms = (hh, mm, ss, 0)
    want = trimmed(hms) if trim else hms
    eq(BC.long_date_from_short_date((y, m, d, hh, mm, ss), trim=trim),
       M.long_of(y) + (m, d) + want, 'long')
    eq(BC.short_date_from_long_date(M.long_of(y) + (m, d, hh, mm, ss),
                                    trim=trim), (y, m, d) + want, 'short')
    nontrivial(bool(ss % 1))


@P.check(st.tuples(G.dates(), G.times(), st.booleans()),
         quick=4000, thorough=200000)
def pack_unpack(case):
    """A long date with a time and the same with a day fraction."""
    (y, m, d), (hh, mm, ss, us), short = case
    lf = M.long_of(y) + (m, d)
    secs = hh * 3600 + mm * 60 + ss + us / 1e6
    packed = BC.date_from_kvymdhms(lf + (hh, mm, ss, us))
    eq(packed[:4], lf[:4], 'packed date')
    near(packed[4], d + secs / 86400, 6e-7, 'day with its fraction')
    if packed[4] >= d + 1 or (m == 0 and packed[4] > M.mlen(y, m) + 0.999999):
        nontrivial(False)                  # rounded up to the next day
        return
    if (packed[4] % 1) * 86400 > 86399.9:
        nontrivial(False)
        return
    un = BC.kvymdhms_from_b_date(packed, us=True, short=short)
    head = (y, m, d) if short else lf
    eq(tuple(un[:len(head)]), head, f'unpacked {packed}')
    h2, m2, s2, u2 = un[len(head):]
    for v, top in ((h2, 24), (m2, 60), (s2, 60), (u2, 10 ** 6)):
        if not (isinstance(v, int) and 0 <= v < top):
            fail(f'field {v!r} out of range in {un}')
    near(h2 * 3600 + m2 * 60 + s2 + u2 / 1e6, secs, 0.05,
         f'time of {un} from {packed}')
    un = BC.kvymdhms_from_b_date(packed, short=short)
    near(un[-3] * 3600 + un[-2] * 60 + un[-1] if len(un) == len(head) + 3
         else un[len(head)] * 3600 + un[len(head) + 1] * 60
         + un[len(head) + 2], secs, 0.05, f'float time of {un}')


@P.check(st.tuples(G.dates(), G.times(), st.booleans(), st.booleans()),
         quick=3000, thorough=150000)
def split_microseconds(case):
    """us=True splits float seconds, and trim removes trailing zeros only."""
    (y, m, d), (hh, mm, ss, us), short, trim = case
    lf = M.long_of(y) + (m, d)
    un = BC.kvymdhms_from_b_date(lf + (hh, mm, ss + us / 1e6), us=True,
                                 short=short, trim=trim)
    head = (y, m, d) if short else lf
    want = (hh, mm, ss, us)
    eq(un, head + (trimmed(want) if trim else want), f'us split {case}')


def carried(y, m, d):
    """The recorded carry of a day: it takes 1 from the day at a month's end,
    and leaves that day in the next month."""
    d += 1
    if d > (19 if m else M.ayyam(y)):
        m, d = (m + 1, d - 1) if m else (19, 1)
    return (y, m, d) if m <= 19 else (y + 1, 1, d)


@P.check(st.tuples(G.dates(safe=True), st.integers(0, 59),
                   st.integers(0, 59)), quick=300, thorough=3000)
def hour_24(case):
    """24:mm of a long date is 0:mm of the next day in the short form."""
    (y, m, d), mm, ss = case
    n = M.to_ord(y, m, d)
    if n >= M.MAX_ORD:
        return
    got = BC.short_date_from_long_date(M.long_of(y) + (m, d, 24, mm, ss))
    want = M.from_ord(n + 1) + (0, mm, ss, 0)
    if got == want:
        return
    # Recorded: the carry takes 1 from the hour, and 1 from the day.
    y2, m2, d2 = carried(y, m, d)
    if got == (y2, m2, d2, 23, mm, ss, 0):
        known(KF)
    else:
        fail(f'short form of 24:{mm}:{ss} of {(y, m, d)}: {got}')


@P.check(st.tuples(G.dates(safe=True), st.one_of(st.integers(0, 23),
                                                 st.just(23)),
                   st.one_of(st.integers(0, 59), st.just(59)),
                   st.one_of(st.just(0), G.micros())), quick=600,
         thorough=5000)
def second_60(case):
    """A second 60 of a long date is the first of the next minute."""
    (y, m, d), hh, mm, us = case
    n = M.to_ord(y, m, d)
    if n >= M.MAX_ORD:
        return
    s = (hh * 60 + mm + 1) * 60
    want = M.from_ord(n + s // 86400) + (s // 3600 % 24, s // 60 % 60, 0, us)
    got = BC.short_date_from_long_date(M.long_of(y) + (m, d, hh, mm, 60, us))
    if got == want:
        return
    # Recorded: each carry takes 1 from the field it leaves.
    m2, h2, d2 = mm + 1, hh, (y, m, d)
    if m2 == 60:
        m2, h2 = 59, hh + 1
    if h2 == 24:
        h2, d2 = 23, carried(y, m, d)
    if got == d2 + (h2, m2, 59, us):
        known(KF)
    else:
        fail(f'short form of {hh}:{mm}:60.{us} of {(y, m, d)}: {got}')


@P.check(st.tuples(G.dates(), G.dates()), quick=2000, thorough=100000)
def same_day_same_value(case):
    """The two forms of a day are equal; those of two days are not, and the
    long form sorts as the short form does."""
    a, b = case
    la, lb = M.long_of(a[0]) + a[1:], M.long_of(b[0]) + b[1:]
    x, lx, z, lz = date(*a), date(*la), date(*b), date(*lb)
    eq(x == lx, True, f'{a} == {la}')
    eq(hash(x), hash(lx), f'hash of {a} and {la}')
    na, nb = M.to_ord(*a), M.to_ord(*b)
    for p, q in ((x, lz), (lx, lz), (lx, z)):
        eq((p == q, p != q, p < q, p <= q, p > q, p >= q),
           (na == nb, na != nb, na < nb, na <= nb, na > nb, na >= nb),
           f'order of {p!r} and {q!r}')
    nontrivial(a != b)
