"""Hypothesis strategies; every case is built from Python literals."""
from hypothesis import strategies as st

import model as M

INT = st.integers


def years(lo=M.MINYEAR, hi=M.MAXYEAR):
    """Short form years: spread evenly, with the edges and the boundaries of
    Vahids and Kull-i-Shays over-represented."""
    special = [y for y in (lo, lo + 1, hi - 1, hi, -1, 0, 1, 2, 18, 19, 20, 172,
                           181, 182, 183, -18, -19, -20, -260, -261, -262)
               if lo <= y <= hi]
    cyc = sorted({y for k in range(lo // 19, hi // 19 + 2)
                  for y in (k * 19 - 1, k * 19, k * 19 + 1) if lo <= y <= hi})
    leaps = [y for y in M.LEAPS if lo <= y <= hi]
    return st.one_of(INT(lo, hi), INT(max(lo, 150), min(hi, 250)) if hi > 150
                     else INT(lo, hi), st.sampled_from(special),
                     st.sampled_from(cyc), st.sampled_from(leaps))


@st.composite
def dates(draw, lo=M.MINYEAR, hi=M.MAXYEAR, safe=False):
    """(y, m, d); with safe, none of the days of recorded findings."""
    y = draw(years(lo, hi))
    if safe and (y == -261 or y in M.FUDGED):
        y += 1
    kind = draw(INT(0, 5))
    if kind <= 1:
        n = draw(INT(1, M.ylen(y)))
    elif kind == 2:                       # around Ayyam-i-Ha
        n = draw(INT(338, min(352, M.ylen(y))))
    elif kind == 3:
        n = draw(st.sampled_from((1, 2, 3, M.ylen(y) - 1, M.ylen(y))))
    else:                                 # month edges
        m = draw(st.sampled_from(M.ALL_MONTHS))
        d = draw(st.sampled_from((1, M.mlen(y, m))))
        return (y, m, d)
    return M.from_doy(y, n)


def hours():
    return st.one_of(INT(0, 23), st.sampled_from((0, 11, 12, 13, 23)))


def sixty():
    return st.one_of(INT(0, 59), st.sampled_from((0, 1, 29, 30, 59)))


def micros():
    return st.one_of(INT(0, 999999), st.sampled_from(
        (0, 1, 9, 10, 499999, 500000, 999, 1000, 999000, 999999)),
        INT(0, 999).map(lambda n: n * 1000))


def times():
    """(hh, mm, ss, us)"""
    return st.tuples(hours(), sixty(), sixty(), micros())


def offsets(minutes_only=True):
    """UTC offset in seconds, |offset| < 24 h."""
    common = [0, 12600, 3600, -3600, -18000, 19800, -12600, 20700, 50400,
              86340, -86340, 60, -60, 1800, -1800]
    if minutes_only:
        return st.one_of(st.sampled_from(common),
                         INT(-1439, 1439).map(lambda n: n * 60))
    return st.one_of(whole_offsets(), fine_offsets())


def whole_offsets():
    return st.one_of(st.sampled_from((0, 12600, -18000, 20700, 86340, -86340,
                                      3601, -1)), INT(-86399, 86399))


def offset_text(o, colon=':'):
    """+HH:MM[:SS[.ffffff]]"""
    n = round(abs(o) * 10 ** 6)
    a, us = divmod(n, 10 ** 6)
    s = f'{"-" if o < 0 else "+"}{a // 3600:02}{colon}{a // 60 % 60:02}'
    if a % 60 or us:
        s += f'{colon}{a % 60:02}'
    return s + (f'.{us:06}' if us else '')


def fine_offsets():
    """UTC offsets in seconds that are not whole."""
    return st.one_of(
        INT(-86399 * 10 ** 6, 86399 * 10 ** 6).map(lambda n: n / 10 ** 6),
        INT(-9, 9).map(lambda n: n / 10 ** 6),
        INT(-47, 47).map(lambda n: n * 1800 + 0.5))


def cities():
    """(lat, lon, zone) with plain sunsets every day of the year."""
    fixed = [(35.69435, 51.288701, 3.5), (51.477928, -0.001545, 0.0),
             (32.94, 35.09, 2.0), (35.5894, -78.7792, -5.0),
             (40.7128, -74.006, -5.0), (-33.8688, 151.2093, 10.0),
             (0.0, 0.0, 0.0), (60.1699, 24.9384, 2.0), (19.43, -99.13, -6.0),
             (-54.8, -68.3, -3.0), (21.3, -157.86, -10.0),
             (28.6139, 77.209, 5.5), (35.68, 139.69, 9.0)]
    gen = st.tuples(INT(-5500, 5500), INT(-17500, 17500)).map(
        lambda t: (t[0] / 100, t[1] / 100, float(round(t[1] / 1500))))
    return st.one_of(st.sampled_from(fixed), gen)


def odd_places():
    """Places whose clock is not a whole number of hours from UTC, or is far
    from the time of their longitude."""
    lat = INT(-5500, 5500)
    return st.one_of(
        st.tuples(lat, INT(-17500, 17500)).map(          # local mean time
            lambda t: (t[0] / 100, t[1] / 100, round(t[1] / 1500, 2))),
        st.tuples(lat, INT(-17500, 17500), INT(-12, 12)).map(
            lambda t: (t[0] / 100, t[1] / 100,
                       max(-12.0, min(14.0, t[1] / 1500 + t[2] / 4)))))
