"""Reference model of the Badi' calendar, in plain integer arithmetic.

A day is its proleptic Gregorian ordinal (the numbering of the standard
library), so the standard library's date and datetime serve as the model of
everything that happens after a date has become a day number.
"""
import bisect
import datetime as S

import leap_table as L

MINYEAR, MAXYEAR = -1842, 1161
FIRST, LAST = L.FIRST_YEAR, L.FIRST_YEAR + len(L.BITS) - 1
_START = [L.FIRST_ORDINAL]
for _b in L.BITS:
    _START.append(_START[-1] + (366 if _b == '1' else 365))

ALL_MONTHS = tuple(range(1, 19)) + (0, 19)      # the order within a year
WEEKDAYS = ('Jalál', 'Jamál', 'Kamál', 'Fiḍāl', '`Idāl', 'Istijlāl',
            'Istiqlāl')                        # 0 == Saturday
WEEKDAYS_ABV = ('Jal', 'Jam', 'Kam', 'Fiḍ', 'Idā', 'Isj', 'Isq')
MONTHS = {0: 'Ayyám-i-Há', 1: 'Bahá', 2: 'Jalál', 3: 'Jamál', 4: "'Aẓamat",
          5: 'Núr', 6: 'Raḥmat', 7: 'Kalimát', 8: 'Kamál', 9: "Asmá'",
          10: "'Izzat", 11: 'Mashíyyat', 12: "'Ilm", 13: 'Qudrat',
          14: 'Qawl', 15: "Masá'il", 16: 'Sharaf', 17: 'Sulṭán', 18: 'Mulk',
          19: "'Alá'"}


def start(y):
    """Ordinal of the first day of year y (FIRST .. LAST + 1)."""
    return _START[y - FIRST]


def leap(y):
    return L.BITS[y - FIRST] == '1'


def ylen(y):
    return 366 if leap(y) else 365


def ayyam(y):
    return 5 if leap(y) else 4


MIN_ORD, MAX_ORD = start(MINYEAR), start(MAXYEAR + 1) - 1
LEAPS = [y for y in range(MINYEAR, MAXYEAR + 1) if leap(y)]


def mlen(y, m):
    return ayyam(y) if m == 0 else 19


def doy(y, m, d):
    """Day of the year, from 1."""
    if m == 0:
        return 342 + d
    if m == 19:
        return 342 + ayyam(y) + d
    return (m - 1) * 19 + d


def from_doy(y, n):
    if n <= 342:
        return y, (n - 1) // 19 + 1, (n - 1) % 19 + 1
    a = ayyam(y)
    if n <= 342 + a:
        return y, 0, n - 342
    return y, 19, n - 342 - a


def to_ord(y, m, d):
    return start(y) + doy(y, m, d) - 1


def from_ord(n):
    y = FIRST + bisect.bisect_right(_START, n) - 1
    return from_doy(y, n - start(y) + 1)


def weekday(n):
    """0 == Jalal == Saturday, for an ordinal."""
    return (n + 1) % 7


def valid(y, m, d):
    return (MINYEAR <= y <= MAXYEAR and 0 <= m <= 19
            and 1 <= d <= mlen(y, m))


def days(y):
    return [from_doy(y, n) for n in range(1, ylen(y) + 1)]


def long_of(y):
    """(Kull-i-Shay, Vahid, year in the Vahid) of a short form year."""
    k, r = divmod(y - 1, 361)
    v, yy = divmod(r, 19)
    return k + 1, v + 1, yy + 1


def short_of(k, v, yy):
    return (k - 1) * 361 + (v - 1) * 19 + yy


def to_std(y, m, d, hh=0, mm=0, ss=0, us=0, tz=None):
    """The standard library's datetime with the same day number and time."""
    g = S.date.fromordinal(to_ord(y, m, d))
    return S.datetime(g.year, g.month, g.day, hh, mm, ss, us, tz)


def from_std(dt):
    return from_ord(dt.toordinal()) + (dt.hour, dt.minute, dt.second,
                                       dt.microsecond)


# -- ISO weeks ---------------------------------------------------------------

def iso_week1(y):
    """Ordinal of the Jalal starting ISO week 1: the first week with at least
    four days in the year."""
    s = start(y)
    w = weekday(s)
    return s - w if w <= 3 else s - w + 7


def iso(y, m, d):
    n = to_ord(y, m, d)
    iy = y
    if n < iso_week1(y):
        iy = y - 1
    elif y + 1 <= LAST and n >= iso_week1(y + 1):
        iy = y + 1
    w, wd = divmod(n - iso_week1(iy), 7)
    return iy, w + 1, wd + 1


def iso_weeks(y):
    return (iso_week1(y + 1) - iso_week1(y)) // 7


# -- recorded findings: inputs on which the pinned tree is known to be wrong --

FUDGED = (-1796, -1792, -1788)       # their ordinals are one too high


def fudge(y):
    return 1 if y in FUDGED else 0


GAP_FIRST, GAP_LAST = 577725, 577734     # ordinals of 1582-10-05 .. 10-14

# The days of which the historic calendar has one more (-100-02-29 and so on).
SKIPPED = (36219, 72743, 109267, 182316, 218840, 255364, 328413, 364937,
           401461, 474510, 511034, 547558)


def near_skip(n, days=4):
    """Within a few days of a skipped day or of the Gregorian reform."""
    return any(abs(n - s) <= days for s in SKIPPED) \
        or GAP_FIRST - days <= n <= GAP_LAST + days


def near_finding(n, days=4):
    """Within a few days of a day whose ordinal is a recorded finding."""
    return near_skip(n, days) or any(
        from_ord(k)[0] in FUDGED for k in (max(n - days, MIN_ORD),
                                           min(n + days, MAX_ORD)))
