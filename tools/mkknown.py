#!/usr/bin/env python3
"""Writes known_findings.json: the defects recorded and those repaired."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []


def kf(kid, props, what, where):
    for p in props.split():
        K.append(dict(id=kid, property=p, what=what, where=where))


kf('KF-ORD-FUDGE', 'C01 C09 C18',
   'the ordinals (and weekdays) of the days of years -1796, -1792 and -1788 '
   'are one too high',
   'TimeDateUtils._ymd2ord; an existing test asserts the value')
kf('KF-REFORM-GAP', 'C01 C09 C10',
   'ordinals 577725..577734 (Gregorian 1582-10-05..14) give no date: '
   'ValueError "reform gap"',
   'GregorianCalendar.jd_from_gregorian_date; an existing test asserts it')
kf('KF-LONG-OVERFLOW', 'C03 C22',
   'the short form of a long form 24:mm:ss is 23:mm:ss of the next day, not '
   '0:mm:ss, and that of a second 60 is second 59 of the next minute: each '
   'carry takes 1 from the field it leaves',
   'BahaiCalendar.short_date_from_long_date; an existing test asserts it')
kf('KF-LON-ZONE', 'C24',
   'without a zone the local time of a longitude is 1/24 of what it should '
   'be away from UT: lon / 360 is a part of a day, and is taken as hours',
   'BaseCalendar._local_zone_correction; an existing test asserts the values')
kf('KF-EQUINOX-DT', 'C05',
   'the moment of an equinox or solstice is in dynamical, not universal '
   'time: Delta T is divided by 86400 twice',
   'BaseCalendar._find_moment_of_equinoxes_or_solstices; existing tests '
   'assert the values')

kf('KF-REFORM-GAP', 'C06',
   'the days -261-11-10 to -261-11-19 (Gregorian 1582-10-05..14) have no '
   'Julian day: ValueError "reform gap"',
   'BaseCalendar._meeus_from_exact; existing tests assert it')
kf('KF-SPRING-DAY-END', 'C06',
   'where a day is longer than 24 hours its instants after 24:00 are given '
   'as the first minutes of the next day, which then begin again at sunset',
   'BahaiCalendar._utc_to_badi_time')

kf('KF-SKIPPED-DAYS', 'C06',
   'the two days before each of twelve days that only the historic calendar '
   'has (29 February 100, 200, 300, 500 ... 1500) give, through their Julian '
   'day, a time up to 130 s off',
   'BahaiCalendar._utc_to_badi_time: the last sunset is found with the day '
   'difference of the instant')

kf('KF-TIME-FLOAT-SECOND', 'C14',
   'time.fromisoformat leaves a decimal fraction in the second (15.5, with '
   'no microseconds), so that the time is not the one that was written, and '
   'has no hash and no repr',
   'TimeDateUtils._parse_isoformat_time; an existing test asserts '
   "'12:30:30.5'")

kf('KF-SOLAR-UNITS', 'C30',
   '_nutation_longitude and _nutation_obliquity with degrees=True give '
   'degrees of the degrees, 57.3 times too much; _aberration takes its '
   'periodic terms, seconds of arc, for degrees, up to 0.7" off; '
   '_apparent_solar_longitude adds both, in degrees, to radians, up to 0.6 '
   'degrees off',
   'BaseCalendar._nutation_obliquity_longitude, _aberration and '
   '_apparent_solar_longitude; existing tests assert the values')
kf('KF-ISO-OFFSET', 'C14',
   'the ISO text of a datetime whose UTC offset has seconds or microseconds '
   '(2024-01-01T00:00:00+01:00:01) is refused by fromisoformat',
   'TimeDateUtils._parse_isoformat_timezone; an existing test asserts that '
   "'-05:30:30' is refused")
kf('KF-TIME-REPR', 'C28',
   'the repr of an aware time has the str of its zone in place of the repr, '
   'and cannot be evaluated (time(1, 2, tzinfo=UTC+02:00))',
   "time.__repr__; an existing test asserts 'tzinfo=35.69435, 51.288701, 3.5, "
   "Asia/Tehran'")

kf('KF-PCT-Z', 'C16 C17',
   '%z and %:z give the minutes of the offset as hundredths of an hour '
   '(+0350 for 3 h 30 min)',
   'TimeDateUtils.z; an existing test asserts +0350 for Tehran')

kf('KF-ISO-WEEK-52', 'C17 C18',
   'in the years that begin on Kamál or Fiḍāl fromisocalendar (and an ISO '
   'text) gives a day one week too late for week 52, and refuses week 53 of '
   'those that have one',
   'TimeDateUtils._isoweek_to_badi; existing tests assert the dates')

kf('KF-MAS', 'C17',
   'months 11 (Mashíyyat) and 15 (Masá’il) have the same abbreviation, so '
   'that strptime reads the %b or %c that strftime wrote of month 15 as '
   'month 11',
   'TimeDateUtils.MONTHNAMES_ABV; existing tests assert the names')
kf('KF-PCT-U', 'C17',
   'in the years that begin on Jamál, Kamál or Fiḍāl strftime writes %U and '
   '%W one higher than strptime reads them',
   'TimeDateUtils.U and _calc_julian_from_U_or_W; existing tests assert '
   'the week of year 1 as 01')

# commit prefix -> property
FIXED = {
    '6707c53': 'C15',
    '7a1aea9': 'C11', '50e9297': 'C02', 'ea15f0b': 'C12', 'bb3ca17': 'C08',
    '0f2faba': 'C08',
    'e958615': 'C08',
    'dea66be': 'C16', '202690f': 'C16',
    '9857646': 'C12',
    '913168f': 'C15', 'd30aef1': 'C29', '0d550ba': 'C30',
    '0276d90': 'C23', 'ed2cd35': 'C26', 'ce896b2': 'C25', '0103427': 'C24',
    '4e9f8d8': 'C24', '7ca6b3f': 'C28',
    '96baace': 'C17',
    'a45107d': 'C21',
    '1b59599': 'C16',
    '2e6893d': 'C16',
    '0eef9d4': 'C16',
    '97c34ff': 'C16',
    'a037bef': 'C16',
    '945e5e8': 'C16',
    'a02a33c': 'C15', 'd190a2a': 'C15',
    '3d396f2': 'C15', '2a326dc': 'C08', '5550f89': 'C11', 'ce157ae': 'C14',
    'a10e500': 'C06', 'e4dbee0': 'C08', '69138fc': 'C23', '9e23c0e': 'C12',
    '76252ce': 'C12', 'd9ba6f5': 'C12', '82c1aea': 'C12', 'c02ff2b': 'C21',
    '6054d00': 'C14', 'b381bc4': 'C13', '95a8c94': 'C14', '8c7b9b3': 'C13',
    'f76b62a': 'C13', '73bfd8b': 'C15', 'e050854': 'C14', '3e907a9': 'C24',
    'ef8142d': 'C24', '316f3d8': 'C19', 'a5f0cbb': 'C18', 'b3eb87c': 'C26',
    'c9cbb7c': 'C19', '4e89305': 'C11', '6e13d95': 'C11', 'd6ac29f': 'C06',
    'ab66991': 'C16', 'c4c05ae': 'C16', 'bf5c1a0': 'C17', '42b62e2': 'C22',
    '0910169': 'C24', 'a56332c': 'C06', '792a0a4': 'C03', '6b2a614': 'C06',
    'a6734e6': 'C06'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s',
                      '--reverse'], capture_output=True, text=True,
                     check=True).stdout.splitlines()
fixed, rest = [], []
for ln in log:
    h, _, s = ln.partition(' ')
    if s.startswith('fix: '):
        pid = FIXED.get(h[:7])
        if pid:
            fixed.append(f'fixed: property={pid} {h} {s[5:]}')
        else:
            rest.append(ln)
assert not rest, rest
with open(os.path.join(HERE, 'known_findings.json'), 'w',
          encoding='utf8') as f:
    json.dump(dict(known=K, fixed=fixed), f, indent=1, ensure_ascii=False)
    f.write('\n')
