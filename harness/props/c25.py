"""C25: results depend on the arguments and the set place alone."""
import os
import pickle
import sys
import threading
import zoneinfo

from hypothesis import strategies as st

import gens as G
import model as M
from core import HarnessError, Prop, eq, forked, label, nontrivial
from target import (B, BC, D, GC, TZWithCoords, date, datetime, time,
                    timedelta, timezone)

P = Prop('C25', rule=(
    'Drawn histories of 2 to 9 operations of every part of the package '
    '(conversions at places, text, arithmetic, time zones, timestamps), with '
    'changes of the local place between, run in one process in order, in '
    'another order, on other calendar objects and by several threads at '
    'once. Oracle: each operation run alone in a process that has done '
    'nothing else, with the place that is set. Non-trivial: at least two '
    'different operations.'),
    assumptions=['Threads are switched every 10 microseconds; the '
                 'schedules are the interpreter\'s.'])

FORMATS = ('%Y-%m-%d', '%Y/%m/%d %H:%M', '%d %B %Y', '%j %Y', '%Y%m%d',
           '%A %d %B %Y', '%H:%M:%S %d.%m.%Y', '%G %V %u', '%Y %b %d')
AREAS = ('America/New_York', 'Europe/Berlin', 'Asia/Tehran', 'Asia/Tokyo',
         'Australia/Sydney')
# Formats alike, which read the same text differently.
PARTS = ('%m', '%M', '%d', '%H', '%I', '%S', '%j', '%y', '%U', '%w')
# Moments alike, a day, an hour and a microsecond apart.
MOMENTS = (2451545.0,) + tuple(2451623.8 + k for k in (
    0, 1, 1 / 24, 1.2e-11 * 86400, 365, -36525, 3652500 / 8, 2e5))
SOLAR = ('_apparent_solar_longitude', '_nutation_longitude',
         '_nutation_obliquity', '_apparent_solar_latitude', '_delta_t',
         '_sun_apparent_declination', '_sun_apparent_right_ascension')
place = st.one_of(st.none(), G.cities())
dates = G.dates(-259, 1100, safe=True)
stamp = st.integers(-10 ** 9, 4 * 10 ** 9)
sets = st.tuples(st.just('set'), st.one_of(st.none(), G.cities()))
op = st.one_of(
    st.tuples(st.just('greg'), dates, G.times(), place),
    st.tuples(st.just('jd'), dates, G.times(), place),
    st.tuples(st.just('back'), dates, st.integers(0, 999), place),
    st.tuples(st.just('sun'), dates, G.cities()),
    st.tuples(st.just('stamp'), stamp, st.booleans(), place),
    st.tuples(st.just('ord'), dates, st.integers(-9999, 9999),
              st.booleans()),
    st.tuples(st.just('strp'), dates, G.times(), st.sampled_from(FORMATS)),
    st.tuples(st.just('iso'), dates, G.times(), st.booleans()),
    st.tuples(st.just('zone'), st.sampled_from(AREAS), G.cities(),
              G.dates(100, 230, safe=True)),
    st.tuples(st.just('gc'), st.integers(1, 9999), st.integers(1, 12),
              st.integers(1, 28)),
    st.tuples(st.just('pickle'), dates, G.times(), st.booleans()),
    st.tuples(st.just('badstrp'), st.text(max_size=6),
              st.sampled_from(FORMATS)),
    st.tuples(st.just('parse'), st.tuples(*[st.integers(1, 12)] * 3),
              st.tuples(*[st.sampled_from(PARTS)] * 2), st.sampled_from('-/ ')
              ),
    st.tuples(st.just('solar'), st.sampled_from(MOMENTS), st.sampled_from(
        SOLAR), st.booleans()),
    st.tuples(st.just('equinox'), st.integers(1600, 2900),
              st.integers(0, 3)))
local_op = st.one_of(
    st.tuples(st.just('localstamp'), stamp, st.booleans()),
    st.tuples(st.just('naive'), dates, G.times()),
    st.tuples(st.just('aware'), G.dates(-100, 400, safe=True), G.times(),
              G.offsets()),
    st.tuples(st.just('where')))


def show(x):
    """Plain data that says all of x."""
    if isinstance(x, datetime):
        return (type(x).__name__, tuple(x.b_date), tuple(x.b_time), x.fold,
                x.is_short, None if x.tzinfo is None else str(x.tzinfo),
                str(x.utcoffset()))
    if isinstance(x, date):
        return type(x).__name__, tuple(x.b_date), x.is_short
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x]
    return repr(x)


def mk(d, t, long=False, tz=None):
    a = M.long_of(d[0]) + d[1:] if long else d + (None, None)
    return datetime(*a, *t, tz)


def do(o, cal=None, gc=None):
    k, a = o[0], o[1:]
    cal, gc = cal or BC, gc or GC
    try:
        if k == 'set':
            B.set_local_coordinates(*map(float, (a[0] or ())[:2]))
            return None
        if k == 'greg':
            r = cal.gregorian_date_from_badi_date(a[0] + a[1], *(a[2] or ()))
        elif k == 'jd':
            r = cal.jd_from_badi_date(a[0] + a[1], *(a[2] or ()))
        elif k == 'back':
            jd = M.to_ord(*a[0]) + 1721422.5 + a[1] / 1000
            r = (cal.badi_date_from_jd(jd, *(a[2] or ()), us=True,
                                       short=True),
                 cal.badi_date_from_jd(jd, *(a[2] or ())))
        elif k == 'sun':
            lat, lon, _ = a[1]
            t = M.to_ord(*a[0]) + 1721424.5 + 0.5 - lon / 360
            r = (cal._sun_setting(t, lat, lon), cal._sun_rising(t, lat, lon),
                 cal.utc_sunset(a[0], *a[1]))
        elif k == 'stamp':
            r = cal.badi_date_from_timestamp(a[0], *(a[2] or ()),
                                             short=a[1], us=True)
        elif k == 'ord':
            x = date(*(M.long_of(a[0][0]) + a[0][1:] if a[2] else a[0]))
            r = (x.toordinal(), x + timedelta(days=a[1]), x.weekday(),
                 tuple(x.isocalendar()), x.timetuple(), hash(x))
        elif k == 'strp':
            if a[0][0] < 1:
                return None
            text = mk(*a[:2]).strftime(a[2])
            r = (text, datetime.strptime(text, a[2]))
        elif k == 'badstrp':
            r = datetime.strptime(*a)
        elif k == 'parse':
            n, parts, sep = a
            r = datetime.strptime('0181' + ''.join(f'{sep}{v:02}' for v in
                                                   n[:2]),
                                  sep.join(('%Y',) + parts))
        elif k == 'solar':
            f = getattr(cal, a[1])
            x = a[0] if a[1][:3] in ('_ap', '_de') else (
                a[0] - 2451545) / 36525
            r = f(x, degrees=a[2]) if a[1][1] in 'an' else f(x)
        elif k == 'iso':
            x = mk(a[0], a[1], a[2])
            r = (x.isoformat(), datetime.fromisoformat(
                mk(*a[:2]).isoformat()), repr(x))
        elif k == 'zone':
            z = TZWithCoords.fromzoneinfo(zoneinfo.ZoneInfo(a[0]), *a[1])
            x = mk(a[2], (12, 0, 0, 0), False, z)
            r = (x, x.dst(), x.tzname(), hash(x), timezone.badi.dst(None),
                 timezone.utc.dst(None))
        elif k == 'gc':
            jd = gc.jd_from_gregorian_date(a, exact=True)
            r = (jd, gc.gregorian_date_from_jd(jd, exact=True),
                 gc.jd_from_gregorian_date(a))
        elif k == 'pickle':
            x = mk(a[0], a[1], a[2], timezone.badi)
            r = (pickle.loads(pickle.dumps(x)), x.astimezone(timezone.utc),
                 x - mk(a[0], a[1], False, timezone.utc))
        elif k == 'equinox':
            jd = cal._approx_julian_day_for_equinoxes_or_solstices(
                a[0], a[1] * 90)
            r = cal._find_moment_of_equinoxes_or_solstices(jd, a[1] * 90)
        elif k == 'localstamp':
            r = (date.fromtimestamp(a[0], short=a[1]),
                 datetime.fromtimestamp(a[0], short=a[1]),
                 datetime.fromtimestamp(a[0], timezone.utc))
        elif k == 'naive':
            r = (mk(*a).timestamp(), mk(*a, True).timestamp())
        elif k == 'aware':
            x = mk(*a[:2], False, timezone(timedelta(seconds=a[2])))
            r = (x.astimezone(), mk(*a[:2]).astimezone(timezone.utc),
                 mk(*a[:2]).astimezone())
        elif k == 'where':
            r = (D.LOCAL_COORD, str(D.LOCAL), str(timezone.local),
                 str(B.LOCAL), B.LOCAL_COORD, D.BADI_COORD, str(D.BADI),
                 str(D.UTC))
        else:
            raise HarnessError(k)
    except HarnessError:
        raise
    except Exception as e:
        return f'{type(e).__name__}: {e}'
    return show(r)


def alone(o, conf):
    def f():
        if conf:
            do(conf)
        return do(o)
    return forked(f)


def check(ops, got, what):
    conf = None
    for i, (o, r) in enumerate(zip(ops, got)):
        if o[0] == 'set':
            conf = o
            continue
        eq(r, alone(o, conf), f'{what}: {o} as number {i + 1} of {len(ops)}')


@P.check(st.lists(st.one_of(op, op, op, local_op, sets), min_size=2,
                  max_size=9), quick=320, thorough=20000)
def histories(ops):
    """Each operation gives in a history what it gives alone."""
    got = forked(lambda: [do(o) for o in ops])
    check(ops, got, 'in order')
    if not any(o[0] == 'set' for o in ops):
        rev = forked(lambda: [do(o) for o in reversed(ops)])[::-1]
        eq(rev, got, 'in the other order')
        label('reversed')
    nontrivial(len({o[0] for o in ops} - {'set'}) > 1)


alike_ops = st.one_of(
    st.lists(st.tuples(st.just('parse'), st.tuples(*[st.sampled_from(
        (3, 11))] * 3), st.tuples(*[st.sampled_from(PARTS[:6])] * 2),
        st.just('-')), min_size=4, max_size=12),
    st.lists(st.tuples(st.just('solar'), st.sampled_from(MOMENTS[:4]),
                       st.sampled_from(SOLAR[1:3]), st.booleans()),
             min_size=3, max_size=8),
    st.lists(st.tuples(st.just('solar'), st.sampled_from(MOMENTS),
                       st.sampled_from(SOLAR), st.booleans()),
             min_size=4, max_size=10))


@P.check(alike_ops, quick=300, thorough=20000)
def alike(ops):
    """So do operations that differ in little only: formats that read the
    same text, moments near each other, units."""
    got = forked(lambda: [do(o) for o in ops])
    check(ops, got, 'in order')
    nontrivial(len({repr(o) for o in ops}) > 1)


@P.check(st.lists(op, min_size=2, max_size=5), quick=160, thorough=10000)
def objects(ops):
    """Any calendar object gives the same, and so does a date, which is
    one."""
    def f():
        out = []
        cals = [B.BahaiCalendar(), date(1, 1, 1),
                datetime(1, 10, 5, 3, 5, 12, 30)]
        g = B.GregorianCalendar()
        for o in ops:
            out.append([do(o, c, g) for c in cals] + [do(o)])
        out.append([show(cals[1]), show(cals[2]), hash(cals[1]) == hash(
            date(1, 1, 1))])
        return out
    got = forked(f)
    eq(got.pop(), [('date', (1, 1, 1), True),
                   ('datetime', (1, 10, 5, 3, 5), (12, 30, 0, 0), 0, False,
                    None, 'None'), True], 'the dates themselves')
    for o, r in zip(ops, got):
        eq(r, [r[-1]] * 4, f'{o} on other objects')
    check(ops, [r[-1] for r in got], 'in order')
    nontrivial(len({o[0] for o in ops}) > 1)


@P.check(st.tuples(st.lists(op, min_size=2, max_size=6),
                   st.integers(2, 4)), quick=120, thorough=8000)
def threads(case):
    """So does each of several threads that work at once."""
    ops, n = case

    def f():
        sys.setswitchinterval(1e-5)
        out = [None] * n
        gate = threading.Barrier(n)

        def run(k):
            try:
                gate.wait()
                r = []
                for j in range(2):
                    r = [do(o) for o in ops[k:] + ops[:k]]
                out[k] = r
            except BaseException as e:
                out[k] = f'{type(e).__name__}: {e}'
        ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out
    got = forked(f)
    want = [alone(o, None) for o in ops]
    for k in range(n):
        eq(got[k], want[k:] + want[:k], f'thread {k + 1} of {n}')
    nontrivial(len({o[0] for o in ops}) > 1)


@P.check(st.tuples(st.lists(st.one_of(st.none(), G.cities()), min_size=1,
                            max_size=5), G.times(), dates), quick=100,
         thorough=3000)
def places(case):
    """Setting places one after another leaves the last one, and setting
    none the default."""
    where, t, d = case
    asks = [('where',), ('naive', d, t), ('localstamp', 10 ** 9, True)]

    def f():
        r = []
        for w in where:
            do(('set', w))
            r.append([do(o) for o in asks])
        do(('set', None))
        return r + [[do(o) for o in asks]]
    got = forked(f)
    for w, r in zip(where + [None], got):
        eq(r, [alone(o, ('set', w)) for o in asks], f'at {w}')
    eq(got[-1], [alone(o, None) for o in asks], 'the default')


@P.sweep(lambda tier, seed: [0] if tier == 'quick' else [0, 1])
def year_starts(_):
    """Building the table of year starts again gives the same table."""
    def f():
        a = B.BahaiCalendar._YEAR_START
        b = B.BahaiCalendar()._build_badi_year_start()
        return a == b, len(a), B.BahaiCalendar._RD_END
    same, n, end = forked(f)
    eq(same, True, 'the table')
    eq(n > M.MAXYEAR - M.MINYEAR, True, 'its length')
