"""C27: a value in the long form does what its short form twin does."""
from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial, raises
from target import BC, TZWithCoords, date, datetime, time, timedelta, timezone

P = Prop('C27', rule=(
    'Drawn dates and datetimes, each built in the short and in the long '
    'form, and put through the same operation. Oracle: the two results are '
    'equal (or are twins of each other), the long form\'s fields being the '
    'cycles of the short form\'s year by the integer model. Every distinct '
    'case is non-trivial.'),
    assumptions=['strftime directives that state the form (%c, %D, %C, %y, '
                 '%x, %K, %V-like cycle fields) are compared in C16.'])

DIRECTIVES = ('%a %A %b %B %d %f %H %I %j %k %l %m %M %n %p %r %S %T %u %U '
              '%w %W %X %Y %z %Z %G %V %% %-d %-m %-j %-H %:z %e %h')


def zone(o):
    return None if o is None else timezone(timedelta(seconds=o))


def twins(d, t=None, o=None, fold=0):
    lf = M.long_of(d[0])
    if t is None:
        return date(*d), date(*lf, *d[1:])
    z = zone(o)
    return (datetime(*d, None, None, *t, z, fold=fold),
            datetime(*lf, *d[1:], *t, z, fold=fold))


def key(x):
    """(form, short year, rest) with the long fields checked."""
    if x.is_short:
        y = x.year
    else:
        y = M.short_of(x.kull_i_shay, x.vahid, x.year)
        eq((x.kull_i_shay, x.vahid, x.year), M.long_of(y), f'cycles of {x!r}')
        eq(tuple(x.b_date), M.long_of(y) + (x.month, x.day), 'b_date')
    r = (type(x), y, x.month, x.day)
    if isinstance(x, datetime):
        r += (x.hour, x.minute, x.second, x.microsecond, x.tzinfo, x.fold)
    return r


def same(a, b, what):
    """b, from the long form, is the long form twin of a."""
    eq((a.is_short, b.is_short), (True, False), f'{what}: form of {a!r} {b!r}')
    eq(key(b), key(a), f'{what}: {a!r} and {b!r}')
    eq((a == b, hash(a) == hash(b)), (True, True), f'{what}: {a!r} == {b!r}')


def both(f, a, b, what, twin=False):
    """f of the two: the same value or the same kind of exception."""
    r = []
    for x in (a, b):
        try:
            r.append((True, f(x)))
        except (ValueError, TypeError, OverflowError, AssertionError) as e:
            r.append((False, type(e)))
    if r[0][0] and r[1][0] and twin:
        same(r[0][1], r[1][1], what)
    else:
        eq(r[1], r[0], f'{what} of {b!r} and of {a!r}')
    return r[0]


DATE_OPS = [
    ('toordinal', lambda x: x.toordinal()),
    ('weekday', lambda x: x.weekday()),
    ('isoweekday', lambda x: x.isoweekday()),
    ('isocalendar', lambda x: tuple(x.isocalendar())),
    ('isoformat', lambda x: x.isoformat()),
    ('ctime', lambda x: x.ctime()),
    ('hash', lambda x: hash(x)),
    ('month', lambda x: (x.month, x.day)),
    ('strftime', lambda x: x.strftime(DIRECTIVES)),
    ('format', lambda x: format(x, '%j|%A %d')),
    ('yday', lambda x: (x.timetuple().tm_yday, x.timetuple().tm_wday,
                        x.timetuple().tm_mon, x.timetuple().tm_mday)),
]
TIME_OPS = DATE_OPS + [
    ('times', lambda x: (x.time(), x.timetz(), x.utcoffset(), x.tzname(),
                         x.dst(), x.b_time)),
    ('timestamp', lambda x: x.timestamp()),
    ('fields', lambda x: tuple(x.timetuple())[-6:]),
    ('utc', lambda x: tuple(x.utctimetuple())[-6:]),
    ('specs', lambda x: [x.isoformat(' ', s) for s in (
        'hours', 'minutes', 'milliseconds')]),
]


@P.check(st.tuples(G.dates(safe=True), G.dates(safe=True), st.one_of(
    st.integers(-10 ** 6, 10 ** 6), st.integers(-40, 40)),
    st.integers(0, 19), st.integers(1, 19)), quick=900, thorough=200000)
def dates(case):
    d, e, n, m, k = case
    a, b = twins(d)
    same(a, b, 'construction')
    for name, f in DATE_OPS:
        if name == 'ctime' and d[0] < 1:
            continue
        both(f, a, b, name)
    for p in twins(e):
        both(lambda x: (x - p, p - x, x < p, x <= p, x == p, x > p), a, b,
             f'with {p!r}')
    td = timedelta(days=n)
    both(lambda x: x + td, a, b, f'+ {n} days', True)
    both(lambda x: x - td, a, b, f'- {n} days', True)
    both(lambda x: td + x, a, b, f'{n} days +', True)
    both(lambda x: x.replace(month=m, day=k), a, b, f'replace({m}, {k})',
         True)
    both(lambda x: x.replace(day=k), a, b, f'replace(day={k})', True)


@P.check(st.tuples(G.dates(safe=True), G.times(), st.one_of(
    st.none(), G.offsets(False)), st.integers(0, 1), G.dates(safe=True),
    G.times(), st.integers(-10 ** 6, 10 ** 6), st.integers(0, 10 ** 11),
    G.offsets(False), st.integers(0, 19), st.integers(1, 19)), quick=600,
    thorough=200000)
def datetimes(case):
    d, t, o, fold, e, u, n, us, p, m, k = case
    a, b = twins(d, t, o, fold)
    same(a, b, 'construction')
    for name, f in TIME_OPS:
        if name == 'ctime' and d[0] < 1:
            continue
        both(f, a, b, name)
    for q in twins(e, u, o):
        both(lambda x: (x - q, q - x, x < q, x <= q, x == q, x > q), a, b,
             f'with {q!r}')
    td = timedelta(days=n, microseconds=us)
    both(lambda x: x + td, a, b, f'+ {td}', True)
    both(lambda x: x - td, a, b, f'- {td}', True)
    both(lambda x: x.replace(month=m, day=k, hour=k), a, b,
         f'replace({m}, {k})', True)
    both(lambda x: x.replace(tzinfo=None, second=k), a, b, 'replace', True)
    both(lambda x: x.date(), a, b, 'date', True)
    both(lambda x: datetime.combine(x, time(*u)), a, b, 'combine', True)
    if M.MINYEAR < d[0] < M.MAXYEAR:
        both(lambda x: x.astimezone(zone(p)), a, b, 'astimezone', True)
        if -200 < d[0] < 400:
            both(lambda x: x.astimezone(), a, b, 'astimezone()', True)
    label('aware' if o is not None else 'naive')


def ways(f, what):
    """f(short) for both forms."""
    r = []
    for s in (True, False):
        try:
            r.append(f(s))
        except (ValueError, OverflowError, AssertionError) as e:
            r.append(type(e))
    if isinstance(r[0], type) or isinstance(r[1], type):
        eq(r[1], r[0], what)
    else:
        same(*r, what)


@P.check(st.tuples(G.dates(safe=True), G.times(), st.integers(1, 53),
                   st.integers(1, 7), st.integers(-10 ** 9, 4 * 10 ** 9),
                   st.one_of(st.none(), G.offsets()),
                   st.one_of(st.none(), G.cities())), quick=400,
         thorough=100000)
def makers(case):
    """The makers give twins for short=True and short=False."""
    d, t, week, wd, stamp, o, there = case
    n = M.to_ord(*d)
    a, b = twins(d, t, o)
    for cls in (date, datetime):
        ways(lambda s: cls.fromordinal(n, short=s), f'{cls} of {n}')
        if 0 < d[0]:
            ways(lambda s: cls.fromisocalendar(d[0], week, wd, short=s),
                 f'{cls} of week {d[0]} {week} {wd}')
        ways(lambda s: cls.fromtimestamp(stamp, short=s), f'{stamp}')
    text = date(*d).isoformat()
    ways(lambda s: date.fromisoformat(text, short=s), text)
    z = TZWithCoords(*map(float, there)) if there else zone(o)
    ways(lambda s: datetime.fromtimestamp(stamp, z, short=s), f'{stamp} {z}')


@P.sweep(lambda tier, seed: ['date.today', 'datetime.today', 'datetime.now'])
def clock(src):
    """The present in the long form is the present."""
    f = eval(src, dict(date=date, datetime=datetime))
    for _ in range(3):
        a, b, c = f(), f(short=False), f()
        if a.b_date == c.b_date:
            eq((a.is_short, b.is_short), (True, False), f'form of {src}')
            eq(key(b)[1], key(a)[1], f'{src}: year')
            eq(b.b_date[-2:], a.b_date[-2:], f'{src}: month and day')
            return
    fail(f'{src}: three days in a moment')


@P.check(st.tuples(G.dates(-259), G.times(), st.one_of(st.none(),
                                                       G.cities()),
                   st.booleans()), quick=800, thorough=100000)
def calendar(case):
    """The calendar's own conversions, with short and long results."""
    (y, m, d), t, where, us = case
    args = where or ()
    full = (y, m, d) + t[:3 + us]
    jd = BC.jd_from_badi_date((y, m, d) + t, *args)
    for f in (lambda s: BC.badi_date_from_jd(jd, *args, us=us, short=s),
              lambda s: BC.badi_date_from_timestamp(
                  (jd - 2440585.5) * 86400, *args, us=us, short=s)):
        a, b = f(True), f(False)
        eq(b[:3], M.long_of(a[0]), 'cycles')
        eq(b[3:5], a[1:3], 'day')
        sa, sb = (sum(v * k for v, k in zip(w, (3600, 60, 1, 1e-6)))
                  for w in (a[3:], b[5:]))
        if abs(sa - sb) > 0.002:
            fail(f'{a} and {b}')
    lf = BC.long_date_from_short_date(full)
    eq(lf[:5], M.long_of(y) + (m, d), 'long form')
    eq(BC.short_date_from_long_date(lf)[:3], (y, m, d), 'and back')
    eq(BC.midday(lf[:5], _short=False), BC.midday((y, m, d), _short=True), 'midday')
