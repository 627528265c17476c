"""C31: a subclass of date, datetime or time does what its base does."""
import copy
import datetime as S
import pickle

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial
from target import date, datetime, time, timedelta, timezone

P = Prop('C31', rule=(
    'Drawn dates, datetimes and times of both forms, naive and aware, as '
    'objects of a plain subclass and of a subclass that adds methods, '
    'properties and a constructor, and an operation or two on them. Oracle: '
    'the same operation on the base class gives the same fields, and the '
    'result is of the subclass exactly where the standard library\'s is (a '
    'subclass of its class is put through the same operation). Non-trivial: '
    'every distinct case whose operation gives a result.'),
    assumptions=['today and now are compared by their types alone.'])


class D1(date):
    pass


class DT1(datetime):
    pass


class T1(time):
    pass


class SD(S.date):
    pass


class SDT(S.datetime):
    pass


class ST(S.time):
    pass


class More:
    @property
    def answer(self):
        return 42

    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls, *args, **kwargs)
        cls.made += 1
        return self


class D2(More, date):
    made = 0


class DT2(More, datetime):
    made = 0


class T2(More, time):
    made = 0


for _c in (D1, DT1, T1, D2, DT2, T2):        # pickle finds them by name
    globals()[_c.__name__] = _c
SUBS = {date: (D1, D2), datetime: (DT1, DT2), time: (T1, T2)}
STD = {date: (S.date, SD), datetime: (S.datetime, SDT), time: (S.time, ST)}


def zone(o):
    return None if o is None else timezone(timedelta(seconds=o))


def fields(x):
    if isinstance(x, datetime):
        return (tuple(x.b_date), tuple(x.b_time), x.fold, x.is_short,
                x.tzinfo)
    if isinstance(x, date):
        return tuple(x.b_date), x.is_short
    if isinstance(x, time):
        return (x.hour, x.minute, x.second, x.microsecond, x.fold, x.tzinfo)
    return x


# name: what to do with the class, an object, and the drawn numbers n, k.
# The package's modules or the standard library's are in m.
class Ours:
    td, date, time = timedelta, date, time
    utc, tz = timezone.utc, timezone(timedelta(hours=-5))
    year, text = 181, '0181-03-04'
    long = True


class Theirs:
    td, date, time = S.timedelta, S.date, S.time
    utc, tz = S.timezone.utc, S.timezone(S.timedelta(hours=-5))
    year, text = 2024, '2024-03-04'
    long = False


BOTH = {
    'fromordinal': lambda m, c, x, n, k: c.fromordinal(400000 + n),
    'fromtimestamp': lambda m, c, x, n, k: c.fromtimestamp(n * 10007.5),
    'fromisoformat': lambda m, c, x, n, k: c.fromisoformat(m.text),
    'fromisocalendar': lambda m, c, x, n, k: c.fromisocalendar(
        m.year, 1 + n % 50, 1 + k % 7),
    'add': lambda m, c, x, n, k: x + m.td(days=n % 100),
    'radd': lambda m, c, x, n, k: m.td(days=n % 100) + x,
    'subtract': lambda m, c, x, n, k: x - m.td(days=n % 100),
    'difference': lambda m, c, x, n, k: x - (x - m.td(days=k)),
    'replace': lambda m, c, x, n, k: x.replace(month=1 + n % 12,
                                               day=1 + k % 19),
    'replace nothing': lambda m, c, x, n, k: x.replace(),
    'then replace': lambda m, c, x, n, k: (x + m.td(days=n % 100)).replace(
        day=1 + k % 19),
    'add twice': lambda m, c, x, n, k: (x + m.td(days=n % 100))
    - m.td(days=k),
    'copy': lambda m, c, x, n, k: copy.copy(x),
    'deepcopy': lambda m, c, x, n, k: copy.deepcopy(x),
    'pickle': lambda m, c, x, n, k: pickle.loads(pickle.dumps(x, n % 6)),
    'class': lambda m, c, x, n, k: x,
}
CLOCK = {'today': lambda m, c, x, n, k: c.today()}
DATETIME = {
    'combine': lambda m, c, x, n, k: c.combine(m.date(m.year, 1, 1 + k % 19),
                                               m.time(n % 24, 5)),
    'combine self': lambda m, c, x, n, k: c.combine(x.date(), x.timetz()),
    'combine aware': lambda m, c, x, n, k: c.combine(x.date(), x.time(),
                                                     m.tz),
    'combine of datetime': lambda m, c, x, n, k: c.combine(x, x.time()),
    'strptime': lambda m, c, x, n, k: c.strptime(
        f'{m.text} {n % 24:02}:{k % 60:02}', '%Y-%m-%d %H:%M'),
    'iso time': lambda m, c, x, n, k: c.fromisoformat(
        f'{m.text}T{n % 24:02}:{k % 60:02}'),
    'iso aware': lambda m, c, x, n, k: c.fromisoformat(
        f'{m.text}T{n % 24:02}:{k % 60:02}+03:30'),
    'fromtimestamp utc': lambda m, c, x, n, k: c.fromtimestamp(n * 10007.5,
                                                               m.utc),
    'astimezone': lambda m, c, x, n, k: x.astimezone(m.tz),
    'astimezone, add': lambda m, c, x, n, k: x.astimezone(m.utc)
    + m.td(hours=n % 99),
    'local': lambda m, c, x, n, k: x.astimezone(),
    'its own zone': lambda m, c, x, n, k: x.astimezone(x.tzinfo or m.tz),
    'fromutc': lambda m, c, x, n, k: m.tz.fromutc(x.replace(tzinfo=m.tz)),
    'add seconds': lambda m, c, x, n, k: x + m.td(seconds=n * 7,
                                                  microseconds=k),
    'date': lambda m, c, x, n, k: x.date(),
    'time': lambda m, c, x, n, k: x.time(),
    'timetz': lambda m, c, x, n, k: x.timetz(),
    'replace hour': lambda m, c, x, n, k: x.replace(hour=n % 24, second=k),
    'replace zone': lambda m, c, x, n, k: x.replace(tzinfo=m.tz, fold=1),
}
NOW = {'now': lambda m, c, x, n, k: c.now(),
       'now in zone': lambda m, c, x, n, k: c.now(m.tz)}
TIME = {
    'fromisoformat': lambda m, c, x, n, k: c.fromisoformat(
        f'{n % 24:02}:{k % 60:02}'),
    'iso aware': lambda m, c, x, n, k: c.fromisoformat(
        f'{n % 24:02}:{k % 60:02}-01:00'),
    'replace': lambda m, c, x, n, k: x.replace(hour=n % 24, second=k),
    'replace zone': lambda m, c, x, n, k: x.replace(tzinfo=m.tz, fold=1),
    'replace nothing': lambda m, c, x, n, k: x.replace(),
    'copy': BOTH['copy'], 'deepcopy': BOTH['deepcopy'],
    'pickle': BOTH['pickle'], 'class': BOTH['class'],
}
SHORT = {
    'fromordinal': lambda c, n: c.fromordinal(400000 + n, short=False),
    'fromtimestamp': lambda c, n: c.fromtimestamp(n * 10007.5, short=False),
    'fromisoformat': lambda c, n: c.fromisoformat('0181-03-04', short=False),
    'fromisocalendar': lambda c, n: c.fromisocalendar(181, 1 + n % 50, 2,
                                                      short=False),
}


def plain(v):
    """What a method that does not make an object of the class gives."""
    return fields(v) if isinstance(v, (date, time)) else (
        repr(v) if not isinstance(v, (int, str, float, tuple)) else v)


def asks(x):
    """All that can be asked of the object."""
    out = {}
    for name in ('isoformat', 'ctime', 'toordinal', 'weekday', 'isoweekday',
                 'isocalendar', 'timetuple', 'utctimetuple', 'timestamp',
                 'utcoffset', 'dst', 'tzname', 'date', 'time', 'timetz',
                 '__str__', '__hash__', 'short_date_from_long_date',
                 'badioffset'):
        f = getattr(x, name, None)
        if f is None:
            continue
        try:
            out[name] = plain(f())
        except Exception as e:
            out[name] = type(e).__name__
    for name in ('%c', '%A %x %X %Z %z %f', '%G %V %u %j'):
        try:
            out[name] = x.strftime(name), format(x, name)
        except Exception as e:
            out[name] = type(e).__name__
    return out


def compare(base, sub, what, full=True):
    """The two are alike to everyone who asks."""
    eq(fields(sub), fields(base), f'{what}: fields')
    eq((sub == base, base == sub, sub != base, base != sub), (
        True, True, False, False), f'{what}: equal to the base')
    eq(hash(sub), hash(base), f'{what}: hash')
    if full:
        eq(asks(sub), asks(base), what)
    r = repr(sub)
    eq(r[r.index('('):], repr(base)[repr(base).index('('):], 'repr')
    if '.' + type(sub).__name__ + '(' not in '.' + r:
        fail(f'{what}: {r} does not name the class')


def make(cls, d, t, long, o, f):
    a = (M.long_of(d[0]) + d[1:] if long else d) if d else ()
    if issubclass(cls, datetime):
        return cls(*a, *(() if long else (None, None)), *t, zone(o), fold=f)
    if issubclass(cls, date):
        return cls(*a)
    return cls(*t, zone(o), fold=f)


OPS = {date: {**BOTH, **CLOCK}, datetime: {**BOTH, **DATETIME, **CLOCK,
                                           **NOW}, time: TIME}


def run(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return type(e).__name__


draw = st.tuples(G.dates(100, 250, safe=True), G.times(), st.booleans(),
                 st.one_of(st.none(), G.whole_offsets()),
                 st.integers(0, 1), st.booleans(),
                 st.integers(0, 90000), st.integers(0, 59))


def check(base, name, case):
    d, t, long, o, f, more, n, k = case
    sub, op = SUBS[base][more], OPS[base][name]
    x, y = make(base, d, t, long, o, f), make(sub, d, t, long, o, f)
    what = f'{name} of {y!r}, {n}, {k}'
    made = getattr(sub, 'made', 0)
    r, v = (run(op, Ours, c, z, n, k) for c, z in ((base, x), (sub, y)))
    if isinstance(r, str):
        eq(v, r, what)
        nontrivial(False)
        return
    # What the standard library gives for such a call.
    sbase, ssub = STD[base]
    sz = None if o is None else S.timezone(S.timedelta(seconds=o))
    sargs = {date: (2024, 5, 6), datetime: (2024, 5, 6) + t + (sz,),
             time: t + (sz,)}[base]
    q = run(op, Theirs, ssub, ssub(*sargs), n, k)
    want = {ssub: sub, S.date: date, S.time: time, S.datetime: datetime,
            S.timedelta: timedelta}.get(type(q))
    if want is None:              # a day 31 or so is not in that month
        want = sub if type(r) is base else type(r)
    eq(type(v), want, f'{what}: type')
    eq(type(r), base if want is sub else want, f'{what}: type from the base')
    if name in CLOCK or name in NOW:
        eq(v.is_short, True, what)
        return
    if want is sub:
        compare(r, v, what, name == 'class' or n % 5 == 0)
        if more:
            eq(v.answer, 42, what)
            # The constructor of the subclass is the way to it.
            eq(name in ('class', 'its own zone', 'date', 'time', 'timetz',
                        'copy', 'deepcopy', 'pickle') or sub.made > made,
               True, f'{what}: its constructor was called')
    else:
        eq(plain(v), plain(r), what)
    label(name)


@P.check(st.tuples(st.sampled_from(sorted(OPS[date])), draw), quick=800,
         thorough=60000)
def dates(case):
    """Dates."""
    check(date, *case)


@P.check(st.tuples(st.sampled_from(sorted(OPS[datetime])), draw), quick=1000,
         thorough=100000)
def datetimes(case):
    """Datetimes."""
    check(datetime, *case)


@P.check(st.tuples(st.sampled_from(sorted(OPS[time])), draw), quick=500,
         thorough=60000)
def times(case):
    """Times of day."""
    check(time, *case)


@P.check(st.tuples(st.sampled_from(sorted(SHORT)), st.booleans(),
                   st.booleans(), st.integers(0, 90000)), quick=300,
         thorough=10000)
def long_forms(case):
    """The constructors of the long form."""
    name, dt, more, n = case
    base = datetime if dt else date
    sub = SUBS[base][more]
    r, v = run(SHORT[name], base, n), run(SHORT[name], sub, n)
    if isinstance(r, str):
        eq(v, r, f'{name} {n}')
        nontrivial(False)
        return
    eq((type(v), type(r), v.is_short), (sub, base, False), f'{name} {n}')
    compare(r, v, f'{name} {n}')


@P.check(st.tuples(draw, draw, st.booleans(), st.booleans(),
                   st.sampled_from((date, datetime, time))), quick=500,
         thorough=60000)
def between(case):
    """Comparison and difference of a subclass and its base."""
    p, q, m1, m2, base = case
    if q[7] % 3 == 0:
        q = p[:3] + q[3:4] + p[4:]
    a, b = make(base, *p[:5]), make(base, *q[:5])
    x, y = make(SUBS[base][m1], *p[:5]), make(SUBS[base][m2], *q[:5])

    def rel(u, v):
        return [run(f, u, v) for f in (
            lambda u, v: u == v, lambda u, v: u != v, lambda u, v: u < v,
            lambda u, v: u <= v, lambda u, v: u > v, lambda u, v: u >= v,
            lambda u, v: u - v, lambda u, v: hash(u) == hash(v),
            lambda u, v: {u: 1}.get(v))]
    want, back = rel(a, b), rel(b, a)
    for u, v in ((x, b), (a, y), (x, y)):
        eq(rel(u, v), want, f'{u!r} and {v!r}')
        eq(rel(v, u), back, f'{v!r} and {u!r}')
    label('equal' if want[0] is True else 'different')
