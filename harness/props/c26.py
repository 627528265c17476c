"""C26: replace, combine and the parts change only what they are told to."""
import datetime as S

from hypothesis import strategies as st

import gens as G
import model as M
from core import Prop, eq, fail, label, nontrivial, raises
from target import B, TZWithCoords, date, datetime, time, timedelta, timezone

REJECT = (AssertionError, ValueError)
P = Prop('C26', rule=(
    'Drawn dates and datetimes of both forms, naive and aware, and drawn '
    'sets of new field values, valid or one off. Oracle: the list of fields '
    'with the named ones replaced, and the validity model. Non-trivial: at '
    'least one field is replaced, or the parts are of an aware, folded or '
    'long form datetime.'),
    assumptions=['The constructors accept one year beyond each end of the '
                 'range; nothing is claimed there.'])
DF = ('kull_i_shay', 'vahid', 'year', 'month', 'day')
TF = ('hour', 'minute', 'second', 'microsecond')


class SubDate(date):
    pass


class SubDateTime(datetime):
    pass


def zone(o):
    return None if o is None else timezone(timedelta(seconds=o))


def dargs(d, long):
    return M.long_of(d[0]) + d[1:] if long else d


def pad(a):
    return a if len(a) == 5 else a + (None, None)


def dget(x):
    return tuple(getattr(x, k) for k in (DF if not x.is_short else DF[2:]))


def tget(x):
    return tuple(getattr(x, k) for k in TF)


def exists(a):
    """True or False, or None where nothing is claimed."""
    if len(a) == 5:
        k, v, y, m, d = a
        if not (1 <= v <= 19 and 1 <= y <= 19):
            return False
        s = M.short_of(k, v, y)
        if k in (-6, 5) or not M.MINYEAR <= s <= M.MAXYEAR and -5 <= k <= 4:
            return None
        if not -5 <= k <= 4:
            return False
        return M.valid(s, m, d)
    y, m, d = a
    if not M.MINYEAR - 1 <= y <= M.MAXYEAR + 1:
        return False
    return M.valid(y, m, d) if M.MINYEAR <= y <= M.MAXYEAR else None


month = st.one_of(st.integers(0, 19), st.sampled_from((0, -1, 20)))
day = st.one_of(st.integers(1, 19), st.sampled_from((0, 4, 5, 20, -1)))
new_short = st.fixed_dictionaries({}, optional=dict(
    year=st.one_of(G.years(), st.sampled_from((M.MAXYEAR + 2, 0))),
    month=month, day=day))
new_long = st.fixed_dictionaries({}, optional=dict(
    kull_i_shay=st.integers(-7, 6), vahid=st.integers(0, 20),
    year=st.one_of(st.integers(1, 19), st.sampled_from((0, 20, -1))),
    month=month, day=day))
new_time = st.fixed_dictionaries({}, optional=dict(
    hour=st.integers(0, 23), minute=G.sixty(), second=G.sixty(),
    microsecond=G.micros(), fold=st.integers(0, 1),
    tzinfo=st.one_of(st.none(), G.offsets(False))))
bad_time = st.sampled_from((('hour', 25), ('hour', -1), ('minute', 60),
                            ('second', 61), ('microsecond', 10 ** 6),
                            ('minute', -1), ('fold', 2)))


def wanted(d, long, new):
    names = DF if long else DF[2:]
    return tuple(new.get(k, v) for k, v in zip(names, dargs(d, long)))


@P.check(st.booleans().flatmap(lambda long: st.tuples(
    G.dates(), st.just(long), new_long if long else new_short,
    st.booleans())), quick=6000, thorough=400000)
def dates(case):
    d, long, new, sub = case
    cls = SubDate if sub else date
    x = cls(*dargs(d, long))
    want = wanted(d, long, new)
    ok = exists(want)
    nontrivial(ok is not None and bool(new))
    if ok is None:
        return
    if not ok:
        raises(REJECT, lambda: x.replace(**new), f'{x!r}.replace({new})')
        label('refused')
    else:
        y = x.replace(**new)
        eq((type(y), y.is_short, dget(y), tuple(y.b_date)),
           (cls, not long, want, want), f'{x!r}.replace({new})')
        eq((y == cls(*want), hash(y) == hash(cls(*want))), (True, True),
           'equal to the one built')
        z = x.replace(*(new.get(k) for k in DF))
        eq(dget(z), want, 'by position')
    eq(dget(x), dargs(d, long), 'the old one')


@P.check(st.tuples(G.dates(), st.sampled_from(('kull_i_shay', 'vahid')),
                   st.integers(-6, 20), G.times()), quick=400, thorough=5000)
def long_fields_of_short(case):
    """A short form object has no Kull-i-Shay or Vahid to replace."""
    d, k, v, t = case
    raises(ValueError, lambda: date(*d).replace(**{k: v}), f'{case}')
    raises(ValueError, lambda: datetime(*d, None, None, *t).replace(
        **{k: v}), f'{case}')


@P.check(st.booleans().flatmap(lambda long: st.tuples(
    G.dates(), G.times(), st.just(long), st.one_of(st.none(), G.offsets(
        False)), st.integers(0, 1), new_long if long else new_short, new_time,
    st.booleans())), quick=8000, thorough=500000)
def datetimes(case):
    d, t, long, o, fold, new, newt, sub = case
    cls = SubDateTime if sub else datetime
    z = zone(o)
    x = cls(*pad(dargs(d, long)), *t, z, fold=fold)
    a = dict(new, **newt)
    if 'tzinfo' in a:
        a['tzinfo'] = zone(a['tzinfo'])
    want = wanted(d, long, new)
    ok = exists(want)
    nontrivial(ok is not None and bool(a))
    if ok is None:
        return
    if not ok:
        raises(REJECT, lambda: x.replace(**a), f'{x!r}.replace({a})')
        label('refused')
    else:
        y = x.replace(**a)
        wt = tuple(newt.get(k, v) for k, v in zip(TF, t))
        eq((type(y), y.is_short, dget(y), tget(y), tuple(y.b_date),
            tuple(y.b_time)), (cls, not long, want, wt, want, wt),
           f'{x!r}.replace({a})')
        eq((y.tzinfo is a.get('tzinfo', z), y.fold),
           (True, newt.get('fold', fold)), 'tzinfo and fold')
        eq(y == cls(*pad(want), *wt, y.tzinfo), True, 'the one built')
        p = x.replace(*(a.get(k) for k in DF + TF))
        eq((dget(p), tget(p), p.tzinfo is z, p.fold),
           (want, wt, True, fold), 'by position')
    eq((dget(x), tget(x), x.tzinfo is z, x.fold),
       (dargs(d, long), t, True, fold), 'the old one')


class SubTime(time):
    pass


@P.check(st.tuples(G.times(), st.one_of(st.none(), G.offsets(False)),
                   st.integers(0, 1), new_time, st.booleans(),
                   st.one_of(st.none(), bad_time)), quick=4000,
         thorough=200000)
def times(case):
    t, o, fold, new, sub, bad = case
    cls = SubTime if sub else time
    z = zone(o)
    x = cls(*t, z, fold=fold)
    a = dict(new)
    if 'tzinfo' in a:
        a['tzinfo'] = zone(a['tzinfo'])
    y = x.replace(**a)
    eq((type(y), tget(y), y.tzinfo is a.get('tzinfo', z), y.fold),
       (cls, tuple(new.get(k, v) for k, v in zip(TF, t)), True,
        new.get('fold', fold)), f'{x!s}.replace({a})')
    y = x.replace(*(a.get(k) for k in TF))
    eq((tget(y), y.tzinfo is z, y.fold),
       (tuple(new.get(k, v) for k, v in zip(TF, t)), True, fold),
       'by position')
    if bad:
        a[bad[0]] = bad[1]
        raises(REJECT, lambda: x.replace(**a), f'{x!s}.replace({a})')
    eq((tget(x), x.tzinfo is z, x.fold), (t, True, fold), 'the old one')
    nontrivial(bool(new))


@P.check(st.tuples(G.dates(), G.times(), st.booleans(), bad_time), quick=600,
         thorough=10000)
def bad_times(case):
    d, t, long, (k, v) = case
    x = datetime(*pad(dargs(d, long)), *t)
    raises(REJECT, lambda: x.replace(**{k: v}), f'{x!r}.replace({k}={v})')


@P.check(st.tuples(G.dates(), G.times(), st.booleans(),
                   st.one_of(st.none(), G.offsets(False)),
                   st.integers(0, 1), st.booleans(),
                   st.one_of(st.none(), G.offsets()), st.booleans()),
         quick=5000, thorough=300000)
def parts(case):
    """date, time and timetz are the parts, and combine joins them."""
    d, t, long, o, fold, sub, p, given = case
    cls = SubDateTime if sub else datetime
    z, a = zone(o), dargs(d, long)
    x = cls(*pad(a), *t, z, fold=fold)
    nontrivial(long or fold or o is not None or d[1] == 0)
    dd, tt, tz = x.date(), x.time(), x.timetz()
    eq((type(dd), dd.is_short, dget(dd), tuple(dd.b_date)),
       (date, not long, a, a), f'date of {x!r}')
    eq((type(tt), tget(tt), tt.tzinfo, tt.fold), (time, t, None, fold),
       f'time of {x!r}')
    eq((type(tz), tget(tz), tz.tzinfo is z, tz.fold), (time, t, True, fold),
       f'timetz of {x!r}')
    eq(dd == date(*a), True, 'date')
    y = cls.combine(dd, tz)
    eq((type(y), y.is_short, dget(y), tget(y), y.tzinfo is z, y.fold,
        y == x, hash(y) == hash(x)),
       (cls, not long, a, t, True, fold, True, True), f'{dd!r} and {tz!r}')
    y = cls.combine(x, tt)
    eq((type(y), dget(y), tget(y), y.tzinfo, y.fold),
       (cls, a, t, None, fold), f'{x!r} and {tt!r}')
    if given:
        w = zone(p)
        y = cls.combine(dd, tz, w)
        eq((tget(y), dget(y), y.tzinfo is w, y.fold), (t, a, True, fold),
           f'{dd!r}, {tz!r} and {w!r}')
        y = cls.combine(dd, tz, tzinfo=w)
        eq(y.tzinfo is w, True, 'tzinfo by keyword')
    eq((x.year, x.month, x.day, x.fold), (a[-3], a[-2], a[-1], fold),
       'unchanged')


@P.sweep(lambda tier, seed: [
    'D, D', 'T, T', 'T, D', '1, T', 'D, 1', 'None, T', 'D, None', 'D',
    "D, T, 'UTC'", 'D, T, 5', "'0181-01-01', T", '(181, 1, 1), T'])
def bad_combine(src):
    raises((TypeError, AssertionError), lambda: eval(
        f'datetime.combine({src})', dict(datetime=datetime, D=date(
            181, 1, 1), T=time(1))), src)


@P.check(st.tuples(G.dates(), st.booleans(), st.sampled_from(
    DF + TF + ('tzinfo', 'fold', 'b_date', 'b_time', 'is_short'))),
    quick=300, thorough=3000)
def immutable(case):
    d, long, k = case
    x = datetime(*pad(dargs(d, long)), 1, 2, 3, 4)
    raises((AttributeError, TypeError), lambda: setattr(x, k, 1), k)
    if k in DF:
        y = date(*dargs(d, long))
        raises((AttributeError, TypeError), lambda: setattr(y, k, 1), k)
        eq(dget(y), dargs(d, long), 'unchanged')
    eq(dget(x), dargs(d, long), 'unchanged')


@P.check(st.tuples(G.dates(), G.times(), st.booleans(),
                   st.one_of(st.none(), G.offsets())), quick=600,
         thorough=20000)
def one_field(case):
    """Replacing a field by itself, or there and back, changes nothing."""
    d, t, long, o = case
    x = datetime(*pad(dargs(d, long)), *t, zone(o))
    y = x.replace()
    eq((dget(y), tget(y), y.tzinfo is x.tzinfo, y == x),
       (dget(x), tget(x), True, True), 'replace()')
    e = date(*dargs(d, long))
    eq((e.replace() == e, dget(e.replace())), (True, dget(e)), 'replace()')
    k = {n: getattr(x, n) for n in (DF if long else DF[2:]) + TF + ('tzinfo',
                                                                    'fold')}
    y = x.replace(**k)
    eq((dget(y), tget(y), y == x), (dget(x), tget(x), True), 'all fields')
