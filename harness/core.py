"""Runner for the generated-input checks.

A property module declares checks on a `Prop` object:

    P = Prop('C01', rule='...')

    @P.check(strategy, quick=300, thorough=20000)
    def name(case): ...                    # Hypothesis draws `case`

    @P.sweep(lambda tier: iterable)        # enumerated generator
    def name2(case): ...

A case is always built from Python literals, so that `repr` of it is the
replay file.  A check reports a violation by `fail(...)`/`eq(...)`; an
exception from the code under test on an input of the property's domain is a
violation too.  Every random choice is Hypothesis's, seeded from VERIF_SEED,
the check's name and the shard number.
"""
import ast
import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
NPROC = int(os.environ.get('VERIF_PROCS') or os.cpu_count() or 4)
CASE_LIMIT = 120           # seconds for one case; typical cases take ms
SHRINK_LIMIT = float(os.environ.get('VERIF_SHRINK') or 25)  # s per shard
GRACE = float(os.environ.get('VERIF_GRACE') or 45)  # s for other shards
SCALE = float(os.environ.get('VERIF_SCALE') or 2)   # of the quick counts
DEADLINE = 780             # seconds the whole quick run may take


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is broken."""


class Stuck(BaseException):
    """One case ran for CASE_LIMIT seconds."""


class Enough(BaseException):
    """A failure has been shrunk for SHRINK_LIMIT seconds."""


def fail(msg):
    raise Violation(msg)


def eq(got, want, what=''):
    if not (got == want):
        raise Violation(f'{what}: got {got!r}, want {want!r}')


def near(got, want, tol, what=''):
    if not (abs(got - want) <= tol):
        raise Violation(f'{what}: got {got!r}, want {want!r} +- {tol}')


def raises(excs, fn, what=''):
    """fn() must raise one of excs; anything else is a violation."""
    try:
        r = fn()
    except excs as e:
        return e
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__}: {e}, want one of '
                        f'{excs}') from None
    raise Violation(f'{what}: returned {r!r}, want {excs}')


def forked(fn):
    """fn() in a child process that starts from this one's state."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(wr, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    out = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        out += b
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    if status:
        fail(f'the process ended with {status}')
    return pickle.loads(out)


class _State:
    """Counters of the running shard."""
    def __init__(self):
        self.labels = Counter()
        self.nontrivial = None
        self.kf = Counter()


ST = _State()
LISTED = set()             # ids of the findings listed for this property


def label(name):
    ST.labels[name] += 1


def nontrivial(flag=True):
    """Override the check's default (every case counts) for this case."""
    ST.nontrivial = bool(flag)


def known(kf_id, example=None):
    """Called by a check when a case shows exactly a recorded finding."""
    if kf_id not in LISTED:
        raise Violation(f'{kf_id}: not in known_findings.json')
    ST.kf[kf_id] += 1


class Check:
    def __init__(self, prop, fn, kind, source, quick, thorough, shards):
        self.prop, self.fn, self.kind, self.source = prop, fn, kind, source
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.name = fn.__name__


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.checks = []

    def check(self, strategy, quick=300, thorough=None, shards=None):
        def deco(fn):
            self.checks.append(Check(self, fn, 'given', strategy, quick,
                                     thorough or quick * 20, shards))
            return fn
        return deco

    def sweep(self, source, shards=None):
        """source(tier, seed) -> list of literal cases, simplest first."""
        def deco(fn):
            self.checks.append(Check(self, fn, 'sweep', source, 0, 0, shards))
            return fn
        return deco


def _subseed(seed, name, shard):
    h = hashlib.sha256(f'{seed}/{name}/{shard}'.encode()).digest()
    return int.from_bytes(h[:6], 'big')


def _alarm(signum, frame):
    raise Stuck()


def _where(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if 'hypothesis' not in f.filename:
            out.append(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}')
    return ' > '.join(out[-4:])


def run_case(chk, case):
    """Run one case; turns an unexpected exception into a Violation."""
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        chk.fn(case)
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except Stuck:
        raise Violation(f'no answer within {CASE_LIMIT} s') from None
    except (NameError, ImportError, SyntaxError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and '/badidatetime/' in tb[-1].filename:
            raise Violation(f'{type(e).__name__}: {e} at '
                            f'{_where(e.__traceback__)}') from None
        raise HarnessError(traceback.format_exc()) from None
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        raise Violation(f'unexpected {type(e).__name__}: {e} at '
                        f'{_where(e.__traceback__)}') from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _shard(task):
    chk, shard, nshards, tier, seed, budget = task
    global ST
    signal.signal(signal.SIGALRM, _alarm)
    st = ST
    st.__init__()
    res = dict(check=chk.name, evals=0, nontriv=set(), samples=[],
               violation=None, error=None, timeout=False)
    t0 = time.monotonic()

    def note(case):
        st.nontrivial = True

    def counted(case):
        res['evals'] += 1
        if st.nontrivial:
            r = repr(case)
            h = hash_of(r)
            if h not in res['nontriv']:
                res['nontriv'].add(h)
                n = len(res['nontriv'])
                if len(res['samples']) < 3 and n in (1, 10, 100):
                    res['samples'].append(r[:600])

    last = {}
    try:
        if chk.kind == 'sweep':
            cases = chk.source(tier, _subseed(seed, chk.name, 'src'))
            for i, case in enumerate(cases):
                if i % nshards != shard:
                    continue
                if time.monotonic() - t0 > budget:
                    res['timeout'] = True
                    break
                note(case)
                last['case'] = case
                run_case(chk, case)
                counted(case)
        else:
            import hypothesis
            from hypothesis import given, settings, Phase, HealthCheck
            n = round(chk.quick * SCALE) if tier == 'quick' else chk.thorough
            n = max(1, -(-n // nshards))
            strat = chk.source() if callable(chk.source) else chk.source
            stop = {}

            def body(case):
                if last.get('failed') and \
                        time.monotonic() - last['at'] > SHRINK_LIMIT:
                    raise Enough()
                if stop.get('t') or time.monotonic() - t0 > budget:
                    if not last.get('failed'):
                        stop['t'] = True
                        res['timeout'] = True
                        return
                note(case)
                try:
                    run_case(chk, case)
                except Violation as v:
                    r = repr(case)
                    if not last.get('failed'):
                        last.update(failed=True, at=time.monotonic())
                    if 'best' not in last or len(r) <= len(last['best'][0]):
                        last['best'] = r, str(v)
                    raise
                if not last.get('failed'):
                    counted(case)

            t = given(strat)(body)
            t = settings(max_examples=n, database=None, deadline=None,
                         derandomize=False, report_multiple_bugs=False,
                         print_blob=False,
                         phases=(Phase.generate, Phase.target, Phase.shrink),
                         suppress_health_check=list(HealthCheck))(t)
            t = hypothesis.seed(_subseed(seed, chk.name, shard))(t)
            t()
    except Violation as v:
        res['violation'] = last.get('best') or (repr(last.get('case')), str(v))
    except Enough:
        res['violation'] = last['best']
    except HarnessError as e:
        res['error'] = str(e)
    except BaseException as e:          # hypothesis Flaky etc.
        if last.get('failed'):
            r, msg = last['best']
            res['violation'] = (r, msg + '  [result depended on earlier calls: '
                                + type(e).__name__ + ']')
        else:
            res['error'] = traceback.format_exc()
    res['labels'] = dict(st.labels)
    res['kf'] = dict(st.kf)
    res['wall'] = time.monotonic() - t0
    return res


def hash_of(r):
    return int.from_bytes(hashlib.blake2b(r.encode('utf8', 'surrogatepass'),
                                          digest_size=8).digest(), 'big')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf8') as f:
        return json.load(f)['known']


def list_known(prop):
    LISTED.clear()
    LISTED.update(k['id'] for k in load_known()
                  if k['property'] == prop.pid)


def run_prop(prop, tier, seed, only=None):
    list_known(prop)
    t0 = time.monotonic()
    budget = float(os.environ.get('VERIF_BUDGET') or
                   (240 if tier == 'quick' else 5400))
    tasks = []
    for c in prop.checks:
        if only and c.name not in only:
            continue
        n = c.shards or NPROC
        tasks += [(c, k, n, tier, seed, budget) for k in range(n)]
    # Slow shards first would be ideal; declaration order is good enough.
    global _TASKS
    _TASKS = tasks
    agg, errors, viols, labels, kf = {}, [], {}, {}, Counter()
    evals = 0
    distinct = 0
    cut = False
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(NPROC, maxtasksperchild=1) as pool:
        results = pool.imap_unordered(_shard_i, range(len(tasks)))
        end = t0 + DEADLINE if tier == 'quick' else float('inf')
        while True:
            try:
                left = end - time.monotonic()
                r = results.next(None if left == float('inf') else
                                 max(left, 0.1))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                pool.terminate()
                cut = True
                break
            a = agg.setdefault(r['check'], dict(evals=0, nt=set(), samples=[],
                                                timeout=False, wall=0.0))
            a['evals'] += r['evals']
            a['nt'] |= r['nontriv']
            a['samples'] += r['samples']
            a['timeout'] |= r['timeout']
            a['wall'] += r['wall']
            lb = labels.setdefault(r['check'], Counter())
            lb.update(r['labels'])
            kf.update(r['kf'])
            if r['error']:
                errors.append((r['check'], r['error']))
            if r['violation']:
                end = min(end, time.monotonic() + GRACE)
                v = viols.get(r['check'])
                if v is None or len(r['violation'][0]) < len(v[0]):
                    viols[r['check']] = r['violation']
    samples = []
    per = {}
    for name, a in sorted(agg.items()):
        evals += a['evals']
        distinct += len(a['nt'])
        per[name] = dict(evaluations=a['evals'],
                         distinct_nontrivial=len(a['nt']),
                         cpu_s=round(a['wall'], 1),
                         labels=dict(labels[name].most_common(40)))
        if a['timeout']:
            per[name]['inconclusive'] = 'time budget reached'
        for s in a['samples'][:2]:
            samples.append({'check': name, 'case': s})
    ev = dict(property=prop.pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                            rule=prop.rule, samples=samples, checks=per,
                            known_finding_hits=dict(kf)),
              assumptions=prop.assumptions,
              wall_s=round(time.monotonic() - t0, 2), violations=len(viols))
    if cut:
        ev['coverage']['inconclusive'] = 'stopped before every shard was done'
    if not only:
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, prop.pid + '.json')
        with open(p, 'w', encoding='utf8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    out = []
    for k in load_known():
        if k['property'] == prop.pid and kf.get(k['id']):
            print(f"KNOWN-FINDING: property={prop.pid} {k['id']}: "
                  f"{k['what']} (seen {kf[k['id']]}x)")
    for name, (case, msg) in sorted(viols.items()):
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f'{prop.pid}-{name}.json')
        with open(rp, 'w', encoding='utf8') as f:
            json.dump(dict(property=prop.pid, check=name, case=case, msg=msg,
                           tier=tier, seed=seed), f, indent=1,
                      ensure_ascii=False)
        out.append(rp)
        print(f'VIOLATION property={prop.pid} replay={rp}')
        print(f'  check {name}: {case[:800]}\n  {msg[:1500]}')
    for name, e in errors:
        print(f'HARNESS ERROR in {prop.pid}.{name}:\n{e}', file=sys.stderr)
    print(f'{prop.pid}: {evals} cases, {distinct} distinct non-trivial, '
          f'{len(viols)} violations, {len(errors)} errors, '
          f'{time.monotonic() - t0:.1f} s')
    if os.environ.get('VERIF_VERBOSE'):
        for n, d in per.items():
            print('  ', n, {k: v for k, v in d.items()})
    if viols:
        return 1
    return 2 if errors else 0


def _shard_i(i):
    return _shard(_TASKS[i])


def replay(prop, path):
    list_known(prop)
    with open(path, encoding='utf8') as f:
        d = json.load(f)
    chk = [c for c in prop.checks if c.name == d['check']][0]
    case = ast.literal_eval(d['case'])
    signal.signal(signal.SIGALRM, _alarm)
    try:
        run_case(chk, case)
    except Violation as v:
        print(f'VIOLATION property={prop.pid} replay={path}\n  {v}')
        return 1
    print('held on', d['case'][:300])
    return 0
