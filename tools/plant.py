#!/usr/bin/env python3
"""Tries planted bugs and keeps those that qualify in /verif/seeded.

usage: plant.py SPEC.py [ID...]   where SPEC.py defines PLANTS, a list of
dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo).
The demo is the text of a Python program that exits 0 on the unchanged tree.
Each plant is applied in a scratch worktree, the repository's tests and the
demo are run there, and the check of its property is run against it.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '0749b7d'          # the last commit that is not of this work
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PIP_NO_INDEX='1',
           PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
           TEST_RUNNING='true')
DEMO_SH = '''#!/bin/sh
# usage: run in the repository; exit 0 if the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC LANG=C.UTF-8
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, env=ENV, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout)


def not_original(repo):
    """Removed lines that are not of the original repository."""
    bad, n, k, path = [], 0, 0, None
    for line in run(['git', 'diff', '-U0'], repo).stdout.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
            blame = run(['git', 'blame', '-s', '-l', 'HEAD', '--', path],
                        repo).stdout.splitlines()
        elif line.startswith('@@'):
            k = int(line.split()[1][1:].split(',')[0])
        elif line.startswith('-') and not line.startswith('---'):
            n += 1
            if blame[k - 1].split()[0].lstrip('^') not in ORIGINAL:
                bad.append(line)
            k += 1
    return bad or ([] if n else ['(nothing is removed)'])


ORIGINAL = set(subprocess.run(
    ['git', '-C', '/repo', 'log', '--format=%H', BASE], text=True,
    stdout=subprocess.PIPE).stdout.split())
ORIGINAL |= {h[:39] for h in ORIGINAL}


def one(p):
    pid = p['id']
    top = f'/tmp/plant-{pid}'
    shutil.rmtree(top, ignore_errors=True)
    os.mkdir(top)
    repo = top + '/repo'
    out = []
    try:
        run(['git', 'clone', '-q', '/repo', repo], '/')
        for f, old, new in p['edits']:
            path = f'{repo}/badidatetime/{f}'
            s = open(path, encoding='utf8').read()
            if s.count(old) != 1:
                return pid, False, f'{f}: {s.count(old)} matches of {old!r}'
            open(path, 'w', encoding='utf8').write(s.replace(old, new))
        bad = not_original(repo)
        if bad:
            return pid, False, 'not original: ' + ' | '.join(bad)
        diff = run(['git', 'diff'], repo).stdout
        dest = top + '/seed'
        os.mkdir(dest)
        open(dest + '/patch.diff', 'w', encoding='utf8').write(diff)
        open(dest + '/demo.py', 'w', encoding='utf8').write(
            p['demo'].strip() + '\n')
        open(dest + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(dest + '/demo.sh', 0o755)
        json.dump(dict(property=p['prop'], needs=p['needs'],
                       what_it_breaks=p['breaks']),
                  open(dest + '/meta.json', 'w', encoding='utf8'),
                  ensure_ascii=False, indent=1)
        d1 = run(['sh', dest + '/demo.sh'], repo)
        d0 = run(['sh', dest + '/demo.sh'], '/repo')
        if d0.returncode or not d1.returncode:
            return pid, False, (f'demo: clean {d0.returncode} '
                                f'{d0.stdout[-400:]} patched {d1.returncode}')
        out.append('demo ok: ' + (d1.stdout.strip().splitlines() or [''])[-1]
                   [:150])
        t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                 'no:cacheprovider', '--timeout=300',
                 '--continue-on-collection-errors', '-o',
                 'junit_family=xunit2', f'--junitxml={top}/junit.xml'], repo)
        run(['/usr/bin/python3', '/opt/vp/results.py', top + '/o.json',
             f'junit:{top}/junit.xml'], repo)
        got = json.load(open(top + '/o.json'))
        missing = sorted(STABLE - set(got['passed']))
        if missing:
            return pid, False, 'tests fail: ' + ' '.join(missing[:4])
        c = run([HERE + '/check', p['prop']], HERE,
                dict(ENV, VERIF_TARGET=repo, VERIF_SEED='1',
                     VERIF_TIER='quick', VERIF_PROCS='2',
                     VERIF_EVIDENCE=top + '/ev'))
        line = [x for x in c.stdout.splitlines() if x.startswith('VIOL')]
        out.append(f'check {p["prop"]}: rc {c.returncode} '
                   + (line[0][:200] if line else c.stdout[-300:]))
        final = f'{HERE}/seeded/{pid}'
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dest, final)
        return pid, c.returncode == 1, '\n   '.join(out)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1], encoding='utf8').read(), ns)
    ps = [p for p in ns['PLANTS'] if not sys.argv[2:] or p['id'] in
          sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("PAR") or 4)) as ex:
        for pid, ok, text in ex.map(one, ps):
            print('CAUGHT' if ok else 'MISSED' if 'check' in text else 'BAD',
                  pid, '\n  ', text, flush=True)


main()
