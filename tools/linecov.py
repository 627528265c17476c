#!/usr/bin/env python3
"""Which lines of the package the checks execute: linecov.py [C01 ...].

Runs the given (default: all) quick checks with sys.monitoring and prints the
lines of each module that nothing executed and the checks that are alone in
executing some line.  A development aid: no check uses it.
"""
import dis
import importlib
import os
import pickle
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
os.environ['VERIF_EVIDENCE'] = tempfile.mkdtemp()
import core                                                  # noqa: E402
import target                                                # noqa: E402

PKG = os.path.join(target.REPO, 'badidatetime') + os.sep
OUT = tempfile.mkdtemp()
HIT = set()
mon = sys.monitoring


def on_line(code, line):
    if code.co_filename.startswith(PKG):
        HIT.add((code.co_filename[len(PKG):], line))
    return mon.DISABLE


mon.use_tool_id(mon.COVERAGE_ID, 'linecov')
mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)


def shard(i):
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    r = core._shard(core._TASKS[i])
    with open(os.path.join(OUT, f'{os.getpid()}-{i}'), 'wb') as f:
        pickle.dump(HIT, f)
    return r


core._shard_i = shard


def lines(path):
    todo = [compile(open(path, encoding='utf8').read(), path, 'exec')]
    got = set()
    while todo:
        c = todo.pop()
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
        if c.co_flags & 1:                   # not a module or class body
            got |= {ln for _, ln in dis.findlinestarts(c)
                    if ln and ln != c.co_firstlineno}
    return got


props = sys.argv[1:] or [f'C{i:02}' for i in range(1, 100) if os.path.exists(
    os.path.join(HERE, 'harness', 'props', f'c{i:02}.py'))]
allhit = set()
for p in props:
    core.run_prop(importlib.import_module('props.' + p.lower()).P, 'quick', 1)
    for n in os.listdir(OUT):
        with open(os.path.join(OUT, n), 'rb') as f:
            allhit |= pickle.load(f)
        os.unlink(os.path.join(OUT, n))
for n in sorted(os.listdir(PKG)):
    if n.endswith('.py'):
        src = open(PKG + n, encoding='utf8').read().split('\n')
        miss = sorted(ln for ln in lines(PKG + n) if (n, ln) not in allhit)
        print(f'== {n}: {len(miss)} lines not executed')
        for ln in miss:
            print(f'{ln:5} {src[ln - 1]}')
