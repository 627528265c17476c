#!/usr/bin/env python3
"""Says which planted bugs remove lines that are not of the original."""
import os
import re
import subprocess
BASE = '0749b7d'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*a):
    return subprocess.run(['git', '-C', '/repo', *a], text=True,
                          stdout=subprocess.PIPE).stdout


orig = set(git('log', '--format=%H', BASE).split())
orig |= {h[:39] for h in orig}
blames = {}
for d in sorted(os.listdir(HERE + '/seeded')):
    n, bad, path, k = 0, [], None, 0
    for line in open(f'{HERE}/seeded/{d}/patch.diff', encoding='utf8'):
        line = line.rstrip('\n')
        if line.startswith('--- a/'):
            path = line[6:]
            if path not in blames:
                blames[path] = git('blame', '-s', '-l', 'HEAD', '--',
                                   path).splitlines()
        elif line.startswith('@@'):
            k = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            n += 1
            b = blames[path][k - 1]
            if b.split()[0].lstrip('^') not in orig:
                bad.append(line)
            k += 1
        elif line.startswith(' '):
            k += 1
    if bad or not n:
        print(d, bad or 'removes nothing')
