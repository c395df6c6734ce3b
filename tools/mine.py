#!/usr/bin/env python3
"""Lists planted patches that only alter or adjoin lines of /repo's own later commits (they would not count)."""
import subprocess, re, glob
base = '274025a'
mine = set(subprocess.run(['git', '-C', '/repo', 'rev-list', base + '..HEAD'], capture_output=True, text=True).stdout.split())
cache = {}
def blame(f):
    if f not in cache:
        out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', f], capture_output=True, text=True).stdout.split('\n')
        cache[f] = [l.split(' ')[0].lstrip('^') for l in out]
    return cache[f]
def is_mine(f, ln):
    b = blame(f)
    return 1 <= ln <= len(b) and any(x.startswith(b[ln - 1]) for x in mine if b[ln - 1])
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None; removed = []; inserts = []; ln = 0; prev = ''
    for l in open(d):
        l = l.rstrip('\n')
        if l.startswith('--- a/'): f = l[6:]; continue
        if l.startswith(('+++', 'diff', 'index')): continue
        g = re.match(r'@@ -(\d+)', l)
        if g: ln = int(g.group(1)); prev = ''; continue
        if l.startswith('-'): removed.append((f, ln)); ln += 1
        elif l.startswith('+'):
            if prev not in '+-' or prev == '': inserts.append((f, ln))
        else: ln += 1
        prev = l[:1] or ' '
    r = [is_mine(*x) for x in removed]
    i = [(is_mine(a, n - 1), is_mine(a, n)) for a, n in inserts]
    if all(r) and all(a or b for a, b in i):
        print(d.split('/')[3], 'removed', r, 'inserts', i)
