#!/usr/bin/env python3
"""seedfrom.py BATCH NOTE ID PROPERTY PKG 'needs' 'what': a planted bug from a block of a mutation batch; says whether it changes lines of the original repository."""
import sys, os, subprocess, re
b, note, i, prop, pkg, needs, what = sys.argv[1:8]
for x in open(b).read().split('\n## '):
    x = x.removeprefix('## ').rstrip('\n')
    head, body = x.split('\n', 1)
    h = head.split()
    if h[2] != note: continue
    f = h[1]; edits = []
    for k, e in enumerate(re.split(r'^\+\+ ', body, flags=re.M)):
        if k: f, e = e.split('\n', 1)
        o, n = e.rstrip('\n').split('\n=====\n') if '\n=====\n' in e else (e.rstrip('\n').removesuffix('\n====='), '')
        edits.append((f, o, n))
    inp = needs + '\n=====\n' + what + '\n=====\n' + '\n=====\n'.join('\n=====\n'.join(p) if j else p[1] + '\n=====\n' + p[2] for j, p in enumerate(edits))
    r = subprocess.run(['python3', '/verif/tools/seed.py', 'new', i, prop, pkg, edits[0][0]], input=inp + '\n', text=True)
    own = set(subprocess.check_output(['git', '-C', '/repo', 'rev-list', 'e5e8c01..HEAD'], text=True).split())
    f = None; bad = 0
    for l in open(f'/verif/seeded/{i}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m[1]); continue
        if f and ln if 'ln' in dir() else False:
            if l.startswith('-') and not l.startswith('---'):
                c = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', f'-L{ln},{ln}', '--', f], text=True).split()[0].lstrip('^')
                if any(o.startswith(c) for o in own): bad += 1; print('own line:', l.rstrip())
            if not l.startswith('+'): ln += 1
    print(i, 'created', 'OWN LINES' if bad else '')
    break
else: sys.exit('no such block')
