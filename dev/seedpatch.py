#!/usr/bin/env python3
"""Developer tool. seedpatch.py <id> < JSON [[file, old, new], ...]: writes seeded/<id>/patch.diff from exact edits."""
import subprocess, os, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(i, edits, prefix='programs/mango-v4/src/'):
    R = '/tmp/seedrepo/'
    if os.path.exists(R): shutil.rmtree(R)
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    for f, a, b in edits:
        p = R + (f if f.startswith(('lib/', 'programs/')) else prefix + f)
        s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    d = subprocess.check_output(['git', 'diff'], cwd=R, text=True)
    os.makedirs(f'{V}/seeded/{i}', exist_ok=True)
    open(f'{V}/seeded/{i}/patch.diff', 'w').write(d)
    shutil.rmtree(R)
