#!/usr/bin/env python3
"""Runs the check of its property (-a: all checks) against each planted bug of /verif/seeded, on a scratch copy of /repo. Not used by any check.
usage: seeded.py [-a] [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
allp = '-a' in a
a = [x for x in a if x != '-a']
for s in a or sorted(os.listdir(V + '/seeded')):
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', os.environ.get('MUT_SRC', '/repo'), r], check=True)
    subprocess.run(['git', 'apply', V + '/seeded/%s/patch.diff' % s], cwd=r, check=True)
    own = json.load(open(V + '/seeded/%s/meta.json' % s))['property']
    res = []
    for p in (['C%02d' % i for i in range(1, 24)] if allp else [own]):
        env = dict(os.environ, MC_REPO=r, MC_BUILD='/tmp/seedbuild', MC_OUT=d + '/out')
        q = subprocess.run([V + '/check', p, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = [x for x in q.stdout.split('\n') if x.startswith(p + ': ')]
        if q.returncode or p == own:
            res.append('%s:%s' % (p, {0: 'MISSED', 1: 'caught'}.get(q.returncode, 'rc%d' % q.returncode)) + (' [%s]' % l[0][5:95] if l and not allp else ''))
    print('%-26s %s' % (s, '  '.join(res)), flush=True)
    shutil.rmtree(d)
