#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW [PROP2 ...]: run a check against a scratch copy of /repo/src with one replacement."""
import sys, os, shutil, subprocess, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut-')
shutil.copytree('/repo/src', d + '/src'); shutil.copytree('/repo/bin', d + '/bin')
p = os.path.join(d, f); s = open(p).read()
if old not in s: print('NOT FOUND', repr(old)); sys.exit(9)
open(p, 'w').write(s.replace(old, new, 1))
for q in [prop] + sys.argv[5:]:
    r = subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'check'), q], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True)
    o = r.stdout.strip().splitlines()
    print(q, 'rc', r.returncode, '|', ' || '.join(x[:1200] for x in o[:1] + o[-1:]))
import glob, hashlib
h = hashlib.sha256(d.encode()).hexdigest()[:8]; V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
for x in glob.glob(V + '/build/*-' + h) + glob.glob(V + '/out/*-' + h): shutil.rmtree(x)
shutil.rmtree(d)
