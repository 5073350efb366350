#!/usr/bin/env python3
"""applyref.py id dir: lay a scratch copy of /repo's HEAD with the behaviour-preserving edit `id` in dir."""
import os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, 'tools', 'refactors.py')).read())
id, w = sys.argv[1:3]
subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (w, w), shell=True)
for i, edits, props in R:
    if i != id: continue
    for f, a, b in edits:
        t = open(w+'/'+f).read(); assert t.count(a) >= 1, (f, a[:60])
        open(w+'/'+f, 'w').write(t.replace(a, b[0] if isinstance(b, tuple) else b))
    print(props)
