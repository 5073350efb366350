#!/usr/bin/env python3
"""quiet.py [id ...]: applies the behaviour-preserving edits of refactors.py to scratch copies and runs the checks."""
import os, sys, shutil, subprocess, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, 'tools', 'refactors.py')).read())
SNAP = tempfile.mkdtemp(prefix='quietv_'); subprocess.run('cp -a %s/. %s && rm -rf %s/.git' % (HERE, SNAP, SNAP), shell=True)
ids = [a for a in sys.argv[1:] if not a.startswith('C')]; only = [a for a in sys.argv[1:] if a.startswith('C')]
for id, edits, props in R:
    if ids and id not in ids: continue
    d = tempfile.mkdtemp(prefix='quiet_'); w = d+'/repo'
    subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (w, w), shell=True)
    bad = None
    for f, a, b in edits:
        t = open(w+'/'+f).read()
        if t.count(a) < 1 or (t.count(a) > 1 and not isinstance(b, tuple)): bad = '%s: %d matches of %r' % (f, t.count(a), a[:50]); break
        t = t.replace(a, b[0] if isinstance(b, tuple) else b); open(w+'/'+f, 'w').write(t)
    if bad: print(id, 'EDIT', bad); shutil.rmtree(d); continue
    for p in props.split():
        if only and p not in only: continue
        t0 = time.time()
        r = subprocess.run(['python3-vt', SNAP+'/check.py', '--prop', p], capture_output=True, text=True, cwd=SNAP, env=dict(os.environ, VREPO_DIR=w))
        out = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', p+':'))]
        un = [l for l in (r.stdout+r.stderr).splitlines() if 'nsupported' in l or 'undecided' in l]
        print('%-24s %s rc=%d %.0fs %s' % (id, p, r.returncode, time.time()-t0, ' || '.join(out)[:230]), flush=True)
    shutil.rmtree(d)
shutil.rmtree(SNAP)
