#!/usr/bin/env python3
"""development aid: run a property's check on a scratch copy of /repo with a planted bug (or refactoring) applied"""
import os, sys, shutil, subprocess, json, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(patch, props):
    d = tempfile.mkdtemp(prefix='try_'); w = d+'/repo'
    try:
        subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s' % (w, w, w, patch), shell=True, check=True)
        for p in props:
            t = time.time()
            r = subprocess.run(['timeout', '880', 'python3-vt', HERE+'/check.py', '--prop', p, '--tier', 'quick'], env=dict(os.environ, VREPO_DIR=w), capture_output=True, text=True, cwd=HERE)
            L = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'UNDECIDED', 'ERROR', 'NOTE', p+':'))]
            print(os.path.basename(os.path.dirname(patch)), p, 'rc=%d' % r.returncode, '%.0fs' % (time.time()-t), ' || '.join(x[:260] for x in L), r.stderr[-300:], flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
for a in sys.argv[1:]:
    pid = None
    if ':' in a: a, pid = a.split(':')
    f = a if a.endswith('.diff') else os.path.join(HERE, 'seeded', a, 'patch.diff')
    if pid is None: pid = json.load(open(os.path.join(os.path.dirname(f), 'meta.json')))['property']
    run(os.path.abspath(f), pid.split(','))
