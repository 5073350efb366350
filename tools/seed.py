#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/list.py, after confirming the demonstration in a scratch copy.
usage: seed.py [id ...] (default: those without a confirmed folder);  --all"""
import os, sys, shutil, subprocess, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, 'tools', 'seeds')
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, flags='', spline='', deps=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, spline=spline, deps=deps))
exec(open(os.path.join(SD, 'list.py')).read())
STUBS = 'void Simulation::saveParticleData(std::string){} void Simulation::saveGridData(std::string){} void Simulation::computeAvgData(TM&,TM&,T&){} void Simulation::saveAvgData(){} void Simulation::saveInfo(){} void Simulation::saveTiming(){}\n'
def sh(c, cwd=None, t=300):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def mk(s):
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        w = os.path.join(d, 'repo')
        sh('git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base' % (w, w, w))
        out = os.path.join(HERE, 'seeded', s['id']); os.makedirs(out, exist_ok=True)
        open(out+'/demo.cpp', 'w').write('#include "demo.hpp"\n' + ('' if s['deps'] else STUBS) + s['demo'] + '\n')
        shutil.copy(SD+'/demo.hpp', out+'/demo.hpp')
        if s['deps']: shutil.copytree(HERE+'/stubs/deps', out+'/deps', dirs_exist_ok=True)
        open(out+'/demo.sh', 'w').write(open(SD+'/demo.sh').read().replace('@FLAGS@', s['flags']).replace('@SPLINE@', str(s['spline'])).replace(' -I$H/deps_root', ''))
        os.chmod(out+'/demo.sh', 0o755)
        r0 = sh('bash %s/demo.sh' % out, w)
        for f, a, b in s['edits']:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(a) < 1: return 'edit does not match: %s: %r' % (f, a)
            if t.count(a) > 1 and not isinstance(b, tuple): return 'edit ambiguous (%d): %s: %r' % (t.count(a), f, a)
            if isinstance(b, tuple):   # (text, occurrence index or 'all')
                if b[1] == 'all': t = t.replace(a, b[0])
                else:
                    parts = t.split(a); k = b[1]; t = a.join(parts[:k+1]) + b[0] + a.join(parts[k+1:])
            else: t = t.replace(a, b)
            open(p, 'w').write(t)
        df = sh('git diff', w).stdout
        open(out+'/patch.diff', 'w').write(df)
        r1 = sh('bash %s/demo.sh' % out, w)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out+'/meta.json', 'w'), indent=1)
        ok = r0.returncode == 0 and r1.returncode not in (0, 2)
        return ('ok' if ok else 'NOT CONFIRMED') + ' clean=%d patched=%d %s | %s' % (r0.returncode, r1.returncode, r0.stderr[-300:], r1.stderr[-150:].replace('\n', ' '))
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    ids = sys.argv[1:]
    for s in SEEDS:
        if ids and ids != ['--all'] and s['id'] not in ids: continue
        if not ids and os.path.exists(os.path.join(HERE, 'seeded', s['id'], 'patch.diff')): continue
        print(s['id'], mk(s), flush=True)
