"""Builds the conformance harness from /repo's current sources and runs it."""
import os, glob, subprocess, threading, time, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import frontend
HERE = frontend.HERE
FLAGS = ['-std=c++17', '-O1', '-fopenmp', '-w', '-isystem', '/usr/include/eigen3', '-DSRC_DIR="x"']
_sem = threading.Semaphore(8)

def _cc(cmd, cwd=None, tmo=400):
    with _sem:
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd, timeout=tmo)
    return r

class H: pass

def build(dim, spl, driver, root, extra=()):
    d = os.path.join(root, 'd%d_s%d' % (dim, spl))
    frontend.copy_tree(d, spl)
    fl = FLAGS + list(extra) + (['-DTHREEDIM'] if dim == 3 else [])
    inc = ['-I'+d, '-I'+os.path.join(HERE, 'harness')]
    srcs = sorted(glob.glob(os.path.join(d, 'src', 'simulation', '*.cpp')))
    objs = []; jobs = []
    for s in srcs:
        o = s[:-4]+'.o'; objs.append(o); jobs.append(['g++'] + fl + inc + ['-c', s, '-o', o])
    ho = os.path.join(d, 'drv.o'); objs.append(ho)
    jobs.insert(0, ['g++'] + fl + inc + ['-c', os.path.join(HERE, 'harness', driver), '-o', ho])
    with ThreadPoolExecutor(len(jobs)) as ex:
        rs = list(ex.map(_cc, jobs))
    for r, j in zip(rs, jobs):
        if r.returncode: return None, 'compile %s: %s' % (os.path.basename(j[-3]), r.stderr[-1200:])
    exe = os.path.join(d, 'harness')
    r = _cc(['g++', '-fopenmp'] + list(extra) + objs + ['-o', exe])
    if r.returncode: return None, 'link: ' + r.stderr[-1200:]
    return exe, None

def start(pid, spec, tier, seed):
    h = H(); h.spec = spec; h.pid = pid; h.seed = seed; h.exes = []; h.err = []
    h.root = tempfile.mkdtemp(prefix='vharn_')
    def go():
        try:
            with ThreadPoolExecutor(4) as ex:
                bs = spec['builds'] + (spec.get('builds_thorough', []) if tier == 'thorough' else [])
                fs = [(b, ex.submit(build, b[0], b[1], spec['driver'], h.root, spec.get('flags', ()))) for b in bs]
                for b, f in fs:
                    e, err = f.result()
                    if e: h.exes.append((b, e))
                    else: h.err.append('%s: %s' % (b, err))
        except Exception as e:
            h.err.append(repr(e))
    h.th = threading.Thread(target=go); h.th.start()
    return h

def finish(h, hints, tier, tleft, deep=False):
    t0 = time.time()
    h.th.join()
    out = {'ran': bool(h.exes) and not h.err, 'builds': ['%dD degree %d' % b for b, e in h.exes], 'evaluations': 0, 'failures': [], 'drivers': {}}
    if h.err: out['error'] = ' ; '.join(h.err)[:2500]
    tmax = h.spec.get('time', 20) * (1 if tier == 'quick' else 8) * (2 if deep else 1)
    tmax = min(tmax, max(10, tleft-20))
    n = h.spec.get('n', 3000) * (1 if tier == 'quick' else 30) * (4 if deep else 1)
    hf = None
    if hints:
        hf = os.path.join(h.root, 'hints.txt')
        with open(hf, 'w') as f:
            for m in hints[:12]:
                for k, v in m.items():
                    try: f.write('%s=%r\n' % (k, float(v)))
                    except Exception: pass
                f.write('--\n')
    def run1(be):
        b, e = be
        wd = tempfile.mkdtemp(dir=h.root)
        env = dict(os.environ, OMP_NUM_THREADS='4')
        cmd = [e, '--seed', str(h.seed), '--n', str(n), '--tmax', str(tmax)] + (['--hint', hf] if hf else [])
        try: r = subprocess.run(cmd, capture_output=True, text=True, cwd=wd, timeout=tmax*3+60, env=env)
        except subprocess.TimeoutExpired as x:
            return b, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout', ''
        return b, r.stdout, r.returncode, r.stderr[-600:]
    with ThreadPoolExecutor(8) as ex:
        for b, so, rc, se in ex.map(run1, h.exes):
            done = False
            for l in so.splitlines():
                if l.startswith('FAIL '):
                    try: f = json.loads(l[5:])
                    except Exception: f = {'raw': l[:800]}
                    f['build'] = '%dD degree %d' % b; out['failures'].append(f)
                elif l.startswith('DONE '):
                    x = l.split(); out['evaluations'] += int(x[1]); out['checks'] = out.get('checks', 0)+int(x[2]); done = True
                elif l.startswith('DRIVER '):
                    x = l.split(); out['drivers'][x[1]] = out['drivers'].get(x[1], 0)+int(x[2])
            if not done:
                if rc not in (0, 'timeout'):
                    # the compiled code itself crashed on an input of the stated domain
                    out['failures'].append({'build': '%dD degree %d' % b, 'messages': ['the compiled code terminated abnormally (exit %s): %s' % (rc, se)], 'seed': h.seed})
                else:
                    out['failures'].append({'build': '%dD degree %d' % b, 'messages': ['the compiled code did not terminate'], 'seed': h.seed}) if h.spec.get('hang_is_failure') else None
                    out['ran'] = False if not out['evaluations'] else out['ran']
    out['how'] = 'build harness/%s with the sources of /repo/src (see vcg/harness.py) and run: harness --seed %d --driver <driver> --case <case>' % (h.spec['driver'], h.seed)
    out['time'] = round(time.time()-t0, 1)
    shutil.rmtree(h.root, ignore_errors=True)
    return out
