"""Runs one property: generate obligations from /repo, discharge, conformance harness, evidence."""
import os, sys, json, time, importlib, traceback, re
from . import frontend, prover, smt
from .frontend import FrontendError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.path.join(HERE, 'evidence')

TRUSTED = [
 'vcg: VC generator and symbolic semantics of C++/Eigen/std in /verif/vcg (own code, unverified; cross-checked by the compiled conformance harness)',
 'clang 18 AST of the copied sources', 'z3 / cvc5 for the obligations they discharge',
 'machine double arithmetic treated as exact real arithmetic; machine integers as mathematical integers (conversions to unsigned are obligations)',
 'OpenMP regions interpreted sequentially (race side conditions are the subject of the schedule property)',
]

def known_findings():
    fn = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding:'): out.append(l)
    return out

def load_programs(spec):
    """spec: {(dim, spline): only-set or None}"""
    progs = {}; errs = []
    for (d, s), only in spec.items():
        p = frontend.Program(d, s, only)
        if p.errors: errs += ['%s (dim %d): %s' % (b, d, e) for b, e in p.errors]
        progs[(d, s)] = p
    return progs, errs

def run(pid, tier, a):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.' + pid.lower())
    os.makedirs(EV, exist_ok=True)
    rep_dir = os.path.join(EV, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    budget = 560 if tier == 'quick' else 840
    # ---- 1. harness build in the background (compiled real code)
    H = None
    if hasattr(mod, 'HARNESS') and not a.no_harness:
        from . import harness
        H = harness.start(pid, mod.HARNESS, tier, seed)
    # ---- 2. obligations
    results = []; ferr = None
    try:
        progs, errs = load_programs(mod.programs(tier))
        if errs: ferr = '; '.join(errs)[:3000]
        tasks = mod.tasks(progs, tier)
        results = prover.run_tasks(tasks, tmax=budget)
    except FrontendError as e:
        ferr = str(e)[:3000]
    obs = [o for r in results for o in r['res']]
    uns = [r for r in results if r['status'] != 'ok']
    bad = [o for o in obs if o['status'] == 'refuted']
    unk = [o for o in obs if o['status'] == 'unknown']
    dis = [o for o in obs if o['status'] == 'discharged']
    cover = [c for r in results for c in r['cover']]
    dead = [c for c in cover if c[1] == 'unsat']
    # vacuity guard: a task with paths but none satisfiable proves nothing
    vac = []
    for r in results:
        if r['cover'] and all(c[1] == 'unsat' for c in r['cover']): vac.append(r['label'])
    # ---- 3. harness
    hres = None
    if H is not None:
        from . import harness
        hint = [o.get('model') for o in bad if o.get('model')]
        hres = harness.finish(H, hint, tier, max(30, budget + 200 - (time.time()-t0)), deep=bool(bad or unk or uns or ferr))
    wall = time.time()-t0
    be = {}
    for o in dis: be[o['backend']] = be.get(o['backend'], 0)+1
    hfail = (hres or {}).get('failures') or []
    code = 0; lines = []
    replay = os.path.join(rep_dir, '%s.json' % pid)
    rep = None
    if hfail:
        rep = {'property': pid, 'kind': 'failing input on the compiled code', 'failures': hfail[:10], 'obligations_refuted': bad[:20], 'how_to_replay': (hres or {}).get('how')}
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay)); code = 1
    elif bad:
        rep = {'property': pid, 'kind': 'failed obligation', 'obligations_refuted': bad[:40], 'verifier_output': 'the negated goal is satisfiable together with the hypotheses', 'harness': hres and {k: hres[k] for k in hres if k != 'failures'}}
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)); code = 1
    else:
        bounded = []
        if uns: bounded += ['%s: %s' % (r['label'], r['err'].split('\n')[0]) for r in uns]
        if unk: bounded += ['%s: solver undecided' % o['name'] for o in unk]
        if ferr: bounded.append('front end: ' + ferr.split('\n')[0])
        if vac: bounded.append('vacuous: ' + ', '.join(vac))
        if bounded:
            print('UNDECIDED-BY-PROOF property=%s: %s' % (pid, ' | '.join(bounded)[:1500]))
            if hres is None or not hres.get('ran'):
                print('ERROR property=%s: neither the obligations nor the bounded stand-in could be evaluated: %s' % (pid, (hres or {}).get('error')))
                code = 2
            else:
                print('  bounded stand-in (compiled code, %d evaluations) found no failing input' % hres.get('evaluations', 0))
        elif hres is not None and not hres.get('ran'):
            print('NOTE property=%s: conformance harness did not run (%s)' % (pid, str(hres.get('error'))[:300]))
        if not obs and not bounded: code = 2; print('ERROR property=%s: no obligations' % pid)
    for k in known_findings():
        if 'property=%s ' % pid in k: print('KNOWN-FINDING: ' + k[len('finding:'):].strip())
    if rep is not None:
        json.dump(rep, open(replay, 'w'), indent=1, default=str)
    funcs = sorted(set(f for r in results for f in r['funcs']))
    assume = sorted(set(x for r in results for x in r['assume']) | set(getattr(mod, 'ASSUME', ())))
    proved = not (bad or unk or uns or ferr or vac)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'other',
          'coverage': {'obligations': len(obs), 'discharged': len(dis), 'checker_cmd': 'python3-vt check.py --prop %s --tier %s' % (pid, tier),
                       'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', ())),
                       'functions_under_contract': funcs, 'by_backend': be,
                       'solver_time_s': round(sum(o['time'] for o in obs), 1),
                       'paths_covered': len([c for c in cover if c[1] == 'sat']), 'paths_unreachable': len(dead),
                       'slowest': sorted(((o['time'], o['name'], o['task']) for o in obs), reverse=True)[:3],
                       'tasks': [{'task': r['label'], 'status': r['status'], 'obligations': len(r['res']), 's': round(r['time'], 1), **({'error': r['err'][:300]} if r['err'] else {})} for r in results],
                       'samples': [o['func']+': '+o['name'] for o in obs[::max(1, len(obs)//8)]][:8]},
          'assumptions': assume, 'wall_s': round(wall, 1), 'violations': 1 if code == 1 else 0}
    if not proved:
        ev['coverage']['explanation'] = 'not every obligation was discharged: refuted %d, undecided %d, outside the verifier %d%s' % (len(bad), len(unk), len(uns), '; front end: '+ferr[:300] if ferr else '')
    if hres is not None:
        ev['coverage']['conformance_harness'] = {k: hres[k] for k in ('ran', 'evaluations', 'distinct', 'builds', 'time', 'error', 'drivers') if k in hres}
    for n in sorted(set(x for r in results for x in r['notes'])): ev['coverage'].setdefault('notes', []).append(n)
    json.dump(ev, open(os.path.join(EV, pid+'.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged (%s), %d refuted, %d undecided, %d tasks unsupported; harness %s; %.1f s' % (
        pid, len(obs), len(dis), ', '.join('%s %d' % x for x in sorted(be.items())), len(bad), len(unk), len(uns),
        'off' if hres is None else '%s evaluations, %d failures' % (hres.get('evaluations'), len(hfail)), wall))
    if a.v or bad or unk or uns:
        for o in (bad+unk)[:12 if not a.v else 60]: print('  %s [%s] %s: %s\n     goal %s\n     model %s' % (o['status'], o['task'], o['func'], o['name'], o['goal'][:300], str(o['model'])[:300]))
        for r in uns: print('  unsupported [%s]: %s' % (r['label'], r['err'][:1800 if a.v else 300]))
    if a.v:
        for r in results: print('   task %-50s %s %d obs %.1fs' % (r['label'], r['status'], len(r['res']), r['time']))
        for hf in hfail[:10]: print('   harness failure', hf)
    for l in lines: print(l)
    return code
