"""Discharging obligations and collecting results."""
import time, random, math, traceback, os, sys, multiprocessing as mp
from fractions import Fraction
from . import term as tm, smt
from .term import Poly, NOT, AND, OR
from .interp import Unsupported, Mat, VecVal, explore
from .frontend import FrontendError

# ---------------------------------------------------------------- numeric evaluation
class NoEval(Exception): pass

def _evatom(a, env):
    if a in env: return env[a]
    at = tm._atoms[a]
    k = at.kind
    if k in ('var', 'sel', 'sym') or not at.args:
        raise NoEval(k)
    if k == 'chi':
        v = 1.0 if evalf(at.args[0], env) else 0.0
    elif k == 'spl':
        raise NoEval(k)
    else:
        xs = [evalp(x, env) for x in at.args]
        try:
            if k == 'sqrt': v = math.sqrt(xs[0])
            elif k == 'exp': v = math.exp(xs[0])
            elif k == 'log': v = math.log(xs[0])
            elif k == 'cosh': v = math.cosh(xs[0])
            elif k == 'sinh': v = math.sinh(xs[0])
            elif k == 'tanh': v = math.tanh(xs[0])
            elif k == 'asinh': v = math.asinh(xs[0])
            elif k == 'cos': v = math.cos(xs[0])
            elif k == 'sin': v = math.sin(xs[0])
            elif k == 'tan': v = math.tan(xs[0])
            elif k == 'cbrt': v = math.copysign(abs(xs[0])**(1/3), xs[0])
            elif k == 'pow': v = xs[0]**xs[1]
            elif k == 'inv': v = 1.0/xs[0]
            elif k == 'floor': v = math.floor(xs[0])
            elif k == 'atan2': v = math.atan2(xs[0], xs[1])
            else: raise NoEval(k)
        except (ValueError, ZeroDivisionError, OverflowError): raise NoEval(k)
        if isinstance(v, complex): raise NoEval(k)
    env[a] = v
    return v

def evalp(p, env):
    s = 0.0
    for m, c in p.d.items():
        t = float(c)
        for a, e in m:
            x = _evatom(a, env)
            if e < 0 and x == 0: raise NoEval('div0')
            t *= x**e
        s += t
    return s

def evalscale(p, env):
    s = 0.0
    for m, c in p.d.items():
        t = abs(float(c))
        for a, e in m: t *= abs(_evatom(a, env))**e
        s += t
    return s

def evalf(f, env, tol=0.0):
    """truth with margin: tol>0 makes it hold only robustly"""
    if f is True or f is False: return f
    k = f[0]
    if k in ('lt', 'le', 'eq', 'ne'):
        v = evalp(f[1], env)
        if k == 'lt': return v < 0
        if k == 'le': return v <= 0
        if k == 'eq': return abs(v) <= 1e-9*max(1e-300, evalscale(f[1], env))
        return abs(v) > 1e-9*evalscale(f[1], env)
    if k == 'b':
        if f in env: return env[f]
        raise NoEval('bool')
    if k == 'not': return not evalf(f[1], env)
    if k == 'and': return all(evalf(x, env) for x in f[1:])
    if k == 'or': return any(evalf(x, env) for x in f[1:])
    raise NoEval(k)

def robust_false(f, env):
    """goal is false by a clear margin"""
    if f is True: return False
    if f is False: return True
    k = f[0]
    if k in ('lt', 'le', 'eq', 'ne'):
        v = evalp(f[1], env); s = evalscale(f[1], env)*1e-7
        if k in ('lt', 'le'): return v > s and v > 0
        if k == 'eq': return abs(v) > s
        return abs(v) <= s*1e-3
    if k == 'and': return any(robust_false(x, env) for x in f[1:])
    if k == 'or': return all(robust_false(x, env) for x in f[1:])
    return not evalf(f, env)

def leaves(fs):
    vs = set(); bs = set()
    def rf(f):
        if f is True or f is False: return
        if f[0] == 'b': bs.add(f); return
        if f[0] in ('lt', 'le', 'eq', 'ne'):
            for a in tm.deep_atoms(f[1].atoms()):
                at = tm._atoms[a]
                if at.kind in ('var', 'sel', 'sym') or not at.args or at.kind == 'spl': vs.add(a)
                elif at.kind == 'chi': rf(at.args[0])
            return
        for x in f[1:]: rf(x)
    for f in fs: rf(f)
    return sorted(vs), sorted(bs, key=str)

def numeric_search(hyps, goal, seed=0, n=3000, tmax=4.0):
    """look for a point where every hypothesis holds and the goal clearly fails"""
    vs, bs = leaves(list(hyps)+[goal])
    if any(tm._atoms[a].kind == 'spl' for a in vs): return None
    rng = random.Random(seed); t0 = time.time()
    # hypotheses  atom = const  fix the atom
    fixed = {}
    for h in hyps:
        if h is not True and h[0] == 'eq' and len(h[1].atoms()) == 1:
            pass
    for it in range(n):
        if time.time()-t0 > tmax: return None
        env = {}
        for a in vs:
            at = tm._atoms[a]
            if at.sort == 'I': v = rng.randint(0, 8) if at.nonneg or at.pos else rng.randint(-4, 8)
            else:
                m = rng.random()
                v = rng.uniform(-1, 1)*10**rng.uniform(-2, 1) if m < 0.8 else rng.choice([0.0, 1.0, -1.0, 0.5])
                if at.nonneg or at.pos: v = abs(v)
            if at.pos and v == 0: v = 1
            env[a] = v
        for b in bs: env[b] = rng.random() < 0.5
        try:
            if all(evalf(h, env) for h in hyps) and robust_false(goal, env):
                out = {}
                for a in vs: out[tm.atom_str(tm._atoms[a])] = env[a]
                for b in bs: out[b[1]] = env[b]
                return out
        except (NoEval, OverflowError): continue
    return None

# ---------------------------------------------------------------- recorder
BAD = mp.get_context('fork').Value('i', 0)      # refuted / undecided obligations of all workers: once the verdict is settled, no long solver runs for the rest
UNK = mp.get_context('fork').Value('i', 0)
class Enough(Exception): pass

class Rec:
    nbad = 0
    def __init__(self, label=''):
        self.label = label; self.res = []; self.funcs = set(); self.notes = []; self.assume = set(); self.cover = []
    def fn(self, *names):
        self.funcs.update(names)
    def prove(self, name, hyps, goal, func='', tmo=8000, want_model=True):
        """record one obligation"""
        t0 = time.time()
        st, be, model = discharge(hyps, goal, tmo)
        if st == 'refuted' and overapprox(goal, hyps): st = 'unknown'
        self.res.append({'name': name, 'func': func, 'task': self.label, 'status': st, 'backend': be,
                         'time': round(time.time()-t0, 3), 'goal': tm.f_str(goal)[:600] if st != 'discharged' else '',
                         'model': model, 'hyps': [tm.f_str(h)[:300] for h in hyps][:60] if st != 'discharged' else []})
        if st != 'discharged':
            self.nbad += 1
            with (BAD if st == 'refuted' else UNK).get_lock(): (BAD if st == 'refuted' else UNK).value += 1
            if not hasattr(self, 't_bad'): self.t_bad = time.time()
            if self.nbad >= 6 or BAD.value and time.time()-self.t_bad > 20: raise Enough()
        return st == 'discharged'
    def fact(self, name, ok, func='', detail='', status=None):
        """obligation decided by evaluation of the verification condition itself (closed term)"""
        self.res.append({'name': name, 'func': func, 'task': self.label, 'status': 'discharged' if ok else (status or 'refuted'), 'backend': 'ring',
                         'time': 0.0, 'goal': detail[:800], 'model': None, 'hyps': []})
        return ok
    def eqp(self, name, hyps, a, b, func='', **k):
        return self.prove(name, hyps, tm.eq(a, b), func, **k)
    def eqm(self, name, hyps, a, b, func='', **k):
        if not isinstance(a, Mat) or not isinstance(b, Mat) or (a.r, a.c) != (b.r, b.c):
            return self.fact(name, False, func, 'shape mismatch %r %r' % (a, b))
        r = True
        for i in range(a.r):
            for j in range(a.c):
                r &= self.prove('%s[%d%s]' % (name, i, ',%d' % j if a.c > 1 else ''), hyps, tm.eq(a[i, j], b[i, j]), func, **k)
        return r
    def cover_path(self, name, ok):
        self.cover.append((name, ok))

def overapprox(goal, hyps=()):
    """the goal speaks (possibly through merged branches) about a value of which the loop rule knows nothing: a model of its
    negation need not be an execution"""
    if goal is True or goal is False: return False
    def ats(f): return set(tm.deep_atoms(tm.f_atoms(f)))
    nm = lambda a: str(tm._atoms[a].name or '')
    seen = ats(goal); todo = set(a for a in seen if nm(a).startswith('ite#')); hs = None
    while True:
        if any('havoc.' in nm(a) or '.resized#' in nm(a) for a in seen): return True
        if not todo: return False
        if hs is None: hs = [ats(h) for h in hyps if isinstance(h, tuple)]
        new = set()
        for h in hs:
            if h & todo: new |= h
        todo = set(a for a in new-seen if nm(a).startswith('ite#')); seen |= new

def discharge(hyps, goal, tmo=8000):
    if goal is True: return 'discharged', 'ring', None
    if BAD.value >= 2: tmo = min(tmo, 2000)
    if goal is not False and goal[0] == 'and':
        be = 'ring'
        for g in goal[1:]:
            s, b, m = discharge(hyps, g, tmo)
            if s != 'discharged': return s, b, m
            if b != 'ring': be = b
        return 'discharged', be, None
    hyps = [h for h in hyps if h is not True]
    if any(h is False for h in hyps): return 'discharged', 'ring', None
    if goal is not False:
        if goal[0] == 'eq':
            q = tm.clear_inv(goal[1])
            if q.is_zero(): return 'discharged', 'ring', None
        ks = set(tm.fkey(h) for h in hyps)
        if tm.fkey(goal) in ks: return 'discharged', 'ring', None
    if goal is not False and goal[0] in ('le', 'lt') and len(goal[1].d) <= 60:
        for h in hyps:
            if isinstance(h, tuple) and (h[0] == goal[0] or h[0] == 'lt' and goal[0] == 'le') and len(h[1].d) == len(goal[1].d) and pos_multiple(goal[1], h[1]): return 'discharged', 'ring', None
    if goal is not False and product_lemma(hyps, goal): return 'discharged', 'ring', None
    ng = NOT(goal)
    if goal is not False and goal[0] == 'eq':
        w = numeric_search(hyps, goal, 1, 400, 1.0)
        if w is not None: return 'refuted', 'numeric', w
    # 1. small cone first
    small = cone(hyps, goal)
    r, be, m = smt.check_unsat(small, [ng], min(tmo, 3000), False)
    if r == 'unsat': return 'discharged', be, None
    if r != 'sat' or len(small) < len(hyps):
        r, be, m = smt.check_unsat(hyps, [ng], tmo, True, use_cvc5=True)
        if r == 'unsat': return 'discharged', be, None
    else:
        r, be, m = smt.check_unsat(hyps, [ng], tmo, True)
        if r == 'unsat': return 'discharged', be, None
    w = numeric_search(hyps, goal)
    if w is not None: return 'refuted', 'numeric', w
    if r != 'sat' and BAD.value == 0 and UNK.value < 4:
        r, be, m = smt.check_unsat(hyps, [ng], tmo*4, True, use_cvc5=True)
        if r == 'unsat': return 'discharged', be, None
    if r != 'sat': return 'unknown', be, None
    # transcendental functions are uninterpreted for the solver: its model counts only if it survives evaluation with the real functions
    if abstracted(list(hyps)+[goal]) and not confirmed(hyps, goal, m): return 'unknown', be, m
    return 'refuted', be, m

TRANS = ('exp', 'log', 'pow', 'sinh', 'cosh', 'tanh', 'asinh', 'cos', 'sin', 'tan', 'cbrt', 'atan2')
def abstracted(fs):
    ids = set()
    for f in fs:
        if not isinstance(f, bool): ids |= tm.deep_atoms(tm.f_atoms(f))
    return any(tm._atoms[i].kind in TRANS for i in ids)

def confirmed(hyps, goal, model, n=400):
    """a point near the solver's model where the hypotheses hold and the goal clearly fails, transcendental functions evaluated"""
    if not model: return False
    vs, bs = leaves(list(hyps)+[goal]); rng = random.Random(1)
    for it in range(n):
        env = {}
        for a in vs:
            at = tm._atoms[a]; v = model.get(tm.atom_str(at))
            try: v = float(v)
            except (TypeError, ValueError): v = rng.uniform(0.1, 2)
            if it and at.sort != 'I': v *= 1+rng.uniform(-1, 1)*10**rng.uniform(-4, 0); v += rng.choice((0, 0, 1))*rng.uniform(-1, 1)*10**rng.uniform(-4, 0)
            if (at.nonneg or at.pos) and v < 0: v = abs(v)
            if at.pos and v == 0: v = 1
            env[a] = v
        for b in bs: env[b] = model.get(b[1]) in (True, 'True', 1) if b[1] in model else rng.random() < 0.5
        try:
            if all(evalf(h, env) for h in hyps) and robust_false(goal, env): return True
        except (NoEval, OverflowError): continue
    return False

def pos_multiple(A, B):
    """A == r B for a positive monomial r (positive atoms and exponentials only)"""
    if len(A.d) != len(B.d) or not A.d: return False
    sp = lambda m: tuple((a, e) for a, e in m if not tm.atom(a).pos)
    m0, c0 = next(iter(A.d.items())); n0 = sp(m0)
    for m, c in B.d.items():
        if c*c0 <= 0 or sp(m) != n0: continue
        r = Poly({tuple(x for x in m0 if tm.atom(x[0]).pos): c0})*tm.inv(Poly({tuple(x for x in m if tm.atom(x[0]).pos): c}))
        if (A-r*B).is_zero(): return True
    return False

def product_lemma(hyps, goal):
    """the goal is  a*b >= 0 (or > 0)  for two hypotheses of the form a <= 0, b <= 0 (common positive factors are normalised away)"""
    if goal[0] not in ('le', 'lt') or len(goal[1].d) > 60 or len(goal[1].d) < 2: return False
    k = tm.fkey(goal); cs = []
    S = set(goal[1].atoms())
    for h in hyps:
        if isinstance(h, tuple) and h[0] in ('le', 'lt') and len(h[1].d) <= 12 and (goal[0] == 'le' or h[0] == 'lt'): cs.append(h[1])
    cs = cs[-24:]
    for i, a in enumerate(cs):
        for b in cs[i:]:
            f = (tm.le if goal[0] == 'le' else tm.lt)(-(a*b), tm.ZERO)
            if f is True or f is not False and (tm.fkey(f) == k or pos_multiple(goal[1], f[1])): return True
    return False

def cone(hyps, goal):
    S = set(tm.deep_atoms(tm.f_atoms(goal))) if goal is not False else set()
    if not S: return list(hyps)
    out = []
    hs = [(h, set(tm.deep_atoms(tm.f_atoms(h)))) for h in hyps]
    for h, a in hs:
        if a <= S: out.append(h)
    if len(out) < 3:
        out = [h for h, a in hs if a & S]
    return out

def vacuity(R, name, pc, ms=3000):
    """the path condition is satisfiable (guards against vacuous proofs)"""
    r, be, m = smt.check_unsat(pc, [], ms)
    R.cover_path(name, r)
    return r

# ---------------------------------------------------------------- tasks in parallel
def _run(t):
    label, fn, args = t
    R = Rec(label)
    t0 = time.time()
    try:
        fn(R, *args)
        st = 'ok'; err = ''
    except Enough:
        st = 'ok'; err = ''
    except (Unsupported, FrontendError) as e:
        st = 'unsupported'; err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VDEBUG'): traceback.print_exc()
    except Exception as e:
        st = 'unsupported'; err = 'internal %s: %s' % (type(e).__name__, e)
        err += '\n' + traceback.format_exc()[-700:]
        if os.environ.get('VDEBUG'): traceback.print_exc()
    return {'label': label, 'status': st, 'err': err, 'res': R.res, 'funcs': sorted(R.funcs), 'notes': R.notes, 'assume': sorted(R.assume),
            'cover': R.cover, 'time': time.time()-t0, 'smt': dict(smt.stats)}

_tasks = []
def _idx(i): return _run(_tasks[i])

def run_tasks(tasks, par=8, tmax=700):
    """tasks: (label, function(R,*args), args).  Forked workers, one process per task."""
    global _tasks
    _tasks = tasks
    if os.environ.get('VSERIAL') or len(tasks) == 1 and False:
        return [_run(t) for t in tasks]
    ctx = mp.get_context('fork')
    out = [None]*len(tasks)
    t0 = time.time()
    with ctx.Pool(min(par, len(tasks)) or 1, maxtasksperchild=1) as pool:
        rs = [pool.apply_async(_idx, (i,)) for i in range(len(tasks))]
        tbad = None
        while not all(r.ready() for r in rs):
            time.sleep(0.05)
            if BAD.value and tbad is None: tbad = time.time()
            if time.time()-t0 > tmax: break
            if tbad and time.time()-tbad > 45 and any(r.ready() and any(o['status'] == 'refuted' for o in r.get()['res']) for r in rs): break
        for i, r in enumerate(rs):
            if r.ready(): out[i] = r.get()
            else:
                out[i] = {'label': tasks[i][0], 'status': 'unsupported', 'err': 'stopped: an obligation is already refuted' if tbad else 'time budget exhausted', 'res': [], 'funcs': [], 'notes': [], 'assume': [], 'cover': [], 'time': tmax, 'smt': {}}
        pool.terminate()
    return out
