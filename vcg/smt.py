"""Back end: discharges  hyps |= goal  with z3 (in process) then cvc5 (CLI)."""
import time, subprocess, tempfile, os
from fractions import Fraction
import z3
from . import term as tm
from .term import Poly, _atoms

stats = {'z3': 0, 'cvc5': 0, 'ring': 0, 'time': 0.0, 'calls': 0}

class Enc:
    def __init__(self, facts=()):
        self.vars = {}; self.ax = []; self.done = set()
        self.exps = []; self.sels = {}; self.sqrts = []
        self.facts = facts
    def q(self, c):
        return z3.RatVal(c.numerator, c.denominator)
    def var(self, a):
        v = self.vars.get(a)
        if v is not None: return v
        at = _atoms[a]
        nm = 'a%d' % a if at.kind != 'sym' else at.name
        v = z3.Int(nm) if at.sort == 'I' else z3.Real(nm)
        self.vars[a] = v
        self.axioms(at, v)
        return v
    def real(self, v):
        return z3.ToReal(v) if v.sort() == z3.IntSort() else v
    def axioms(self, at, v):
        k = at.kind; ax = self.ax
        if at.pos: ax.append(v > 0)
        elif at.nonneg: ax.append(v >= 0)
        if k == 'sqrt':
            p = self.poly(at.args[0])
            ax.append(z3.Implies(p >= 0, v*v == p)); ax.append(v >= 0)
            for (p2, v2) in self.sqrts:
                ax.append(z3.Implies(z3.And(p >= 0, p <= p2), v <= v2)); ax.append(z3.Implies(z3.And(p2 >= 0, p2 <= p), v2 <= v))
            if len(self.sqrts) < 6: self.sqrts.append((p, v))
        elif k == 'inv':
            p = self.poly(at.args[0]); ax.append(z3.Implies(p != 0, v*p == 1))
        elif k == 'exp':
            p = self.poly(at.args[0])
            ax += [v > 0, z3.Implies(p <= 0, v <= 1), z3.Implies(p >= 0, v >= 1), z3.Implies(p < 0, v < 1), z3.Implies(p > 0, v > 1), v >= 1+p]
            for (p2, v2) in self.exps:
                ax.append(z3.Implies(p <= p2, v <= v2)); ax.append(z3.Implies(p2 <= p, v2 <= v))
            if len(self.exps) < 8: self.exps.append((p, v))
        elif k == 'log':
            p = self.poly(at.args[0])
            ax += [z3.Implies(z3.And(p > 0, p <= 1), v <= 0), z3.Implies(p >= 1, v >= 0), z3.Implies(p > 0, v <= p-1)]
        elif k == 'cosh':
            ax.append(v >= 1)
        elif k == 'sinh' or k == 'asinh':
            p = self.poly(at.args[0])
            ax += [z3.Implies(p > 0, v > 0), z3.Implies(p < 0, v < 0), z3.Implies(p == 0, v == 0)]
        elif k == 'cbrt':
            p = self.poly(at.args[0]); ax.append(v*v*v == p)
            ax.append(z3.Implies(p > 0, v > 0))
        elif k == 'pow':
            p = self.poly(at.args[0]); e = self.poly(at.args[1])
            ax.append(z3.Implies(p > 0, v > 0)); ax.append(z3.Implies(p >= 0, v >= 0))
            ax.append(z3.Implies(z3.And(p > 0, p <= 1, e >= 0), v <= 1)); ax.append(z3.Implies(z3.And(p >= 1, e >= 0), v >= 1))
            ax.append(z3.Implies(p == 1, v == 1)); ax.append(z3.Implies(z3.And(p > 0, e == 0), v == 1))
        elif k == 'chi':
            f = self.form(at.args[0])
            ax.append(z3.Or(v == 0, v == 1)); ax.append((v == 1) == f)
        elif k == 'floor':
            p = self.poly(at.args[0]); r = self.real(v)
            ax += [r <= p, p < r+1]
        elif k == 'ceil':
            p = self.poly(at.args[0]); r = self.real(v)
            ax += [r >= p, p > r-1]
        elif k == 'idiv':
            p = self.ipoly(at.args[0]); n = self.ipoly(at.args[1])
            ax += [z3.Implies(z3.And(p >= 0, n > 0), z3.And(v >= 0, n*v <= p, p < n*v+n))]
        elif k in ('cos', 'sin'):
            ax += [v >= -1, v <= 1]
            other = tm._mk_atom('sin' if k == 'cos' else 'cos', None, at.args, 'R')
            if other.id in self.vars: 
                w = self.vars[other.id]; ax.append(v*v+w*w == 1)
        elif k == 'sel':
            nm = at.name
            lst = self.sels.setdefault(nm, [])
            idx = at.args
            for (idx2, v2) in lst[-12:]:
                if len(idx) == len(idx2):
                    conds = []
                    ok = True
                    for x, y in zip(idx, idx2):
                        if isinstance(x, Poly):
                            d = (x-y).const()
                            if d is not None and d != 0: ok = False; break
                            conds.append(self.poly(x) == self.poly(y))
                        elif x != y: ok = False; break
                    if ok and conds: ax.append(z3.Implies(z3.And(*conds), v == v2))
            lst.append((idx, v))
    def ipoly(self, p):
        return self.poly(p, True)
    def poly(self, p, wantint=False):
        isint = p.is_int()
        terms = []
        for m, c in p.d.items():
            fs = []
            neg = []
            for a, e in m:
                v = self.var(a)
                if not isint: v = self.real(v)
                if e >= 0: fs += [v]*e
                else: neg += [self.real(self.var(a))]*(-e)
            if isint:
                t = z3.IntVal(c.numerator)
            else: t = self.q(c)
            if fs or neg:
                if c == 1 and fs: t = fs[0]; fs = fs[1:]
                for f in fs: t = t*f
                if neg:
                    for f in neg:
                        t = t*self.recip(f)
            terms.append(t)
        if not terms: return z3.IntVal(0) if wantint else z3.RealVal(0)
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        if not wantint and isint: r = z3.ToReal(r) if r.sort() == z3.IntSort() else r
        return r
    def recip(self, v):
        k = ('recip', v.get_id())
        r = self.vars.get(k)
        if r is None:
            r = z3.Real('rc_%d' % v.get_id())
            self.vars[k] = r
            self.ax.append(z3.Implies(v != 0, r*v == 1))
            self.ax.append(z3.Implies(v > 0, r > 0)); self.ax.append(z3.Implies(v < 0, r < 0))
        return r
    def form(self, f):
        if f is True: return z3.BoolVal(True)
        if f is False: return z3.BoolVal(False)
        k = f[0]
        if k in ('lt', 'le', 'eq', 'ne'):
            p = f[1]
            if p.is_int() or self.intable(p) :
                # clear denominators to keep it integral
                L = 1
                for c in p.d.values(): L = L*c.denominator//_gcd(L, c.denominator)
                p = p.scale(Fraction(L)); e = self.poly(p, True); z = z3.IntVal(0)
            else:
                e = self.poly(p); z = z3.RealVal(0)
            return {'lt': e < z, 'le': e <= z, 'eq': e == z, 'ne': e != z}[k]
        if k == 'b': return z3.Bool(f[1])
        if k == 'not': return z3.Not(self.form(f[1]))
        if k == 'and': return z3.And(*[self.form(x) for x in f[1:]])
        if k == 'or': return z3.Or(*[self.form(x) for x in f[1:]])
        raise ValueError(f)
    def intable(self, p):
        for m in p.d:
            for a, e in m:
                if e < 0 or _atoms[a].sort != 'I': return False
        return True

def _gcd(a, b):
    while b: a, b = b, a % b
    return a

def relevant(hyps, goal_atoms, rounds=6):
    """cone of influence over hypotheses sharing atoms"""
    S = tm.deep_atoms(goal_atoms)
    hs = [(h, tm.deep_atoms(tm.f_atoms(h)), bools(h)) for h in hyps if h is not True]
    return [h for h, a, b in hs]

def bools(f):
    return None

def model_dict(m, enc):
    out = {}
    for a, v in enc.vars.items():
        if isinstance(a, tuple): continue
        at = _atoms[a]
        try:
            val = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(val): val = val.approx(20)
            out[tm.atom_str(at)] = float(val.as_fraction()) if not z3.is_int_value(val) else val.as_long()
        except Exception:
            pass
    for d in m.decls():
        if d.range() == z3.BoolSort():
            out[d.name()] = z3.is_true(m[d])
    return out

def check_unsat(hyps, extra, timeout_ms=2000, want_model=False, use_cvc5=False):
    """is  And(hyps) & And(extra)  unsatisfiable?  returns ('unsat'|'sat'|'unknown', backend, model)"""
    t0 = time.time(); stats['calls'] += 1
    enc = Enc()
    cs = [enc.form(h) for h in list(hyps)+list(extra)]
    s = z3.Solver(); s.set('timeout', int(timeout_ms))
    for c in cs: s.add(c)
    for c in enc.ax: s.add(c)
    r = s.check()
    be = 'z3'; model = None
    if r == z3.unknown and timeout_ms >= 1500:
        # second strategy: nlsat via tactic
        try:
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            s2.set('timeout', int(timeout_ms))
            for c in cs: s2.add(c)
            for c in enc.ax: s2.add(c)
            r2 = s2.check()
            if r2 != z3.unknown: r = r2; s = s2
            elif not any(v.sort() == z3.IntSort() for v in enc.vars.values()):
                s3 = z3.Tactic('qfnra-nlsat').solver(); s3.set('timeout', int(timeout_ms))
                g = z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat').solver()
                g.set('timeout', int(timeout_ms))
                for c in cs: g.add(c)
                for c in enc.ax: g.add(c)
                r3 = g.check()
                if r3 != z3.unknown: r = r3; s = g
        except z3.Z3Exception:
            pass
    if r == z3.unknown and use_cvc5:
        rr = cvc5_run(s, timeout_ms)
        if rr == 'unsat': be = 'cvc5'; r = z3.unsat
    if r == z3.sat and want_model:
        try: model = model_dict(s.model(), enc)
        except Exception: model = None
    stats['time'] += time.time()-t0
    return (str(r), be, model)

def cvc5_run(s, timeout_ms):
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in s.to_smt2().splitlines() if not l.startswith('(set-'))
    fd, fn = tempfile.mkstemp(suffix='.smt2'); os.write(fd, txt.encode()); os.close(fd)
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', fn], capture_output=True, text=True, timeout=timeout_ms/1000+5)
        return o.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(fn)

def cvc5_confirm(hyps, extra, timeout_ms):
    enc = Enc()
    cs = [enc.form(h) for h in list(hyps)+list(extra)]
    s = z3.Solver()
    for c in cs+enc.ax: s.add(c)
    return cvc5_run(s, timeout_ms)
