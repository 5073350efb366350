"""Terms of the verifier: Laurent polynomials over interned atoms, and formulas.

Arithmetic is exact (fractions.Fraction over mathematical reals/integers).
Atoms are symbols or applications (sqrt, exp, inv, sel, chi ...).  A handful of
ring rules are applied at construction: sqrt(P)^2 = P, exp(a)exp(b) = exp(a+b),
sinh^2 = cosh^2 - 1, chi^2 = chi, plus user square rules (unit vectors).
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'sort', 'nonneg', 'pos', 'sqrule')
    def __repr__(self):
        return atom_str(self)

_atoms = []
_intern = {}
ONE_M = ()

def _mk_atom(kind, name, args, sort):
    key = (kind, name, tuple(a.key() if isinstance(a, Poly) else fkey(a) if isinstance(a, tuple) else a for a in args), sort)
    a = _intern.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atoms); a.kind = kind; a.name = name; a.args = tuple(args); a.sort = sort
    a.nonneg = False; a.pos = False; a.sqrule = None
    _atoms.append(a); _intern[key] = a
    return a

def atom(i):
    return _atoms[i]

_fresh = [0]
def fresh_name(base):
    _fresh[0] += 1
    return '%s#%d' % (base, _fresh[0])
def reset_fresh():
    _fresh[0] = 0

class Poly:
    __slots__ = ('d', '_k', '_h')
    def __init__(self, d):
        self.d = d; self._k = None; self._h = None
    def key(self):
        k = self._k
        if k is None:
            k = self._k = tuple(sorted(self.d.items()))
        return k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d
    # --- queries
    def is_zero(self): return not self.d
    def const(self):
        """Fraction if constant else None"""
        if not self.d: return Fraction(0)
        if len(self.d) == 1 and ONE_M in self.d: return self.d[ONE_M]
        return None
    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m: s.add(a)
        return s
    def is_int(self):
        for m, c in self.d.items():
            if c.denominator != 1: return False
            for a, e in m:
                if e < 0 or _atoms[a].sort != 'I': return False
        return True
    # --- arithmetic
    def __add__(self, o):
        o = P(o)
        if len(o.d) > len(self.d): self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m)
            if v is None: d[m] = c
            else:
                v = v + c
                if v: d[m] = v
                else: del d[m]
        return Poly(d)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        return self + (-P(o))
    def __rsub__(self, o):
        return P(o) - self
    def scale(self, c):
        if c == 0: return ZERO
        if c == 1: return self
        return Poly({m: v*c for m, v in self.d.items()})
    def __mul__(self, o):
        o = P(o)
        a, b = self, o
        ca = a.const()
        if ca is not None: return b.scale(ca)
        cb = b.const()
        if cb is not None: return a.scale(cb)
        d = {}
        special = None
        for m1, c1 in a.d.items():
            for m2, c2 in b.d.items():
                c = c1*c2
                mm = mono_mul(m1, m2)
                if mm.__class__ is tuple:
                    v = d.get(mm)
                    if v is None: d[mm] = c
                    else:
                        v += c
                        if v: d[mm] = v
                        else: del d[mm]
                else:  # Poly
                    if special is None: special = []
                    special.append((mm, c))
        r = Poly(d)
        if special:
            acc = dict(r.d)
            for q, c in special:
                for m, v in q.d.items():
                    w = acc.get(m, 0) + v*c
                    if w: acc[m] = w
                    else: acc.pop(m, None)
            r = Poly(acc)
        return r
    __rmul__ = __mul__
    def __pow__(self, n):
        n = int(n)
        if n < 0: return inv(self) ** (-n)
        r = ONE; b = self
        while n:
            if n & 1: r = r*b
            n >>= 1
            if n: b = b*b
        return r
    def __truediv__(self, o):
        return self * inv(P(o))
    def __rtruediv__(self, o):
        return P(o) * inv(self)
    def __repr__(self): return poly_str(self)

ZERO = Poly({})
ONE = Poly({ONE_M: Fraction(1)})

def P(x):
    if x.__class__ is Poly: return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return Poly({ONE_M: Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction): return Poly({ONE_M: x}) if x else ZERO
    if isinstance(x, float): return Poly({ONE_M: Fraction(repr(x))}) if x else ZERO
    raise TypeError('not a number: %r' % (x,))

# which atoms need attention when multiplied
SINH_SQ = True       # rewrite sinh^2; properties that only compare sinh terms switch it off
_special = set()     # ids of sqrt / exp / sinh / chi / sqrule atoms

def mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    # merge sorted
    out = []
    i = j = 0
    n1 = len(m1); n2 = len(m2)
    need = False
    nexp = 0
    while i < n1 and j < n2:
        a, e = m1[i]; b, f = m2[j]
        if a < b:
            out.append((a, e)); i += 1
        elif b < a:
            out.append((b, f)); j += 1
        else:
            s = e+f
            if s:
                out.append((a, s))
            i += 1; j += 1
            if a in _special: need = True
    out.extend(m1[i:]); out.extend(m2[j:])
    if not need and _exps:
        c = 0
        for a, e in out:
            if a in _exps: c += 1
        if c > 1: need = True
    t = tuple(out)
    if not need: return t
    return normalize_mono(t)

_exps = set()

def normalize_mono(m):
    """apply rewrite rules to a monomial; returns tuple or Poly"""
    rest = []; factors = []; expsum = None; nexp = 0; expm = None
    for a, e in m:
        at = _atoms[a]
        if a in _exps:
            nexp += 1
            t = at.args[0].scale(Fraction(e))
            expsum = t if expsum is None else expsum + t
            expm = (a, e)
        elif at.kind == 'sqrt' and (e >= 2 or e < 0):
            q = at.args[0]
            k = e // 2; r = e - 2*k
            if k: factors.append(q ** k)
            if r: rest.append((a, 1))
        elif at.kind == 'sinh' and e >= 2 and SINH_SQ:
            ch = A('cosh', at.args[0])
            factors.append((ch*ch - ONE) ** (e // 2))
            if e % 2: rest.append((a, 1))
        elif at.kind == 'chi' and e >= 2:
            rest.append((a, 1))
        elif at.sqrule is not None and e >= 2:
            factors.append(at.sqrule ** (e // 2))
            if e % 2: rest.append((a, 1))
        else:
            rest.append((a, e))
    if expsum is not None:
        if nexp == 1 and expm[1] == 1:
            rest.append(expm)
        else:
            factors.append(exp(expsum))
    rest.sort()
    base = tuple(rest)
    if not factors:
        return base
    r = Poly({base: Fraction(1)})
    for f in factors: r = r*f
    return r

def from_atom(a, e=1):
    return Poly({((a.id, e),): Fraction(1)})

def sym(name, sort='R', nonneg=False, pos=False):
    a = _mk_atom('sym', name, (), sort)
    if nonneg or pos: a.nonneg = True
    if pos: a.pos = True
    return from_atom(a)

def set_sqrule(p, q):
    """p: a symbol poly;  p^2 -> q"""
    a = _atoms[the_atom(p)]
    a.sqrule = q; _special.add(a.id)

def the_atom(p):
    (m, c), = p.d.items()
    (a, e), = m
    assert c == 1 and e == 1
    return a

def A(kind, *args, sort='R', name=None):
    a = _mk_atom(kind, name, args, sort)
    if kind in ('sqrt', 'sinh', 'chi'): _special.add(a.id)
    if kind == 'exp': _exps.add(a.id); _special.add(a.id); a.nonneg = a.pos = True
    if kind in ('sqrt', 'chi', 'cosh'): a.nonneg = True
    if kind == 'cosh': a.pos = True
    return from_atom(a)

def content(p):
    """p = c * mono * q with q primitive (leading coeff 1, no common monomial)"""
    ms = list(p.d.keys())
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            e = dm.get(a, 0)
            if e < common[a]:
                common[a] = e
        for a in dm:
            if a not in common and dm[a] < 0: common[a] = dm[a]
    common = tuple(sorted((a, e) for a, e in common.items() if e))
    invc = tuple((a, -e) for a, e in common)
    q = {}
    for m, c in p.d.items():
        dm = dict(m)
        for a, e in invc:
            s = dm.get(a, 0)+e
            if s: dm[a] = s
            else: dm.pop(a, None)
        q[tuple(sorted(dm.items()))] = c
    lead = max(q)
    c = q[lead]
    q = Poly({m: v/c for m, v in q.items()})
    return c, common, q

def inv(p):
    c = p.const()
    if c is not None:
        if c == 0: raise ZeroDivisionError('division by literal zero')
        return P(1/c)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        t = tuple((a, -e) for a, e in m)
        r = normalize_mono(t)
        if r.__class__ is tuple: r = Poly({r: Fraction(1)})
        return r.scale(1/c)
    c, m, q = content(p)
    r = A('inv', q)
    t = normalize_mono(tuple((a, -e) for a, e in m)) if m else ()
    if t.__class__ is tuple: t = Poly({t: Fraction(1)})
    return (r*t).scale(1/c)

def isqrt_frac(c):
    import math
    n = math.isqrt(c.numerator); d = math.isqrt(c.denominator)
    if n*n == c.numerator and d*d == c.denominator: return Fraction(n, d)
    return None

def atom_nonneg(a):
    return _atoms[a].nonneg

def sqrt(p):
    c = p.const()
    if c is not None:
        if c < 0: return A('sqrt', p)
        r = isqrt_frac(c)
        if r is not None: return P(r)
        # c = n/d = n*d / d^2
        n = c.numerator*c.denominator
        k = 1; f = 2
        while f*f <= n and f < 2000:
            while n % (f*f) == 0: n //= f*f; k *= f
            f += 1
        return A('sqrt', P(n)).scale(Fraction(k, c.denominator))
    c, m, q = content(p)
    # pull out even powers of nonneg atoms
    if c < 0: c = -c; q = -q
    out = []; keep = []
    for a, e in m:
        if atom_nonneg(a) and e % 2 == 0: out.append((a, e//2))
        elif atom_nonneg(a) and abs(e) > 1 and e % 2: out.append((a, (e-1)//2)); keep.append((a, 1))
        else: keep.append((a, e))
    o = normalize_mono(tuple(out)) if out else ()
    if o.__class__ is tuple: o = Poly({o: Fraction(1)})
    k = Poly({tuple(keep): Fraction(1)}) if keep else ONE
    r = isqrt_frac(c)
    rest = k*q
    if r is not None:
        rc = rest.const()
        if rc == 1: return o.scale(r)
        return o.scale(r)*A('sqrt', rest)
    rc = rest.const()
    if rc == 1: return o*sqrt(P(c))
    return o*A('sqrt', rest.scale(c))

def exp(p):
    if p.is_zero(): return ONE
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1 and _atoms[m[0][0]].kind == 'log':
            return _atoms[m[0][0]].args[0]
    return A('exp', p)

def log(p):
    if p.const() == 1: return ZERO
    if len(p.d) == 1:
        (m, c), = p.d.items()
        # log(c * prod pos atoms)
        if c > 0 and all(_atoms[a].pos for a, e in m):
            r = ZERO if c == 1 else A('log', P(c))
            for a, e in m:
                at = _atoms[a]
                r = r + (at.args[0] if at.kind == 'exp' else A('log', from_atom(at))).scale(Fraction(e))
            return r
    return A('log', p)

def neg_lead(p):
    """True if the leading coefficient is negative (to normalise odd/even functions)"""
    return (not p.is_zero()) and p.d[max(p.d)] < 0

def cosh(p):
    if p.is_zero(): return ONE
    return A('cosh', -p if neg_lead(p) else p)
def sinh(p):
    if p.is_zero(): return ZERO
    a = as_single(p)
    if a is not None and a.kind == 'asinh': return a.args[0]
    return -A('sinh', -p) if neg_lead(p) else A('sinh', p)
def tanh(p):
    return sinh(p)/cosh(p)
def asinh(p):
    if p.is_zero(): return ZERO
    return A('asinh', p)
def as_single(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return _atoms[m[0][0]]
    return None
def cos(p):
    a = as_single(p)
    if a is not None and a.kind == 'atan2':
        y, x = a.args
        return x/sqrt(x*x+y*y)
    if p.is_zero(): return ONE
    return A('cos', -p if neg_lead(p) else p)
def sin(p):
    a = as_single(p)
    if a is not None and a.kind == 'atan2':
        y, x = a.args
        return y/sqrt(x*x+y*y)
    if p.is_zero(): return ZERO
    return -A('sin', -p) if neg_lead(p) else A('sin', p)
def tan(p): return sin(p)/cos(p)
def power(x, y):
    c = y.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 12: return x**int(c)
        if c == Fraction(1, 2): return sqrt(x)
    if x.const() == 1: return ONE
    return A('pow', x, y)
def cbrt(x):
    c = x.const()
    if c is not None:
        for s in range(0, 60):
            if c == s**3: return P(s)
    a = A('cbrt', x)
    return a
def chi(f):
    if f is True: return ONE
    if f is False: return ZERO
    return A('chi', f)

# ---------------------------------------------------------------- formulas
# True/False | ('lt',P) P<0 | ('le',P) | ('eq',P) | ('ne',P) | ('b',name)
# ('not',f) ('and',f,..) ('or',f,..)
def fkey(f):
    if f is True or f is False: return f
    return tuple(x.key() if isinstance(x, Poly) else fkey(x) if isinstance(x, tuple) else x for x in f)

def cmpf(op, a, b):
    d = P(a) - P(b)
    if op == '<': return _n('lt', d)
    if op == '<=': return _n('le', d)
    if op == '>': return _n('lt', -d)
    if op == '>=': return _n('le', -d)
    if op == '==': return _n('eq', d)
    if op == '!=': return _n('ne', d)
    raise ValueError(op)

def drop_pos(d):
    """divide by the common monomial of atoms known to be positive (sign preserving)"""
    it = iter(d.d); common = {a: e for a, e in next(it) if _atoms[a].pos}
    for m in it:
        if not common: return d
        dm = dict(m)
        for a in list(common):
            e = dm.get(a, 0); c = common[a]
            if (e > 0) != (c > 0) or e == 0: del common[a]
            elif abs(e) < abs(c): common[a] = e
    if not common: return d
    f = normalize_mono(tuple(sorted((a, -e) for a, e in common.items())))
    if f.__class__ is tuple: f = Poly({f: Fraction(1)})
    return d*f

def _n(k, d):
    c = d.const()
    if c is not None:
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[k]
    if len(d.d) > 1: d = drop_pos(d)
    # scale by positive constant: make |lead| = 1
    lead = d.d[max(d.d)]
    if k in ('eq', 'ne'):
        d = d.scale(1/lead)
    else:
        if abs(lead) != 1: d = d.scale(1/abs(lead))
        # integers: P<0  ->  P+1<=0 only if integral after scaling back
    return (k, d)

def lt(a, b): return cmpf('<', a, b)
def le(a, b): return cmpf('<=', a, b)
def gt(a, b): return cmpf('>', a, b)
def ge(a, b): return cmpf('>=', a, b)
def eq(a, b): return cmpf('==', a, b)
def ne(a, b): return cmpf('!=', a, b)

def NOT(f):
    if f is True: return False
    if f is False: return True
    k = f[0]
    if k == 'lt': return ('le', -f[1])
    if k == 'le': return ('lt', -f[1])
    if k == 'eq': return ('ne', f[1])
    if k == 'ne': return ('eq', f[1])
    if k == 'not': return f[1]
    if k == 'and': return OR(*[NOT(x) for x in f[1:]])
    if k == 'or': return AND(*[NOT(x) for x in f[1:]])
    return ('not', f)
def AND(*fs):
    out = []
    for f in fs:
        if f is False: return False
        if f is True: continue
        if f[0] == 'and': out.extend(f[1:])
        else: out.append(f)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and',) + tuple(out)
def OR(*fs):
    out = []
    for f in fs:
        if f is True: return True
        if f is False: continue
        if f[0] == 'or': out.extend(f[1:])
        else: out.append(f)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or',) + tuple(out)
def IMP(a, b): return OR(NOT(a), b)
def boolvar(name): return ('b', name)

def f_atoms(f, acc=None):
    if acc is None: acc = set()
    if f is True or f is False: return acc
    for x in f[1:]:
        if isinstance(x, Poly): acc |= x.atoms()
        elif isinstance(x, tuple): f_atoms(x, acc)
    return acc

def deep_atoms(ids):
    """closure under atom arguments"""
    seen = set(); st = list(ids)
    while st:
        a = st.pop()
        if a in seen: continue
        seen.add(a)
        for x in _atoms[a].args:
            if isinstance(x, Poly): st.extend(x.atoms())
            elif isinstance(x, tuple): st.extend(f_atoms(x))
    return seen

# ---------------------------------------------------------------- substitution
def subst(p, smap, cache=None):
    """smap: atom id -> Poly.  Rebuilds applications recursively."""
    if cache is None: cache = {}
    r = ZERO
    out = {}
    changed = []
    for m, c in p.d.items():
        fac = None; keep = []
        for a, e in m:
            q = _subst_atom(a, smap, cache)
            if q is None: keep.append((a, e))
            else:
                t = q**e if e >= 0 else inv(q)**(-e)
                fac = t if fac is None else fac*t
        if fac is None:
            v = out.get(m, 0)+c
            out[m] = v
        else:
            changed.append(fac*Poly({tuple(keep): c}))
    r = Poly({m: v for m, v in out.items() if v})
    for x in changed: r = r + x
    return r

def _subst_atom(a, smap, cache):
    if a in smap: return smap[a]
    if a in cache: return cache[a]
    at = _atoms[a]
    res = None
    if at.args:
        new = []; ch = False
        for x in at.args:
            if isinstance(x, Poly):
                y = subst(x, smap, cache)
                if y != x: ch = True
                new.append(y)
            elif isinstance(x, tuple):
                y = fsubst(x, smap, cache)
                if y is not x and fkey(y) != fkey(x): ch = True
                new.append(y)
            else: new.append(x)
        if ch: res = rebuild(at, new)
    cache[a] = res
    return res

def rebuild(at, args):
    k = at.kind
    if k == 'sqrt': return sqrt(args[0])
    if k == 'exp': return exp(args[0])
    if k == 'log': return log(args[0])
    if k == 'inv': return inv(args[0])
    if k == 'cosh': return cosh(args[0])
    if k == 'sinh': return sinh(args[0])
    if k == 'cos': return cos(args[0])
    if k == 'sin': return sin(args[0])
    if k == 'asinh': return asinh(args[0])
    if k == 'pow': return power(*args)
    if k == 'chi': return chi(args[0])
    a = _mk_atom(k, at.name, args, at.sort)
    a.nonneg = at.nonneg; a.pos = at.pos
    if at.id in _special: _special.add(a.id)
    return from_atom(a)

def fsubst(f, smap, cache=None):
    if cache is None: cache = {}
    if f is True or f is False: return f
    k = f[0]
    if k in ('lt', 'le', 'eq', 'ne'): return _n(k, subst(f[1], smap, cache))
    if k == 'not': return NOT(fsubst(f[1], smap, cache))
    if k == 'and': return AND(*[fsubst(x, smap, cache) for x in f[1:]])
    if k == 'or': return OR(*[fsubst(x, smap, cache) for x in f[1:]])
    return f

def diff(p, x):
    """derivative with respect to symbol poly x"""
    xa = the_atom(x)
    r = ZERO
    for m, c in p.d.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, xa)
            if da.is_zero(): continue
            rest = list(m)
            if e == 1: rest.pop(i)
            else: rest[i] = (a, e-1)
            mm = normalize_mono(tuple(rest))
            if mm.__class__ is tuple: mm = Poly({mm: Fraction(1)})
            r = r + (mm*da).scale(c*e)
    return r

def diff_atom(a, xa):
    if a == xa: return ONE
    at = _atoms[a]
    x = from_atom(_atoms[xa])
    if not at.args: return ZERO
    if at.kind in ('sqrt', 'exp', 'log', 'inv', 'cosh', 'sinh', 'cos', 'sin', 'cbrt', 'asinh'):
        u = at.args[0]; du = diff(u, x)
        if du.is_zero(): return ZERO
        me = from_atom(at)
        if at.kind == 'sqrt': return du*inv(me).scale(Fraction(1, 2))
        if at.kind == 'exp': return me*du
        if at.kind == 'log': return du/u
        if at.kind == 'inv': return -(me*me*du)
        if at.kind == 'cosh': return sinh(u)*du
        if at.kind == 'sinh': return cosh(u)*du
        if at.kind == 'cos': return -(sin(u)*du)
        if at.kind == 'sin': return cos(u)*du
        if at.kind == 'asinh': return du*inv(sqrt(u*u+1))
        if at.kind == 'cbrt': return du*inv((me*me).scale(Fraction(3)))
    if not (deep_atoms([a]) & {xa}): return ZERO
    raise ValueError('cannot differentiate %r' % at)

def canon(p):
    """normal form of an argument: in every monomial the leading monomial of D times inv(D) is rewritten by D*inv(D) = 1"""
    if not isinstance(p, Poly): return p
    for _ in range(300):
        hit = None
        for m in p.d:
            for a, e in m:
                if e > 0 and _atoms[a].kind == 'inv':
                    D = _atoms[a].args[0]; L = max(D.d); d = dict(m)
                    if L and all(d.get(b, 0) >= f for b, f in L): hit = (m, a, D, L); break
            if hit: break
        if not hit: return p
        m, a, D, L = hit; c = p.d[m]; d = dict(m)
        for b, f in L: d[b] -= f
        d[a] -= 1
        rest = Poly({tuple(sorted((b, f) for b, f in d.items() if f)): c/D.d[L]})
        lead = Poly({L: D.d[L]})
        p = (p-Poly({m: c}))+rest*(ONE-(D-lead)*Poly({((a, 1),): Fraction(1)}))
    return p

def _canoned(f):
    def g(p, *r):
        return f(canon(p), *r)
    g.__name__ = f.__name__; return g
for _f in ('exp', 'log', 'sinh', 'cosh', 'asinh', 'sqrt', 'cos', 'sin', 'power'): globals()[_f] = _canoned(globals()[_f])

def clear_inv(p):
    """p == 0  <=>  returned poly == 0 (given the denominators are nonzero).
    Multiplies out inv atoms and negative exponents."""
    while True:
        invs = {}
        for m in p.d:
            for a, e in m:
                if _atoms[a].kind == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
        if not invs: break
        a = max(invs); K = invs[a]; y = _atoms[a].args[0]
        ypow = [ONE]
        for _ in range(K): ypow.append(ypow[-1]*y)
        r = ZERO
        for m, c in p.d.items():
            e = 0; rest = []
            for b, f in m:
                if b == a: e = f
                else: rest.append((b, f))
            t = Poly({tuple(rest): c})
            r = r + t*ypow[K-e]
        p = r
    # negative exponents
    neg = {}
    for m in p.d:
        for a, e in m:
            if e < 0: neg[a] = min(neg.get(a, 0), e)
    if neg:
        mul = tuple(sorted((a, -e) for a, e in neg.items()))
        r = ZERO
        for m, c in p.d.items():
            mm = mono_mul(m, mul)
            if mm.__class__ is tuple: mm = Poly({mm: Fraction(1)})
            r = r + mm.scale(c)
        return clear_inv(r) if any(_atoms[a].kind == 'inv' for a in r.atoms()) else r
    return p

def atom_str(a):
    if a.kind == 'sym': return a.name
    s = ','.join(poly_str(x) if isinstance(x, Poly) else f_str(x) if isinstance(x, tuple) else str(x) for x in a.args)
    return '%s%s(%s)' % (a.kind, (':'+a.name) if a.name else '', s)

def poly_str(p):
    if not p.d: return '0'
    out = []
    for m, c in sorted(p.d.items()):
        fs = []
        if c != 1 or not m:
            if c.denominator == 1: fs.append(str(c))
            else:
                f = float(c)
                fs.append(str(c) if len(str(c)) < 12 else repr(f))
        for a, e in m:
            fs.append(atom_str(_atoms[a]) + ('' if e == 1 else '^%d' % e))
        out.append('*'.join(fs))
    s = ' + '.join(out)
    return s if len(s) < 2000 else s[:2000]+'...'

def f_str(f):
    if f is True or f is False: return str(f)
    k = f[0]
    if k == 'b': return f[1]
    if k in ('lt', 'le', 'eq', 'ne'):
        return '(%s %s 0)' % (poly_str(f[1]), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[k])
    return '%s(%s)' % (k, ', '.join(f_str(x) for x in f[1:]))
