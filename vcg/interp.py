"""Symbolic execution / VC generation over clang's AST of the real sources.

One path of one function is executed with symbolic inputs; undecided branches
fork by re-execution.  Loops over symbolic ranges are executed for one generic
iteration over havocked modified state (so the result covers every iteration);
stencil loops have constant trip count and are unrolled exactly.  Anything not
understood raises Unsupported - never a silent approximation.
"""
import re, time, json
from fractions import Fraction
from . import term as tm
from .term import Poly, P, ZERO, ONE, A, sym, NOT, AND, OR
from . import smt
import z3

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v
class AbortPath(Exception): pass

def loc(n):
    r = n.get('range', {}).get('begin', {})
    for k in ('expansionLoc', 'spellingLoc'):
        if k in r: r = r[k]; break
    return r.get('line'), r.get('offset')

# ------------------------------------------------------------------ values
class Uninit:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'uninit(%s)' % self.name

class Mat:
    __slots__ = ('r', 'c', 'e', 'arr')
    def __init__(self, r, c, e, arr=False):
        self.r = r; self.c = c; self.e = list(e); self.arr = arr
    def __getitem__(self, ij):
        return self.e[ij[0]*self.c+ij[1]]
    def copy(self): return Mat(self.r, self.c, self.e, self.arr)
    def map(self, f): return Mat(self.r, self.c, [f(x) for x in self.e], self.arr)
    def T(self): return Mat(self.c, self.r, [self[i, j] for j in range(self.c) for i in range(self.r)], self.arr)
    def key(self): return (self.r, self.c) + tuple(x.key() for x in self.e)
    def __repr__(self): return 'Mat%dx%d%r' % (self.r, self.c, self.e)

def mat_mul(a, b):
    if a.c != b.r: raise Unsupported('matrix shapes %dx%d * %dx%d' % (a.r, a.c, b.r, b.c))
    return Mat(a.r, b.c, [sum((a[i, k]*b[k, j] for k in range(a.c)), ZERO) for i in range(a.r) for j in range(b.c)])
def mat_add(a, b):
    if (a.r, a.c) != (b.r, b.c): raise Unsupported('matrix shapes in +')
    return Mat(a.r, a.c, [x+y for x, y in zip(a.e, b.e)], a.arr)
def mat_sub(a, b):
    if (a.r, a.c) != (b.r, b.c): raise Unsupported('matrix shapes in -')
    return Mat(a.r, a.c, [x-y for x, y in zip(a.e, b.e)], a.arr)
def mat_scale(a, s): return a.map(lambda x: x*s)
def mat_dot(a, b): return sum((x*y for x, y in zip(a.e, b.e)), ZERO)
def mat_zero(r, c): return Mat(r, c, [ZERO]*(r*c))
def mat_id(n): return Mat(n, n, [ONE if i == j else ZERO for i in range(n) for j in range(n)])
def mat_det(m):
    if m.r == 1: return m[0, 0]
    if m.r == 2: return m[0, 0]*m[1, 1]-m[0, 1]*m[1, 0]
    return sum((m[0, j]*(m[1, (j+1) % 3]*m[2, (j+2) % 3]-m[1, (j+2) % 3]*m[2, (j+1) % 3]) for j in range(3)), ZERO)
def mat_inv(m):
    d = tm.inv(mat_det(m))
    if m.r == 1: return Mat(1, 1, [d])
    if m.r == 2: return Mat(2, 2, [m[1, 1]*d, -m[0, 1]*d, -m[1, 0]*d, m[0, 0]*d])
    def cof(i, j):
        a, b = (i+1) % 3, (i+2) % 3; c, e = (j+1) % 3, (j+2) % 3
        return m[a, c]*m[b, e]-m[a, e]*m[b, c]
    return Mat(3, 3, [cof(j, i)*d for i in range(3) for j in range(3)])

class VecVal:
    """std::vector of symbolic length.  Immutable.
    base: ('sym',name) | ('fill',val) | ('fn',f) | ('list',tuple)
    over: tuple of (idx Poly, value) newest last;   adds: tuple of (idx, delta)"""
    __slots__ = ('n', 'et', 'base', 'over', 'adds', 'tag')
    def __init__(self, n, et, base, over=(), adds=(), tag=None):
        self.n = P(n); self.et = et; self.base = base; self.over = over; self.adds = adds; self.tag = tag
    def __repr__(self): return 'Vec(n=%r,base=%r,over=%r,adds=%d)' % (self.n, self.base[:2], self.over, len(self.adds))

class ObjVal:
    _n = 0
    def __init__(self, cls, name, fields=None):
        self.cls = cls; self.name = name; self.f = fields if fields is not None else {}
    def __repr__(self): return 'Obj<%s %s>' % (self.cls, self.name)
    def copy(self):
        return ObjVal(self.cls, self.name, {k: (v.copy() if isinstance(v, (Mat, ObjVal)) else v) for k, v in self.f.items()})

class PtrVal:
    def __init__(self, obj): self.obj = obj
class IterVal:
    def __init__(self, lv, pos): self.lv = lv; self.pos = pos
class ExtremeIter:
    """result of max_element/min_element"""
    def __init__(self, val): self.val = val
class SVD:
    def __init__(self, U, S, V): self.U = U; self.S = S; self.V = V
class Closure:
    def __init__(self, tu, node, frame, this): self.tu = tu; self.node = node; self.frame = frame; self.this = this
class Opaque:
    def __init__(self, what): self.what = what
    def __repr__(self): return 'Opaque(%s)' % self.what
class StrVal(Opaque):
    """a string: concatenation of literals (str), decimal renderings of integers (Poly) and unknown strings (their name in a tuple)"""
    def __init__(self, parts):
        self.what = 'str'; self.parts = []
        for x in parts:
            if isinstance(x, str) and self.parts and isinstance(self.parts[-1], str): self.parts[-1] += x
            elif x != '': self.parts.append(x)
    def __repr__(self): return 'Str(%s)' % self.parts
class Stream(Opaque):
    """an output stream: the path it was opened with and the values written to it"""
    def __init__(self, path=None): self.what = 'stream'; self.path = path; self.items = []
def str_parts(v):
    if isinstance(v, StrVal): return list(v.parts)
    if isinstance(v, Opaque): return [('string', v.what)]
    return None
class FuncRef:
    def __init__(self, tu, decl): self.tu = tu; self.decl = decl
class CommaInit:
    def __init__(self, lv, pos): self.lv = lv; self.pos = pos

# ------------------------------------------------------------------ lvalues
class LV:
    pass
class VarLV(LV):
    def __init__(self, d, k): self.d = d; self.k = k
    def get(self, X):
        if X.mon: X.mon.acc('r', self)
        return self.d[self.k]
    def set(self, X, v):
        if X.mon: X.mon_write(self, v)
        X.write(self.d, self.k, v)
class FieldLV(LV):
    def __init__(self, o, k): self.o = o; self.k = k
    def get(self, X):
        r = X.field(self.o, self.k)
        if X.mon: X.mon.acc('r', self)
        return r
    def set(self, X, v):
        X.field(self.o, self.k, True)
        if X.mon: X.mon_write(self, v)
        X.write(self.o.f, self.k, v)
class TempLV(LV):
    def __init__(self, v): self.v = v
    def get(self, X): return self.v
    def set(self, X, v): self.v = v
class ElemLV(LV):
    """vector element"""
    def __init__(self, vlv, idx): self.vlv = vlv; self.idx = idx
    def get(self, X): return X.vec_get(self.vlv, self.idx)
    def set(self, X, v): X.vec_set(self.vlv, self.idx, v)
class EntLV(LV):
    """matrix entry"""
    def __init__(self, mlv, i, j): self.mlv = mlv; self.i = i; self.j = j
    def get(self, X):
        m = self.mlv.get(X)
        if isinstance(m, Uninit): return Uninit(m.name)
        return m[self.i, self.j]
    def set(self, X, v):
        m = self.mlv.get(X)
        if isinstance(m, Uninit): m = Mat(m.rc[0], m.rc[1], [Uninit(m.name)]*(m.rc[0]*m.rc[1]))
        e = list(m.e); e[self.i*m.c+self.j] = v
        self.mlv.set(X, Mat(m.r, m.c, e, m.arr))

# ------------------------------------------------------------------ types
_mrx = re.compile(r'Eigen::(Matrix|Array)<\s*(?:double|float|T|[\w:]*T)\s*,\s*(-?\d+)\s*,\s*(-?\d+)')
def tstr(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''
def mat_dims(t):
    m = _mrx.search(t)
    if m: return int(m.group(2)), int(m.group(3)), m.group(1) == 'Array'
    return None
INTS = {'int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned short', 'size_t', 'long long', 'unsigned long long', 'std::size_t', 'char', 'unsigned char', 'signed char', 'uint32_t', 'std::uint32_t'}
def clean(t):
    t = t.replace('const ', '').replace('VREPO::', '').replace(' const', '').strip()
    while t.endswith('&') or t.endswith('*'): t = t[:-1].strip()
    return t
def is_int_t(t): return clean(t) in INTS
def is_uns_t(t):
    c = clean(t); return c in INTS and ('unsigned' in c or 'size_t' in c or 'uint' in c)
def is_real_t(t): return clean(t) in ('double', 'float', 'T', 'long double')
def is_bool_t(t): return clean(t) == 'bool'
def elem_type(t):
    """element type string of std::vector<...>"""
    i = t.find('vector<')
    if i < 0: return None
    i += 7; d = 0; out = ''
    for ch in t[i:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0: break
        out += ch
    return out.strip()

class Config:
    """per-property configuration of the executor"""
    def __init__(self):
        self.contracts = {}      # qname -> handler(X, this, args, node)
        self.typedefs = {}
        self.merge = True
        self.merge_all = False   # merge every branch without jumps into defined symbols
        self.fork_z3_ms = 300
        self.nl_decide = False
        self.max_paths = 4000
        self.newton = None
        self.streams = False     # model output streams and strings

class Path:
    """result of one path"""
    pass

PLAIN = {'IntegerLiteral', 'DeclRefExpr', 'ImplicitCastExpr', 'ParenExpr', 'UnaryOperator', 'BinaryOperator', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'MemberExpr', 'CXXThisExpr'}
def plain(n):
    """an integer expression with no side effect and no obligation of its own"""
    if n.get('kind') == 'CXXThisExpr': return True
    if n.get('kind') not in PLAIN or not is_int_t(tstr(n)): return False
    if n['kind'] == 'BinaryOperator' and n.get('opcode') not in ('+', '-', '*'): return False
    if n['kind'] == 'UnaryOperator' and n.get('opcode') not in ('+', '-'): return False
    return all(plain(c) for c in n.get('inner', ()) if isinstance(c, dict) and 'kind' in c)

class Exec:
    def __init__(self, prog, cfg, prefix):
        self.prog = prog; self.cfg = cfg
        self.prefix = prefix; self.taken = []; self.pending = []
        self.pc = []; self.pcset = set(); self.decided = set()
        self.journal = None
        self.obs = []        # (kind, name, formula, pclen)
        self.events = []
        self.ownmap = []; self.touched = set()
        self.chain = {}      # result of an inner own-index loop -> vector it started from
        self.scat = {}       # opaque name -> record
        self.gens = {}       # range key -> generic symbol
        self.ites = {}; self.fresh_i = 0
        self.solver = None; self.icache = {}
        self.unroll = 0
        self.svdtab = {}; self.in_newton = 0
        self.depth = 0
        self.omp = []        # stack of enclosing omp constructs
        self.loopctx = []
        self.callstack = []
        self.selinfo = {}
        self.t0 = time.time()
        self.typealias = {}
        self.mon = None      # ownership monitor (race.py)
    def mon_write(self, lv, v):
        m = self.mon
        if m.region is None or m.silent: return
        old = (lv.o.f if isinstance(lv, FieldLV) else lv.d).get(lv.k)
        d = None
        if isinstance(v, Poly) and isinstance(old, Poly): d = v-old
        elif isinstance(v, Mat) and isinstance(old, Mat) and (v.r, v.c) == (old.r, old.c) and all(isinstance(x, Poly) for x in v.e+old.e): d = mat_sub(v, old)
        m.acc('w', lv, None, d, v)
    # ---------------------------------------------------------------- misc
    def fresh(self, base, sort='R', **kw):
        self.fresh_i += 1
        return sym('%s#%d' % (base, self.fresh_i), sort, **kw)
    def freshname(self, base):
        self.fresh_i += 1
        return '%s#%d' % (base, self.fresh_i)
    def write(self, d, k, v):
        if self.journal is not None:
            self.journal.append((d, k, d.get(k, _MISSING)))
        for lc in self.loopctx: lc.wrote(d, k)
        d[k] = v
    def assume(self, f):
        if f is True: return
        if f is False: raise Infeasible()
        if f[0] == 'and':
            for x in f[1:]: self.assume(x)
            return
        k = tm.fkey(f)
        if k in self.pcset: return
        self.pcset.add(k); self.pc.append(f)
    def oblige(self, kind, name, f):
        if f is True:
            self.obs.append((kind, name, True, len(self.pc)))
            return
        self.obs.append((kind, name, f, len(self.pc)))
    def _sync(self, nl=False):
        S = self.solver
        if S is None: S = self.solver = {}
        if nl not in S:
            z = z3.Solver(); z.set('timeout', self.cfg.fork_z3_ms)
            S[nl] = [z, smt.Enc(), 0, 0]
        L = S[nl]
        while L[2] < len(self.pc):
            f = self.pc[L[2]]; L[2] += 1
            if not nl and nonlinear(f): continue
            L[0].add(L[1].form(f))
        self._axs(L)
        return L
    def _axs(self, L):
        while L[3] < len(L[1].ax):
            L[0].add(L[1].ax[L[3]]); L[3] += 1
    def implied(self, f):
        """pc |= f (quick)"""
        if f is True: return True
        if f is False: return False
        if tm.fkey(f) in self.pcset: return True
        if f[0] == 'le' and tm.fkey(('lt', f[1])) in self.pcset: return True
        if f[0] == 'ne' and (tm.fkey(('lt', f[1])) in self.pcset or tm.fkey(('lt', -f[1])) in self.pcset): return True
        q = quick(f)
        if q is not None: return q
        nl = nonlinear(f)
        if nl and not self.cfg.nl_decide: return False
        k = (tm.fkey(f), len(self.pc))
        if k in self.icache: return self.icache[k]
        L = self._sync(nl)
        z = L[1].form(NOT(f)); self._axs(L)
        L[0].push(); L[0].add(z)
        r = L[0].check()
        L[0].pop()
        self.icache[k] = r == z3.unsat
        return r == z3.unsat
    def decide(self, f, why=''):
        if f is True or f is False: return f
        i = len(self.taken)
        if self.implied(f): return True
        if self.implied(NOT(f)): return False
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append(self.taken + [False])
        self.taken.append(v)
        g = f if v else NOT(f)
        self.decided.add(tm.fkey(g))
        self.assume(g)
        return v
    # ---------------------------------------------------------------- type-driven values
    def symval(self, t, name):
        """fresh symbolic value of C++ type t"""
        d = mat_dims(t)
        if d and 'vector<' not in t:
            r, c, arr = d
            return Mat(r, c, [sym('%s.%d%d' % (name, i, j) if c > 1 else '%s.%d' % (name, i)) for i in range(r) for j in range(c)], arr)
        c = clean(t)
        if 'vector<' in t:
            et = elem_type(t)
            return VecVal(sym('len(%s)' % name, 'I', nonneg=True), et, ('sym', name))
        if c in INTS: return sym(name, 'I', nonneg=is_uns_t(t))
        if is_real_t(t): return sym(name)
        if c == 'bool': return tm.boolvar(name)
        if c.split('::')[-1] in self.prog.enumtypes:
            s = sym(name, 'I', nonneg=True)
            self.assume(tm.lt(s, self.prog.enumtypes[c.split('::')[-1]]))
            return s
        if c.split('::')[-1] in self.prog.records: return ObjVal(c.split('::')[-1], name)
        if 'std::' in t or 'basic_string' in t or 'chrono' in t: return Opaque(name)
        a = self.alias(c)
        if a: return self.symval(a, name)
        raise Unsupported('symbolic value of type %s (%s)' % (t, name))
    def alias(self, c):
        n = self.prog.dim
        return {'TV': 'Eigen::Matrix<double, %d, 1>' % n, 'TM': 'Eigen::Matrix<double, %d, %d>' % (n, n), 'TA': 'Eigen::Array<double, %d, 1>' % n,
                'std::vector<TV>': 'std::vector<Eigen::Matrix<double, %d, 1>>' % n, 'std::vector<TM>': 'std::vector<Eigen::Matrix<double, %d, %d>>' % (n, n)}.get(c)
    def field(self, o, k, forwrite=False):
        if k in o.f: return o.f[k]
        t = self.field_type(o.cls, k)
        nm = (o.name + '.' + k) if o.name else k
        if forwrite and not ('vector<' in t): 
            o.f[k] = None; return None
        v = self.symval(t, nm)
        o.f[k] = v       # lazily created initial value: not a write
        return v
    def field_type(self, cls, k):
        c = cls
        while c:
            if c not in self.prog.records: break
            tu, rec = self.prog.records[c]
            for x in rec.get('inner', ()):
                if x.get('kind') == 'FieldDecl' and x.get('name') == k:
                    return self.vartype(x)
            b = rec.get('bases') or []
            c = clean(b[0]['type']['qualType']).split('::')[-1] if b else None
        raise Unsupported('field %s::%s' % (cls, k))
    def vartype(self, x):
        t = tstr(x)
        q = x.get('type', {}).get('qualType', '')
        c = clean(q)
        a = self.alias(c)
        if a: return a + ('&' if q.strip().endswith('&') else '')
        m = re.match(r'^(?:std::)?vector<(TV|TM|T)>$', c)
        if m: return 'std::vector<%s>' % (self.alias(m.group(1)) or 'double')
        return t
    def default_val(self, t, name):
        """value-initialised / default-constructed"""
        d = mat_dims(t)
        if d and 'vector<' not in t:
            u = Uninit(name); u.rc = (d[0], d[1]); return u
        ca = re.match(r'^\s*(?:const\s+)?([\w:<>, ]+?)\s*\[(\d+)\]$', t) or re.match(r'^\s*(?:const\s+)?(?:std::)?array<(.+),\s*(\d+)(?:UL|ul|U|u)?>\s*$', t)
        if ca and int(ca.group(2)) <= 64:
            return VecVal(int(ca.group(2)), ca.group(1), ('list', tuple(self.default_val(ca.group(1), name) for _ in range(int(ca.group(2))))))
        if 'vector<' in t: return VecVal(0, elem_type(t), ('list', ()))
        c = clean(t)
        a = self.alias(c)
        if a: return self.default_val(a, name)
        if c in INTS or is_real_t(t) or c == 'bool' or c.split('::')[-1] in self.prog.enumtypes: return Uninit(name)
        if c.split('::')[-1] in self.prog.records: return ObjVal(c.split('::')[-1], name)
        return Opaque(t)
    def rd(self, v, what=''):
        if isinstance(v, Uninit):
            self.oblige('init', 'read of uninitialised %s' % v.name, False)
            s = self.fresh('uninit_'+v.name)
            if hasattr(v, 'rc'): return Mat(v.rc[0], v.rc[1], [self.fresh('uninit_'+v.name) for _ in range(v.rc[0]*v.rc[1])])
            return s
        if isinstance(v, Mat) and any(isinstance(x, Uninit) for x in v.e):
            nm = [x.name for x in v.e if isinstance(x, Uninit)][0]
            self.oblige('init', 'read of uninitialised entry of %s' % nm, False)
            return v.map(lambda x: self.fresh('uninit') if isinstance(x, Uninit) else x)
        return v
    # ---------------------------------------------------------------- vectors
    def elem_sym(self, et, name, idx):
        v = self.elem_sym0(et, name, idx)
        if name.startswith('loop.'):
            for e in (v.e if isinstance(v, Mat) else [v] if isinstance(v, Poly) else []): self.touched |= e.atoms() if isinstance(e.atoms(), set) else set(e.atoms())
        return v
    def elem_sym0(self, et, name, idx):
        d = mat_dims(et)
        if d is None:
            a = self.alias(clean(et)); 
            if a: d = mat_dims(a)
        if d:
            r, c, arr = d
            return Mat(r, c, [A('sel', idx, name='%s.%d%d' % (name, i, j) if c > 1 else '%s.%d' % (name, i)) for i in range(r) for j in range(c)], arr)
        if is_real_t(et): return A('sel', idx, name=name)
        if is_int_t(et): return A('sel', idx, name=name, sort='I')
        m = re.match(r'(?:std::)?array<\s*[^,]+,\s*(\d+)', et)
        if m:
            k = int(m.group(1))
            return VecVal(k, 'double', ('list', tuple(A('sel', idx, name='%s.%d' % (name, i)) for i in range(k))))
        if 'unique_ptr' in et or 'shared_ptr' in et or et.strip().endswith('*'):
            m = re.search(r'(\w+)\s*[>*,]', et.replace('VREPO::', '').split('ptr<')[-1])
            return PtrVal(ObjVal(m.group(1), '%s[%s]' % (name, tm.poly_str(idx))))
        raise Unsupported('element type %s' % et)
    def vec_base(self, v, idx):
        b = v.base
        if b[0] == 'sym': return self.elem_sym(v.et, b[1], idx)
        if b[0] == 'fill': return b[1].copy() if isinstance(b[1], Mat) else b[1]
        if b[0] == 'fn': return b[1](idx)
        if b[0] == 'list':
            c = idx.const()
            if c is None:
                for k in range(len(b[1])):
                    if self.decide(tm.eq(idx, k)): return b[1][k]
                raise Unsupported('symbolic index into list')
            if c.denominator != 1 or not (0 <= c < len(b[1])):
                self.oblige('bounds', 'index %s out of range' % c, False); raise AbortPath()
            x = b[1][int(c)]
            return x.copy() if isinstance(x, Mat) else x
        raise Unsupported('vector base')
    def distinct(self, a, b):
        d = a-b
        c = d.const()
        if c is not None: return c != 0
        if d.is_zero(): return False
        if self.strides_distinct(d): return True
        return None
    def strides_distinct(self, d):
        """d = c2*Ny*Nz + c1*Nz + c0 (small constants) with Ny,Nz >= 4 known -> nonzero"""
        st = self.cfg.__dict__.get('strides')
        if not st: return False
        c = {}
        for m, v in d.d.items():
            if m == (): c[0] = v; continue
            key = tuple(m)
            if key in st: c[st[key]] = v
            else: return False
        for lvl in sorted(c, reverse=True):
            if c[lvl]:
                return all(abs(c.get(l, 0)) <= 3 for l in c)
        return False
    def bounds(self, v, idx, nm):
        f = AND(tm.ge(idx, 0), tm.lt(idx, v.n))
        self.oblige('bounds', 'index of %s in range' % nm, f)
    def vname(self, lv):
        if isinstance(lv, FieldLV): return (lv.o.name+'.' if lv.o.name else '')+lv.k
        if isinstance(lv, VarLV): return str(self.frame_names.get(lv.k, lv.k)) if hasattr(self, 'frame_names') else str(lv.k)
        return 'vector'
    def vec_get(self, vlv, idx, check=True):
        if self.mon:
            if check: self.mon.acc('r', vlv, idx)
            self.mon.silent += 1
            try: v = self.rd(vlv.get(self))
            finally: self.mon.silent -= 1
        else: v = self.rd(vlv.get(self))
        if isinstance(v, Mat):   # TV[i]
            c = idx.const()
            if c is None: raise Unsupported('symbolic component')
            return v.e[int(c)]
        if check: self.bounds(v, idx, self.vname(vlv))
        val = None
        for i in range(len(v.over)-1, -1, -1):
            j, w = v.over[i]
            d = self.distinct(j, idx)
            if d is None:
                d = not self.decide(tm.eq(j, idx))
            if not d:
                val = w; break
        if val is None: val = self.vec_base(v, idx)
        for j, dl in v.adds:
            d = self.distinct(j, idx)
            if d is None: d = not self.decide(tm.eq(j, idx))
            if not d: val = self.add(val, dl)
        return val.copy() if isinstance(val, Mat) else val
    def add(self, a, b):
        if isinstance(a, Mat): return mat_add(a, b)
        return a+b
    def vec_set(self, vlv, idx, val):
        if self.mon:
            if self.mon.region is not None and not self.mon.silent:
                self.mon.silent += 1
                try: old = self.vec_get(vlv, idx, check=False)
                finally: self.mon.silent -= 1
                d = None
                try: d = mat_sub(val, old) if isinstance(val, Mat) else val-old
                except Exception: pass
                self.mon.acc('w', vlv, idx, d)
            self.mon.silent += 1
            try: return self.vec_set_(vlv, idx, val)
            finally: self.mon.silent -= 1
        return self.vec_set_(vlv, idx, val)
    def vec_set_(self, vlv, idx, val):
        v = self.rd(vlv.get(self))
        if isinstance(v, Mat):
            c = idx.const(); 
            if c is None: raise Unsupported('symbolic component')
            e = list(v.e); e[int(c)] = val
            vlv.set(self, Mat(v.r, v.c, e, v.arr)); return
        self.bounds(v, idx, self.vname(vlv))
        if v.base[0] == 'list' and idx.const() is not None and not v.over:
            l = list(v.base[1]); c = int(idx.const())
            if 0 <= c < len(l):
                l[c] = val; vlv.set(self, VecVal(v.n, v.et, ('list', tuple(l)))); return
        if v.adds:
            # fold pending adds at the same index; others must be distinct
            adds = []
            for j, dl in v.adds:
                d = self.distinct(j, idx)
                if d is None: d = not self.decide(tm.eq(j, idx))
                if d: adds.append((j, dl))
            v = VecVal(v.n, v.et, v.base, v.over, tuple(adds), v.tag)
        over = tuple((j, w) for j, w in v.over if self.distinct(j, idx) is not False)
        vlv.set(self, VecVal(v.n, v.et, v.base, over+((idx, val),), v.adds, v.tag))
    def vec_add(self, vlv, idx, delta):
        """v[idx] += delta without reading (used when the vector is havocked in a loop)"""
        if self.mon:
            self.mon.acc('r', vlv, idx); self.mon.acc('w', vlv, idx, delta)
            self.mon.silent += 1
            try: return self.vec_add_(vlv, idx, delta)
            finally: self.mon.silent -= 1
        return self.vec_add_(vlv, idx, delta)
    def vec_add_(self, vlv, idx, delta):
        v = self.rd(vlv.get(self))
        self.bounds(v, idx, self.vname(vlv))
        adds = list(v.adds)
        for i, (j, dl) in enumerate(adds):
            if self.distinct(j, idx) is False:
                adds[i] = (j, self.add(dl, delta)); break
        else: adds.append((idx, delta))
        vlv.set(self, VecVal(v.n, v.et, v.base, v.over, tuple(adds), v.tag))
    # ---------------------------------------------------------------- calls
    def call_named(self, qname, this, args):
        tu, node = self.prog.find(qname)
        return self.call(tu, node, this, args)
    def call(self, tu, node, this, args):
        """args: list of LV or values"""
        if self.depth > 40: raise Unsupported('recursion')
        frame = {}
        ps = [c for c in node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for i, pd in enumerate(ps):
            t = pd.get('type', {}).get('qualType', '')
            if i < len(args): a = args[i]
            else:
                de = [c for c in pd.get('inner', ()) if 'kind' in c]
                if not de: raise Unsupported('missing argument')
                a = self.ev(Ctx(tu, {}, this), de[0])
            ref = t.strip().endswith('&')
            if ref:
                frame[pd['id']] = a if isinstance(a, LV) else TempLV(a)
            else:
                v = a.get(self) if isinstance(a, LV) else a
                v = self.rd(v)
                v = self.coerce(v, self.vartype(pd))
                frame[pd['id']] = v.copy() if isinstance(v, (Mat, ObjVal)) else v
        body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][-1]
        self.depth += 1
        self.callstack.append(node.get('name'))
        try:
            self.ex(Ctx(tu, frame, this), body)
            return None
        except ReturnX as r:
            v = r.v
            rt = node.get('type', {}).get('qualType', '').split('(')[0].strip()
            if not rt.endswith('&') and isinstance(v, LV): v = self.rd(v.get(self))
            if not isinstance(v, LV) and v is not None: v = self.coerce(v, self.alias(clean(rt)) or rt)
            return v.copy() if isinstance(v, Mat) else v
        finally:
            self.depth -= 1
            self.callstack.pop()
    def coerce(self, v, t):
        if v is None: return v
        if is_bool_t(t):
            if isinstance(v, Poly): return tm.ne(v, 0)
            return v
        if is_int_t(t):
            if isinstance(v, Poly): return self.to_int(v, is_uns_t(t))
            if v is True or v is False or isinstance(v, tuple): return ONE if self.decide(v) else ZERO
        if is_real_t(t) and (v is True or v is False or isinstance(v, tuple)): return ONE if self.decide(v) else ZERO
        return v
    def to_int(self, v, unsigned):
        if v.is_int():
            if unsigned:
                c = v.const()
                if c is None: self.oblige('conv', 'value converted to unsigned is non-negative', tm.ge(v, 0))
                elif c < 0: self.oblige('conv', 'value converted to unsigned is non-negative', False); raise AbortPath()
            return v
        c = v.const()
        if c is not None:
            import math
            return P(math.trunc(c))
        # truncation
        if self.decide(tm.ge(v, 0)):
            return self.floor(v)
        if unsigned: self.oblige('conv', 'value converted to unsigned is > -1', tm.gt(v, -1))
        return self.ceil(v)
    def floor(self, v):
        if v.is_int(): return v
        c = v.const()
        if c is not None: return P(c.numerator // c.denominator)
        ip = {}; rest = {}
        for m, k in v.d.items():
            isint = all(e > 0 and tm._atoms[a].sort == 'I' for a, e in m)
            if isint and m:
                if k.denominator == 1: ip[m] = k
                else: rest[m] = k
            elif not m:
                f = k.numerator // k.denominator
                if f: ip[m] = Fraction(f)
                if k-f: rest[m] = k-f
            else: rest[m] = k
        I = Poly(ip); R = Poly(rest)
        if R.is_zero(): return I
        for k in (0, -1, 1, -2, 2):
            if self.implied(tm.ge(R, k)) and self.implied(tm.lt(R, k+1)): return I + k
        lo = hi = None
        for k in range(-3, 4):
            if self.implied(tm.ge(R, k)): lo = k
        for k in range(4, -4, -1):
            if self.implied(tm.lt(R, k)): hi = k
        if lo is not None and hi is not None and hi-lo <= 4:
            for k in range(lo, hi-1):
                if self.decide(tm.lt(R, k+1)): return I + k
            return I + hi - 1
        return I + A('floor', R, sort='I')
    def ceil(self, v):
        return -self.floor(-v)
    def maxv(self, a, b):
        if isinstance(a, (Mat,)): raise Unsupported('max of mats')
        if self.implied(tm.le(a, b)): return b
        if self.implied(tm.le(b, a)): return a
        if self.cfg.merge_all or self.in_newton: return self.ite(tm.lt(a, b), b, a)
        return b if self.decide(tm.lt(a, b)) else a
    def minv(self, a, b):
        if self.implied(tm.le(b, a)): return b
        if self.implied(tm.le(a, b)): return a
        if self.cfg.merge_all or self.in_newton: return self.ite(tm.lt(b, a), b, a)
        return b if self.decide(tm.lt(b, a)) else a
    def absv(self, a):
        c = a.const()
        if c is not None: return P(abs(c))
        if len(a.d) == 1:
            (m, c), = a.d.items()
            if all(tm._atoms[x].nonneg for x, e in m): return a if c > 0 else -a
        return a if self.decide(tm.ge(a, 0)) else -a
    def div(self, a, b, what='division'):
        c = b.const()
        if c is not None and c == 0:
            self.oblige('div', 'division by zero', False); raise AbortPath()
        if c is None:
            if not (len(b.d) == 1 and all(tm._atoms[x].pos for x, e in next(iter(b.d)))):
                self.oblige('div', 'divisor is non-zero', tm.ne(b, 0))
                self.assume(tm.ne(b, 0))
        return a*tm.inv(b)
    def sqrtv(self, a):
        c = a.const()
        if c is None:
            self.oblige('dom', 'sqrt argument is non-negative', tm.ge(a, 0))
        elif c < 0:
            self.oblige('dom', 'sqrt argument is non-negative', False)
        return tm.sqrt(a)
    # ---------------------------------------------------------------- eval
    def ev(self, C, n):
        """rvalue"""
        v = self.evx(C, n)
        if isinstance(v, LV): v = v.get(self)
        v = self.rd(v)
        return v.copy() if isinstance(v, Mat) else v
    def lv(self, C, n):
        v = self.evx(C, n)
        if isinstance(v, LV): return v
        return TempLV(v)
    def evx(self, C, n):
        k = n['kind']
        h = getattr(self, 'e_'+k, None)
        if h is None: raise Unsupported('expression %s at line %s' % (k, loc(n)[0]))
        return h(C, n)
    def kids(self, n):
        return [c for c in n.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
    def _pass(self, C, n): return self.evx(C, self.kids(n)[0])
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = _pass
    def e_CXXDefaultArgExpr(self, C, n):
        ks = self.kids(n)
        if ks: return self.evx(C, ks[0])
        return DEFAULT
    def e_CXXDefaultInitExpr(self, C, n):
        ks = self.kids(n)
        if ks: return self.evx(C, ks[0])
        raise Unsupported('default init')
    def e_IntegerLiteral(self, C, n): return P(int(n['value']))
    def e_FloatingLiteral(self, C, n): return P(lit(n['value']))
    def e_CXXBoolLiteralExpr(self, C, n): return bool(n['value'])
    def e_StringLiteral(self, C, n):
        try: return StrVal([json.loads(n['value'])])
        except Exception: return Opaque('str')
    def e_CharacterLiteral(self, C, n): return P(int(n['value']))
    def e_CXXThisExpr(self, C, n): return PtrVal(C.this)
    def e_CXXNullPtrLiteralExpr(self, C, n): return Opaque('null')
    def e_ImplicitValueInitExpr(self, C, n): return self.zero_of(self.vartype(n))
    def e_CXXScalarValueInitExpr(self, C, n): return self.zero_of(self.vartype(n))
    def zero_of(self, t):
        if is_bool_t(t): return False
        if is_int_t(t) or is_real_t(t): return ZERO
        d = mat_dims(t)
        if d: return mat_zero(d[0], d[1])
        raise Unsupported('value-init of %s' % t)
    def e_DeclRefExpr(self, C, n):
        rd = n['referencedDecl']; k = rd['kind']; i = rd['id']
        if k == 'EnumConstantDecl':
            en = clean(n.get('type', {}).get('qualType', '')).split('::')[-1]
            if (en, rd['name']) in self.prog.enums: return P(self.prog.enums[(en, rd['name'])])
            if rd['name'] in self.prog.enums: return P(self.prog.enums[rd['name']])
            return Opaque('enum '+rd['name'])
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            f = C
            while f is not None:
                if i in f.frame:
                    v = f.frame[i]
                    return v if isinstance(v, LV) else VarLV(f.frame, i)
                f = f.parent
            g = C.tu.decl.get(i)
            if g is not None and self.kids(g):
                return TempLV(self.ev(Ctx(C.tu, {}, None), self.kids(g)[0]))
            if rd['name'] in ('cout', 'cerr', 'endl'): return Opaque(rd['name'])
            if rd['name'] == 'value':
                v = self.is_same(C, n)
                if v is not None: return v
            raise Unsupported('unbound variable %s' % rd['name'])
        if k in ('FunctionDecl', 'CXXMethodDecl'): return FuncRef(C.tu, rd)
        return Opaque(rd.get('name'))
    def is_same(self, C, n):
        """std::is_same<A, B>::value for scalar types, from the source text of the expression"""
        try:
            o = n['range']['begin']['offset']
            t = open('%s/src/simulation/%s.cpp' % (self.prog.dir, C.tu.name), 'rb').read()[o:o+80].decode()
            m = re.match(r'std::is_same<\s*(\w+)\s*,\s*(\w+)\s*>::value', t)
            if not m: return None
            r = lambda x: {'T': 'double'}.get(x, x)
            return r(m.group(1)) == r(m.group(2)) if {r(m.group(1)), r(m.group(2))} <= {'float', 'double', 'int'} else None
        except Exception: return None
    def e_MemberExpr(self, C, n):
        b = self.kids(n)[0]
        o = self.evx(C, b)
        if isinstance(o, LV): o = o.get(self)
        if isinstance(o, PtrVal): o = o.obj
        if isinstance(o, ObjVal): return FieldLV(o, n['name'])
        if isinstance(o, Opaque): return Opaque(o.what+'.'+n.get('name', ''))
        raise Unsupported('member %s of %r' % (n.get('name'), o))
    def e_ImplicitCastExpr(self, C, n):
        ck = n.get('castKind'); k = self.kids(n)[0]
        if ck in ('LValueToRValue',): return self.ev(C, k)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'ToVoid', 'Dependent', 'NullToPointer', 'BaseToDerived'):
            return self.evx(C, k)
        v = self.ev(C, k)
        if isinstance(v, Opaque): return v
        t = tstr(n)
        if ck == 'IntegralToFloating':
            return self.coerce(v, 'double') if not isinstance(v, Poly) else v
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToIntegral': return self.to_int(v, is_uns_t(t))
        if ck in ('IntegralCast',):
            if v is True or v is False or isinstance(v, tuple): v = ONE if self.decide(v) else ZERO
            return self.to_int(v, is_uns_t(t)) if isinstance(v, Poly) else v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return tm.ne(v, 0) if isinstance(v, Poly) else v
        if ck == 'PointerToBoolean': return True
        raise Unsupported('cast %s' % ck)
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    def e_UnaryOperator(self, C, n):
        op = n['opcode']; k = self.kids(n)[0]
        if op in ('++', '--'):
            l = self.lv(C, k); old = self.rd(l.get(self))
            if isinstance(old, IterVal): new = IterVal(old.lv, old.pos + (1 if op == '++' else -1))
            else:
                new = old + (1 if op == '++' else -1)
                if op == '--' and is_uns_t(tstr(k)): self.oblige('conv', 'unsigned decrement does not wrap', tm.ge(new, 0))
            if isinstance(l, ElemLV): self.vec_incr(l, P(1 if op == '++' else -1))
            else: l.set(self, new)
            return old if n.get('isPostfix') else l
        if op == '!': return NOT(self.boolv(self.ev(C, k)))
        if op == '&': 
            l = self.lv(C, k); return l
        if op == '*':
            v = self.ev(C, k)
            return self.deref(v)
        v = self.ev(C, k)
        if op == '-':
            return -v if isinstance(v, Poly) else v.map(lambda x: -x)
        if op == '+': return v
        raise Unsupported('unary '+op)
    def deref(self, v):
        if isinstance(v, IterVal): return ElemLV(v.lv, v.pos)
        if isinstance(v, ExtremeIter): return TempLV(v.val)
        if isinstance(v, PtrVal): return TempLV(v.obj)
        raise Unsupported('dereference of %r' % (v,))
    def vec_incr(self, l, d):
        self.vec_add(l.vlv, l.idx, d)
    def boolv(self, v):
        if isinstance(v, Poly): return tm.ne(v, 0)
        if v is True or v is False or isinstance(v, tuple): return v
        raise Unsupported('boolean value of %r' % (v,))
    def e_BinaryOperator(self, C, n):
        op = n['opcode']; a, b = self.kids(n)
        if op == ',':
            self.evx(C, a); return self.evx(C, b)
        if op == '=':
            v = self.ev(C, b); l = self.lv(C, a)
            l.set(self, self.coerce(v, self.vartype(a))); return l
        if op in ('&&', '||'):
            x = self.boolv(self.ev(C, a))
            if x is True: return self.boolv(self.ev(C, b)) if op == '&&' else True
            if x is False: return False if op == '&&' else self.boolv(self.ev(C, b))
            if self.pure(b):
                y = self.boolv(self.ev(C, b))
                return AND(x, y) if op == '&&' else OR(x, y)
            if op == '&&': return self.boolv(self.ev(C, b)) if self.decide(x) else False
            return True if self.decide(x) else self.boolv(self.ev(C, b))
        x = self.ev(C, a); y = self.ev(C, b)
        return self.binop(op, x, y, tstr(n), C, n)
    def pure(self, n):
        """no calls / divisions / assignments: safe to evaluate eagerly"""
        st = [n]
        while st:
            m = st.pop(); k = m['kind']
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CompoundAssignOperator', 'LambdaExpr'): return False
            if k == 'BinaryOperator' and m['opcode'] in ('=', '/', '%'): return False
            if k == 'UnaryOperator' and m['opcode'] in ('++', '--', '*'): return False
            if k == 'CXXOperatorCallExpr':
                nm = self.opname(m)
                if nm not in ('operator()', 'operator[]', 'operator->', 'operator*', 'operator+', 'operator-'): return False
            st.extend(self.kids(m))
        return True
    def binop(self, op, x, y, t, C=None, n=None):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ('<', '>', '<=', '>=', '==', '!='): return tm.boolvar(self.freshname('opaque'))
            return Opaque('(%s)' % op)
        if isinstance(x, IterVal) and isinstance(y, Poly) and op in '+-': return IterVal(x.lv, x.pos+y if op == '+' else x.pos-y)
        if isinstance(x, IterVal) and isinstance(y, IterVal):
            if op == '-': return x.pos-y.pos
            return tm.cmpf(op, x.pos, y.pos)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(x, Mat): raise Unsupported('matrix comparison')
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                fx = x if not isinstance(x, Poly) else tm.ne(x, 0); fy = y if not isinstance(y, Poly) else tm.ne(y, 0)
                if op in ('==', '!='):
                    if isinstance(x, Poly) and x.const() is not None: fx = x.const() != 0
                    r = OR(AND(fx, fy), AND(NOT(fx), NOT(fy)))
                    return r if op == '==' else NOT(r)
                x = ONE if self.decide(fx) else ZERO if not isinstance(x, Poly) else x
                raise Unsupported('bool comparison')
            return tm.cmpf(op, x, y)
        if isinstance(x, bool) or isinstance(x, tuple): x = ONE if self.decide(x) else ZERO
        if isinstance(y, bool) or isinstance(y, tuple): y = ONE if self.decide(y) else ZERO
        if op == '+': return self.m2(x, y, '+')
        if op == '-':
            r = self.m2(x, y, '-')
            if is_uns_t(t) and isinstance(r, Poly): self.oblige('conv', 'unsigned subtraction does not wrap', tm.ge(r, 0))
            return r
        if op == '*': return self.m2(x, y, '*')
        if op == '/':
            if is_int_t(t):
                cx, cy = x.const(), y.const()
                if cx is not None and cy: 
                    import math
                    return P(math.trunc(Fraction(int(cx), int(cy))))
                q = x*tm.inv(y) if len(y.d) == 1 else None
                if q is not None and q.is_int(): return q
                self.oblige('div', 'integer divisor is non-zero', tm.ne(y, 0))
                return A('idiv', x, y, sort='I')
            return self.m2(x, y, '/')
        if op == '%':
            cx, cy = x.const(), y.const()
            if cx is not None and cy: return P(int(cx) % int(cy))
            return x - y*A('idiv', x, y, sort='I')
        raise Unsupported('binary '+op)
    def m2(self, x, y, op):
        if isinstance(x, Poly) and isinstance(y, Poly):
            if op == '+': return x+y
            if op == '-': return x-y
            if op == '*': return x*y
            return self.div(x, y)
        if isinstance(x, Mat) and isinstance(y, Mat):
            if op == '+': return mat_add(x, y)
            if op == '-': return mat_sub(x, y)
            if op == '*':
                if x.arr and y.arr: return Mat(x.r, x.c, [a*b for a, b in zip(x.e, y.e)], True)
                return mat_mul(x, y)
            if op == '/' and x.arr and y.arr: return Mat(x.r, x.c, [self.div(a, b) for a, b in zip(x.e, y.e)], True)
        if isinstance(x, Mat) and isinstance(y, Poly):
            if op == '*': return mat_scale(x, y)
            if op == '/':
                i = self.div(ONE, y); return mat_scale(x, i)
            if x.arr and op in '+-': return x.map(lambda a: a+y if op == '+' else a-y)
        if isinstance(x, Poly) and isinstance(y, Mat):
            if op == '*': return mat_scale(y, x)
            if y.arr and op in '+-': return y.map(lambda a: x+a if op == '+' else x-a)
        raise Unsupported('operands of %s: %s, %s' % (op, type(x).__name__, type(y).__name__))
    def e_CompoundAssignOperator(self, C, n):
        op = n['opcode'][:-1]; a, b = self.kids(n)
        y = self.ev(C, b); l = self.lv(C, a)
        self.compound(l, op, y, tstr(n))
        return l
    def compound(self, l, op, y, t=''):
        if isinstance(l, ElemLV) and op in '+-' and not isinstance(l.vlv.get(self), Mat):
            v = l.vlv.get(self)
            if isinstance(v, VecVal) and self.in_havoc(v):
                d = y if op == '+' else (y.map(lambda x: -x) if isinstance(y, Mat) else -y)
                cur = [w for j, w in v.over if self.distinct(j, l.idx) is not True]
                if not cur:
                    self.vec_add(l.vlv, l.idx, d); return
        x = self.rd(l.get(self))
        r = self.binop(op, x, y, t)
        if isinstance(r, Poly): r = self.coerce(r, t) if t else r
        l.set(self, r)
    def in_havoc(self, v):
        return v.tag is not None
    def e_ConditionalOperator(self, C, n):
        c, a, b = self.kids(n)
        f = self.boolv(self.ev(C, c))
        if f is True: return self.evx(C, a)
        if f is False: return self.evx(C, b)
        if plain(a) and plain(b) and not self.implied(f) and not self.implied(NOT(f)):
            x = self.ev(C, a); y = self.ev(C, b)
            if isinstance(x, Poly) and isinstance(y, Poly) and x.is_int() and y.is_int():
                if self.implied(OR(f, tm.eq(x, y))): return x
                if self.implied(OR(NOT(f), tm.eq(x, y))): return y
        return self.evx(C, a) if self.decide(f) else self.evx(C, b)
    def e_ArraySubscriptExpr(self, C, n):
        a, b = self.kids(n)
        l = self.lv(C, a); i = self.ev(C, b)
        return ElemLV(l, i)
    def e_LambdaExpr(self, C, n):
        for c in self.kids(n):
            if c['kind'] == 'CXXRecordDecl':
                for m in self.kids(c):
                    if m['kind'] == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        return Closure(C.tu, m, C, C.this)
        raise Unsupported('lambda')
    def call_closure(self, cl, args):
        node = cl.node
        frame = {}
        ps = [c for c in node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for pd, a in zip(ps, args):
            t = pd['type']['qualType']
            if t.strip().endswith('&'): frame[pd['id']] = a if isinstance(a, LV) else TempLV(a)
            else:
                v = a.get(self) if isinstance(a, LV) else a
                frame[pd['id']] = v.copy() if isinstance(v, Mat) else v
        body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][-1]
        try:
            self.ex(Ctx(cl.tu, frame, cl.this, cl.frame), body); return None
        except ReturnX as r:
            return r.v
    def e_InitListExpr(self, C, n):
        t = self.vartype(n)
        vals = [self.ev(C, c) for c in self.kids(n)]
        if len(vals) == 1 and isinstance(vals[0], VecVal) and 'array' in t: return vals[0]
        if 'array<' in t or '[' in t or 'initializer_list' in t: return VecVal(len(vals), 'double', ('list', tuple(vals)))
        if len(vals) == 1: return vals[0]
        if not vals: return self.zero_of(t)
        raise Unsupported('initializer list of %s' % t)
    e_CXXStdInitializerListExpr = _pass
    def e_CXXReinterpretCastExpr(self, C, n):
        v = self.ev(C, self.kids(n)[0])
        if isinstance(v, IterVal): return v
        raise Unsupported('reinterpret_cast')
    def e_UnaryExprOrTypeTraitExpr(self, C, n): return Opaque('sizeof')
    def e_CXXConstructExpr(self, C, n):
        t = self.vartype(n); ks = [k for k in self.kids(n)]
        d = mat_dims(t)
        c = clean(t)
        if 'JacobiSVD' in t:
            m = self.ev(C, ks[0])
            return self.make_svd(m)
        if '__normal_iterator' in t and len(ks) == 1:
            it = self.ev(C, ks[0])
            if isinstance(it, IterVal): return it
        if 'vector<' in t and 'iterator' not in t and not t.startswith('__gnu_cxx'):
            et = elem_type(t)
            args = [self.evx(C, k) for k in ks]
            args = [a for a in args if a is not DEFAULT and not (isinstance(a, LV) and isinstance(a.get(self), Opaque)) and not (isinstance(a, Opaque))]
            if not args: return VecVal(0, et, ('list', ()))
            a0 = args[0].get(self) if isinstance(args[0], LV) else args[0]
            if isinstance(a0, VecVal): return a0
            if isinstance(a0, Poly):
                if len(args) > 1:
                    fv = args[1].get(self) if isinstance(args[1], LV) else args[1]
                else: fv = self.zero_init(et)
                return VecVal(a0, et, ('fill', self.rd(fv)))
            if isinstance(a0, IterVal): raise Unsupported('vector from iterators')
            raise Unsupported('vector constructor')
        if d:
            if not ks:
                u = Uninit('matrix'); u.rc = (d[0], d[1]); return u
            vals = [self.ev(C, k) for k in ks]
            vals = [v for v in vals if not isinstance(v, (Opaque,)) and v is not DEFAULT]
            if len(vals) == 1 and isinstance(vals[0], Mat):
                m = vals[0]
                if d[0] > 0 and (m.r, m.c) != (d[0], d[1]): raise Unsupported('matrix shape %s from %dx%d' % (t, m.r, m.c))
                return Mat(m.r, m.c, m.e, d[2])
            if len(vals) == d[0]*d[1]: return Mat(d[0], d[1], vals, d[2])
            raise Unsupported('matrix constructor %s with %d args' % (t, len(vals)))
        if 'unique_ptr' in t or 'shared_ptr' in t:
            return self.ev(C, ks[0]) if ks else Opaque('nullptr')
        if c.split('::')[-1] in self.prog.records:
            cls = c.split('::')[-1]
            if len(ks) == 1:
                v = self.evx(C, ks[0])
                v = v.get(self) if isinstance(v, LV) else v
                if isinstance(v, ObjVal): return v.copy()
            return self.construct(C, cls, ks, n)
        if is_real_t(t) or is_int_t(t): return self.ev(C, ks[0]) if ks else ZERO
        if 'std::array' in t or c.startswith('array<'):
            if ks: return self.ev(C, ks[0])
            m = re.search(r'array<\s*[^,]+,\s*(\d+)', t)
            return VecVal(int(m.group(1)), 'double', ('list', tuple(Uninit('array') for _ in range(int(m.group(1))))))
        if 'iterator' in t and ks: return self.ev(C, ks[0])
        if 'ofstream' in t and self.cfg.streams:
            v = self.ev(C, ks[0]) if ks else None
            o = Stream(v); self.events.append(('stream', o)); return o
        if 'string' in t and ks:
            v = self.evx(C, ks[0]); v = v.get(self) if isinstance(v, LV) else v
            if isinstance(v, Opaque): return v
        if len(ks) == 1:
            v = self.evx(C, ks[0]); v = v.get(self) if isinstance(v, LV) else v
            if isinstance(v, (Closure, PtrVal, IterVal, ExtremeIter, SVD)): return v
        return Opaque(t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def zero_init(self, et):
        d = mat_dims(et) or (mat_dims(self.alias(clean(et)) or ''))
        if d:
            u = Uninit('element'); u.rc = (d[0], d[1]); return u   # Eigen default ctor leaves it uninitialised
        if is_real_t(et) or is_int_t(et): return ZERO
        if is_bool_t(et): return False
        raise Unsupported('fill of %s' % et)
    def construct(self, C, cls, ks, n):
        h = self.cfg.contracts.get(cls+'::'+cls)
        args = [self.evx(C, k) for k in ks]
        if h: return h(self, None, args, n)
        return self.construct_vals(cls, args)
    def construct_vals(self, cls, args, o=None):
        ms = self.prog.byname.get(cls+'::'+cls)
        o = ObjVal(cls, self.freshname(cls)) if o is None else o
        # in-class initialisers
        tu, rec = self.prog.records[cls]
        for x in rec.get('inner', ()):
            if x.get('kind') == 'FieldDecl':
                o.f[x['name']] = self.default_val(self.vartype(x), x['name'])
                ini = [c for c in self.kids(x) if c['kind'] != 'FullComment']
                if x.get('hasInClassInitializer') and ini: o.f[x['name']] = self.ev(Ctx(tu, {}, o), ini[0])
        if not ms:
            return o
        for m in ms:
            ctu, cn = self.prog.funcs[m]
            ps = [c for c in cn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            if len(ps) < len(args): continue
            frame = {}
            for i, pd in enumerate(ps):
                a = args[i] if i < len(args) and args[i] is not DEFAULT else self.ev(Ctx(ctu, {}, o), self.kids(pd)[0])
                v = a.get(self) if isinstance(a, LV) else a
                frame[pd['id']] = self.coerce(v, self.vartype(pd))
            for c in cn.get('inner', ()):
                if c.get('kind') == 'CXXCtorInitializer':
                    if c.get('baseInit') and self.kids(c):
                        k0 = self.kids(c)[0]
                        while k0['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ParenExpr'): k0 = self.kids(k0)[0]
                        b = re.sub(r'.*::', '', c['baseInit'].get('qualType', ''))
                        if b in self.prog.records: self.construct_vals(b, [self.evx(Ctx(ctu, frame, o), q) if q['kind'] != 'CXXDefaultArgExpr' else DEFAULT for q in self.kids(k0)], o)
                        continue
                    fld = (c.get('anyInit') or {}).get('name')
                    if fld and self.kids(c): o.f[fld] = self.ev(Ctx(ctu, frame, o), self.kids(c)[0])
            body = [c for c in cn['inner'] if c.get('kind') == 'CompoundStmt']
            try:
                if body: self.ex(Ctx(ctu, frame, o), body[-1])
            except ReturnX: pass
            return o
        raise Unsupported('constructor of '+cls)
    def make_svd(self, m):
        k = m.key()
        if k in self.svdtab: return self.svdtab[k]
        n = m.r
        nm = self.freshname('svd')
        U = Mat(n, n, [sym('%s.U%d%d' % (nm, i, j)) for i in range(n) for j in range(n)])
        V = Mat(n, n, [sym('%s.V%d%d' % (nm, i, j)) for i in range(n) for j in range(n)])
        S = Mat(n, 1, [sym('%s.s%d' % (nm, i), nonneg=True) for i in range(n)])
        r = SVD(U, S, V); self.svdtab[k] = r
        self.events.append(('svd', m, r))
        return r
    # ---- calls
    def opname(self, n):
        c = self.kids(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = self.kids(c)[0]
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl']['name']
        return None
    def e_CXXOperatorCallExpr(self, C, n):
        nm = self.opname(n); ks = self.kids(n)[1:]
        op = (nm or '').replace('operator', '')
        if nm == 'operator<<':
            a = self.evx(C, ks[0]); av = a.get(self) if isinstance(a, LV) else a
            if isinstance(av, (Mat, Uninit)) and hasattr(av, 'e' if isinstance(av, Mat) else 'rc'):
                b = self.ev(C, ks[1])
                return self.comma(CommaInit(a, 0), b)
            if isinstance(av, Stream) and self.cfg.streams:
                b = self.evx(C, ks[1]); b = b.get(self) if isinstance(b, LV) else b
                if isinstance(b, (Poly, Opaque, bool)): av.items.append(b); return av
                raise Unsupported('output of %r' % (b,))
            self.nosidefx(ks[1]); return Opaque('stream')
        if nm == 'operator,':
            a = self.evx(C, ks[0])
            b = self.ev(C, ks[1])
            if isinstance(a, CommaInit): return self.comma(a, b)
            return b
        if nm == 'operator()':
            a = self.evx(C, ks[0]); av = a.get(self) if isinstance(a, LV) else a
            if isinstance(av, Closure):
                return self.call_closure(av, [self.evx(C, k) for k in ks[1:]])
            idx = [self.ev(C, k) for k in ks[1:]]
            return self.mat_at(a, av, idx)
        if nm == 'operator[]':
            a = self.evx(C, ks[0]); av = a.get(self) if isinstance(a, LV) else a
            i = self.ev(C, ks[1])
            if isinstance(av, (Mat,)) or (isinstance(av, Uninit) and hasattr(av, 'rc')): return self.mat_at(a, av, [i])
            if isinstance(av, VecVal): return ElemLV(a if isinstance(a, LV) else TempLV(a), i)
            if isinstance(av, IterVal): return ElemLV(av.lv, av.pos+i)
            raise Unsupported('operator[] on %r' % (av,))
        if nm == 'operator->' or (nm == 'operator*' and len(ks) == 1):
            a = self.ev(C, ks[0])
            if isinstance(a, PtrVal): return a if nm == 'operator->' else TempLV(a.obj)
            if nm == 'operator*': return self.deref(a)
            if isinstance(a, IterVal): return PtrVal(ElemLV(a.lv, a.pos).get(self))
            if isinstance(a, Opaque): return a
            raise Unsupported('operator-> on %r' % (a,))
        if nm == 'operator=':
            l = self.lv(C, ks[0]); v = self.ev(C, ks[1])
            if isinstance(v, Opaque) :
                l.set(self, v); return l
            cur = None
            if isinstance(v, Mat):
                d = mat_dims(tstr(ks[0]))
                if isinstance(l, BlockLV): l.set(self, v); return l
                if d and d[0] > 0 and (d[0], d[1]) != (v.r, v.c): raise Unsupported('matrix assignment shape')
                v = Mat(v.r, v.c, v.e, d[2] if d else v.arr)
            if isinstance(v, ObjVal): v = v.copy()
            if isinstance(l, FieldLV) and isinstance(v, ObjVal):
                nn = (l.o.name+'.' if l.o.name else '')+l.k; v.name = v.name
            l.set(self, v); return l
        if nm in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            l = self.lv(C, ks[0]); v = self.ev(C, ks[1])
            if isinstance(self.peek(l), Opaque): return l
            self.compound(l, op[0], v); return l
        if nm in ('operator++', 'operator--'):
            l = self.lv(C, ks[0]); old = l.get(self)
            if isinstance(old, IterVal):
                l.set(self, IterVal(old.lv, old.pos + (1 if nm == 'operator++' else -1)))
                return l if len(ks) == 1 else old
            raise Unsupported(nm)
        if nm in ('operator+', 'operator-', 'operator*', 'operator/', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!='):
            vs = [self.ev(C, k) for k in ks]
            if len(vs) == 1:
                if op == '-': return -vs[0] if isinstance(vs[0], Poly) else vs[0].map(lambda x: -x)
                raise Unsupported('unary '+nm)
            if op == '+' and all(isinstance(v, Opaque) for v in vs) and 'string' in tstr(n): return StrVal(str_parts(vs[0])+str_parts(vs[1]))
            if any(isinstance(v, Opaque) for v in vs):
                if op in ('<', '>', '<=', '>=', '==', '!='): return tm.boolvar(self.freshname('opaque'))
                return Opaque('expr')
            return self.binop(op, vs[0], vs[1], tstr(n))
        raise Unsupported('operator call %s' % nm)
    def peek(self, l):
        try: return l.get(self)
        except Unsupported: return None
    def comma(self, ci, b):
        m = ci.lv.get(self)
        if isinstance(m, Uninit): m = Mat(m.rc[0], m.rc[1], [Uninit(m.name)]*(m.rc[0]*m.rc[1]))
        vals = b.e if isinstance(b, Mat) else [b]
        e = list(m.e); pos = ci.pos
        for v in vals:
            e[pos] = v; pos += 1
        ci.lv.set(self, Mat(m.r, m.c, e, m.arr))
        return CommaInit(ci.lv, pos)
    def mat_at(self, a, av, idx):
        r, c = (av.r, av.c) if isinstance(av, Mat) else av.rc if isinstance(av, Uninit) and hasattr(av, 'rc') else (None, None)
        if r is None: raise Unsupported('operator() on %r' % (av,))
        ii = []
        for x in idx:
            k = x.const()
            if k is None: raise Unsupported('symbolic matrix index')
            ii.append(int(k))
        if len(ii) == 1:
            ii = [ii[0], 0] if c == 1 else [0, ii[0]]
        if not (0 <= ii[0] < r and 0 <= ii[1] < c):
            self.oblige('bounds', 'matrix index (%d,%d) in range' % tuple(ii), False); raise AbortPath()
        return EntLV(a if isinstance(a, LV) else TempLV(a), ii[0], ii[1])
    def nosidefx(self, n):
        st = [n]
        while st:
            m = st.pop(); k = m['kind']
            if k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and m['opcode'] == '=') or (k == 'UnaryOperator' and m['opcode'] in ('++', '--')):
                raise Unsupported('side effect in diagnostic output')
            if k == 'CXXOperatorCallExpr' and self.opname(m) in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
                raise Unsupported('side effect in diagnostic output')
            if k in ('CallExpr', 'CXXMemberCallExpr'):
                cal = self.kids(m)[0]
                nm = self.callee_name(m)
                if nm and ('Simulation::'+nm) in self.prog.byname and nm not in ('ind', 'calculateBulkModulus'):
                    raise Unsupported('call in diagnostic output')
            st.extend(self.kids(m))
    def callee_name(self, n):
        c = self.kids(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = self.kids(c)[0]
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl']['name']
        if c['kind'] == 'MemberExpr': return c.get('name')
        return None
    def e_CallExpr(self, C, n):
        ks = self.kids(n); c = ks[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = self.kids(c)[0]
        if c['kind'] != 'DeclRefExpr': raise Unsupported('indirect call')
        rd = c['referencedDecl']; nm = rd['name']; args = ks[1:]
        if rd['kind'] in ('VarDecl', 'ParmVarDecl'): raise Unsupported('call through variable')
        if nm == 'debug':
            for a in args: self.nosidefx(a)
            return None
        # repository function?
        q = self.repo_func(C, rd)
        if q is not None:
            qn, tu, fn = q
            av = [self.evx(C, a) for a in args]
            av = [a for a in av if a is not DEFAULT]
            h = self.cfg.contracts.get(qn)
            if h: return h(self, C.this, av, n)
            return self.call(tu, fn, C.this, av)
        b = getattr(self, 'f_'+nm, None)
        if b is not None: return b(C, n, args)
        # Eigen static creators
        if nm in ('Zero', 'Ones', 'Identity', 'Constant'):
            d = mat_dims(tstr(n))
            if not d:
                d = mat_dims(rd.get('type', {}).get('qualType', ''))
            if not d: raise Unsupported('%s without static shape: %s' % (nm, tstr(n)))
            r, cc, arr = d
            if r < 0 or cc < 0: raise Unsupported('dynamic matrix')
            if nm == 'Zero': return Mat(r, cc, [ZERO]*(r*cc), arr)
            if nm == 'Ones': return Mat(r, cc, [ONE]*(r*cc), arr)
            if nm == 'Identity': return Mat(r, cc, [ONE if i == j else ZERO for i in range(r) for j in range(cc)], arr)
            return Mat(r, cc, [self.ev(C, args[-1])]*(r*cc), arr)
        h = self.cfg.contracts.get(nm)
        if h: return h(self, C.this, [self.evx(C, a) for a in args], n)
        t = tstr(n)
        if nm == 'to_string' and len(args) == 1:
            v = self.ev(C, args[0])
            return StrVal([v]) if isinstance(v, Poly) else Opaque('to_string')
        if 'chrono' in t or 'string' in t or 'ostream' in t or nm in ('strerror', 'mkdir', 'system_clock', 'now', 'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_set_num_threads', 'duration_cast', 'setprecision', 'to_string', '__errno_location'):
            for a in args: self.nosidefx(a)
            return Opaque(nm) if not is_int_t(t) else self.fresh(nm, 'I')
        raise Unsupported('call of %s' % nm)
    def repo_func(self, C, rd):
        d = C.tu.decl.get(rd['id'])
        m = (d or rd).get('mangledName')
        if m and m not in self.prog.funcs and (d is None or self.prog.qual(C.tu, d) not in self.cfg.contracts): self.prog.load_defining((d or rd).get('name'))
        if m and m in self.prog.funcs:
            tu, fn = self.prog.funcs[m]
            return self.prog.qual(tu, fn), tu, fn
        if d is not None:
            q = self.prog.qual(C.tu, d)
            if q in self.cfg.contracts: return q, C.tu, d
            ms = self.prog.byname.get(q)
            if ms and len(ms) == 1:
                tu, fn = self.prog.funcs[ms[0]]; return q, tu, fn
        return None
    def e_CXXMemberCallExpr(self, C, n):
        ks = self.kids(n); c = ks[0]; args = ks[1:]
        while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'): c = self.kids(c)[0]
        if c['kind'] != 'MemberExpr': raise Unsupported('member call')
        nm = c['name']; bn = self.kids(c)[0]
        b = self.evx(C, bn); bv = b.get(self) if isinstance(b, LV) else b
        if isinstance(bv, PtrVal): bv = bv.obj; b = TempLV(bv)
        if isinstance(bv, ObjVal):
            h = None
            cls = bv.cls
            q = None; cc = cls
            if cls in ('Simulation',) and cls+'::'+nm not in self.cfg.contracts and cls+'::'+nm not in self.prog.byname: self.prog.load_defining(nm)
            while cc:
                if (cc+'::'+nm) in self.cfg.contracts: h = self.cfg.contracts[cc+'::'+nm]; break
                if (cc+'::'+nm) in self.prog.byname: q = cc+'::'+nm; break
                if cc not in self.prog.records: break
                bs = self.prog.records[cc][1].get('bases') or []
                cc = clean(bs[0]['type']['qualType']).split('::')[-1] if bs else None
            if h is None and q is None:
                if nm in ('start', 'stop', 'get_timing') : return Opaque('timer')
                raise Unsupported('method %s::%s' % (cls, nm))
            av = [a for a in (self.evx(C, x) for x in args) if a is not DEFAULT]
            if h: return h(self, bv, av, n)
            if cls == 'timer': return self.fresh('timer') if is_real_t(tstr(n)) else Opaque('timer')
            ms = self.prog.byname[q]
            d = C.tu.decl.get(c.get('referencedMemberDecl'))
            m = d.get('mangledName') if d else None
            tu, fn = self.prog.funcs[m if m in ms else ms[0]]
            return self.call(tu, fn, bv, av)
        if isinstance(bv, Stream) and self.cfg.streams:
            if nm == 'open':
                bv.path = self.ev(C, args[0]); return None
            if nm in ('close', 'flush'): return None
        if isinstance(bv, Opaque): 
            for a in args: self.nosidefx(a)
            t = tstr(n)
            if is_real_t(t): return self.fresh('opaque')
            if is_int_t(t): return self.fresh('opaque', 'I')
            return Opaque(nm)
        if isinstance(bv, VecVal): return self.vec_method(C, n, b if isinstance(b, LV) else TempLV(b), bv, nm, args)
        if isinstance(bv, (Mat, Uninit)): return self.mat_method(C, n, b if isinstance(b, LV) else TempLV(b), bv, nm, args)
        if isinstance(bv, SVD):
            return {'matrixU': bv.U, 'matrixV': bv.V, 'singularValues': bv.S}[nm].copy()
        if isinstance(bv, Poly) and nm in ('operator double', 'value'): return bv
        raise Unsupported('method %s on %s' % (nm, type(bv).__name__))
    def vec_method(self, C, n, l, v, nm, args):
        if nm == 'size': return v.n
        if nm == 'empty': return tm.eq(v.n, 0)
        if nm in ('begin', 'cbegin'): return IterVal(l, ZERO)
        if nm in ('end', 'cend'): return IterVal(l, v.n)
        if nm == 'at': return ElemLV(l, self.ev(C, args[0]))
        if nm == 'data': return IterVal(l, ZERO)
        if nm == 'front': return ElemLV(l, ZERO)
        if nm == 'back': return ElemLV(l, v.n-1)
        if nm in ('reserve', 'shrink_to_fit'):
            for a in args: self.ev(C, a)
            return None
        if nm == 'clear': l.set(self, VecVal(0, v.et, ('list', ()))); return None
        if nm in ('push_back', 'emplace_back'):
            x = self.ev(C, args[0])
            self.push_back(l, v, x); return None
        if nm == 'resize':
            m = self.ev(C, args[0])
            if len(args) > 1: fill = self.ev(C, args[1])
            else: fill = None
            if v.n.const() == 0:
                l.set(self, VecVal(m, v.et, ('fill', fill if fill is not None else self.zero_init(v.et))))
            elif v.n == m: pass
            elif self.implied(tm.le(m, v.n)):     # shrinking keeps the leading elements
                self.oblige('bounds', 'new size is not negative', tm.ge(m, 0))
                l.set(self, VecVal(m, v.et, v.base, v.over, v.adds, v.tag))
            else:
                l.set(self, VecVal(m, v.et, ('sym', self.freshname(self.vname(l)+'.resized'))))
            return None
        if nm == 'assign':
            m = self.ev(C, args[0]); x = self.ev(C, args[1])
            if isinstance(m, Poly): l.set(self, VecVal(m, v.et, ('fill', x))); return None
        if nm == 'erase':
            a = self.ev(C, args[0])
            bb = self.ev(C, args[1]) if len(args) > 1 else IterVal(l, a.pos+1)
            if not (bb.pos - v.n).is_zero(): raise Unsupported('erase in the middle')
            self.oblige('bounds', 'erase range valid', AND(tm.ge(a.pos, 0), tm.le(a.pos, v.n)))
            l.set(self, VecVal(a.pos, v.et, v.base, v.over, v.adds, v.tag)); return None
        if nm == 'pop_back':
            l.set(self, VecVal(v.n-1, v.et, v.base, v.over, v.adds, v.tag)); return None
        if nm == 'insert':
            h = self.cfg.contracts.get('vector::insert')
        raise Unsupported('vector::%s' % nm)
    def push_back(self, l, v, x):
        h = self.cfg.__dict__.get('on_push')
        if h and h(self, l, v, x): return
        if v.base[0] == 'list' and not v.over:
            l.set(self, VecVal(v.n+1, v.et, ('list', v.base[1]+(x,)))); return
        l.set(self, VecVal(v.n+1, v.et, v.base, v.over+((v.n, x),), v.adds, v.tag))
        self.events.append(('push', self.vname(l), v.n, x, len(self.pc)))
    def mat_method(self, C, n, l, m, nm, args):
        if nm == 'setZero':
            r, c = (m.r, m.c) if isinstance(m, Mat) else m.rc
            l.set(self, Mat(r, c, [ZERO]*(r*c))); return l
        if nm == 'setOnes': l.set(self, m.map(lambda x: ONE)); return l
        if nm == 'setIdentity':
            r = m.r if isinstance(m, Mat) else m.rc[0]
            l.set(self, mat_id(r)); return l
        if nm in ('x', 'y', 'z') and not args: return self.mat_at(l, m, [P('xyz'.index(nm))])
        if nm in ('coeff', 'coeffRef'): return self.mat_at(l, m, [self.ev(C, a) for a in args])
        if nm == 'noalias': return l
        if nm == 'row' or nm == 'col':
            i = self.ev(C, args[0]).const()
            if i is None: raise Unsupported('symbolic row')
            return BlockLV(l, nm, int(i))
        m = self.rd(m)
        if nm in ('rows',): return P(m.r)
        if nm in ('cols',): return P(m.c)
        if nm == 'size': return P(m.r*m.c)
        if nm == 'transpose': return m.T()
        if nm == 'array': return Mat(m.r, m.c, m.e, True)
        if nm == 'matrix': return Mat(m.r, m.c, m.e, False)
        if nm in ('eval', 'derived', 'nestedExpression'): return m
        if nm == 'inverse':
            if m.arr: return m.map(lambda x: self.div(ONE, x))
            d = mat_det(m)
            self.oblige('div', 'matrix is invertible', tm.ne(d, 0))
            return mat_inv(m)
        if nm == 'determinant': return mat_det(m)
        if nm == 'trace': return sum((m[i, i] for i in range(m.r)), ZERO)
        if nm == 'sum': return sum(m.e, ZERO)
        if nm == 'prod':
            r = ONE
            for x in m.e: r = r*x
            return r
        if nm == 'mean': return sum(m.e, ZERO).scale(Fraction(1, len(m.e)))
        if nm == 'squaredNorm': return sum((x*x for x in m.e), ZERO)
        if nm == 'norm': return tm.sqrt(sum((x*x for x in m.e), ZERO))
        if nm in ('normalized', 'normalize'):
            s = sum((x*x for x in m.e), ZERO)
            if self.decide(tm.gt(s, 0)): r = mat_scale(m, tm.inv(tm.sqrt(s)))
            else: r = m
            if nm == 'normalize': l.set(self, r); return None
            return r
        if nm == 'dot':
            return mat_dot(m, self.ev(C, args[0]))
        if nm == 'cross':
            b = self.ev(C, args[0]); a = m
            return Mat(3, 1, [a.e[1]*b.e[2]-a.e[2]*b.e[1], a.e[2]*b.e[0]-a.e[0]*b.e[2], a.e[0]*b.e[1]-a.e[1]*b.e[0]])
        if nm == 'cwiseProduct':
            b = self.ev(C, args[0]); return Mat(m.r, m.c, [x*y for x, y in zip(m.e, b.e)], m.arr)
        if nm == 'asDiagonal':
            k = len(m.e)
            return Mat(k, k, [m.e[i] if i == j else ZERO for i in range(k) for j in range(k)])
        if nm == 'diagonal': return Mat(m.r, 1, [m[i, i] for i in range(m.r)])
        if nm in ('abs', 'cwiseAbs'): return m.map(self.absv)
        if nm in ('exp',): return m.map(tm.exp)
        if nm in ('log',):
            for x in m.e: self.log_dom(x)
            return m.map(tm.log)
        if nm in ('square',): return m.map(lambda x: x*x)
        if nm in ('sqrt', 'cwiseSqrt'): return m.map(self.sqrtv)
        if nm in ('max', 'cwiseMax', 'min', 'cwiseMin') and args:
            b = self.ev(C, args[0])
            f = self.maxv if 'ax' in nm else self.minv
            if isinstance(b, Mat): return Mat(m.r, m.c, [f(x, y) for x, y in zip(m.e, b.e)], m.arr)
            return m.map(lambda x: f(x, b))
        if nm in ('maxCoeff', 'minCoeff'):
            r = m.e[0]
            for x in m.e[1:]: r = self.maxv(r, x) if nm == 'maxCoeff' else self.minv(r, x)
            return r
        raise Unsupported('Eigen method %s' % nm)
    def log_dom(self, x):
        self.oblige('dom', 'log argument is positive', tm.gt(x, 0))
    # ---- std functions
    def _1(self, C, args): return self.ev(C, args[0])
    def f_abs(self, C, n, args):
        v = self._1(C, args)
        if isinstance(v, Mat): return v.map(self.absv)
        if is_int_t(tstr(n)) and not v.is_int(): raise Unsupported('integer abs of a real')
        return self.absv(v)
    f_fabs = f_abs
    def f_sqrt(self, C, n, args): return self.sqrtv(self._1(C, args))
    def f_exp(self, C, n, args): return tm.exp(self._1(C, args))
    def f_log(self, C, n, args):
        v = self._1(C, args); self.log_dom(v); return tm.log(v)
    def f_cosh(self, C, n, args): return tm.cosh(self._1(C, args))
    def f_sinh(self, C, n, args): return tm.sinh(self._1(C, args))
    def f_tanh(self, C, n, args): return tm.tanh(self._1(C, args))
    def f_asinh(self, C, n, args): return tm.asinh(self._1(C, args))
    def f_cos(self, C, n, args): return tm.cos(self._1(C, args))
    def f_sin(self, C, n, args): return tm.sin(self._1(C, args))
    def f_tan(self, C, n, args): return tm.tan(self._1(C, args))
    def f_cbrt(self, C, n, args): return tm.cbrt(self._1(C, args))
    def f_hypot(self, C, n, args):
        x = self.ev(C, args[0]); y = self.ev(C, args[1]); return tm.sqrt(x*x+y*y)
    def f_atan2(self, C, n, args): return A('atan2', self.ev(C, args[0]), self.ev(C, args[1]))
    def f_pow(self, C, n, args): return tm.power(self.ev(C, args[0]), self.ev(C, args[1]))
    def f_floor(self, C, n, args): return self.floor(self._1(C, args))
    def f_ceil(self, C, n, args): return self.ceil(self._1(C, args))
    def f_max(self, C, n, args): return self.maxv(self.ev(C, args[0]), self.ev(C, args[1]))
    def f_min(self, C, n, args): return self.minv(self.ev(C, args[0]), self.ev(C, args[1]))
    f_fmax = f_max; f_fmin = f_min
    def f_clamp(self, C, n, args): return self.minv(self.maxv(self.ev(C, args[0]), self.ev(C, args[1])), self.ev(C, args[2]))
    def f_move(self, C, n, args): return self.evx(C, args[0])
    f_forward = f_as_const = f_ref = f_move
    def f_swap(self, C, n, args):
        a = self.lv(C, args[0]); b = self.lv(C, args[1])
        x = a.get(self); y = b.get(self); a.set(self, y); b.set(self, x)
    def f_infinity(self, C, n, args): return sym('+inf')
    def f_fill(self, C, n, args):
        a = self.ev(C, args[0]); b = self.ev(C, args[1]); x = self.ev(C, args[2])
        if not isinstance(a, IterVal): raise Unsupported('fill')
        v = a.lv.get(self)
        if a.pos.is_zero() and (b.pos-v.n).is_zero():
            if v.base[0] == 'list': a.lv.set(self, VecVal(v.n, v.et, ('list', tuple(x for _ in v.base[1]))))
            else: a.lv.set(self, VecVal(v.n, v.et, ('fill', x)))
            return None
        raise Unsupported('partial fill')
    def f_max_element(self, C, n, args, mx=True):
        a = self.ev(C, args[0]); b = self.ev(C, args[1])
        cmpc = self.ev(C, args[2]) if len(args) > 2 else None
        v = a.lv.get(self)
        if not a.pos.is_zero() or not (b.pos-v.n).is_zero(): raise Unsupported('max_element range')
        self.oblige('bounds', 'max/min_element of a non-empty range', tm.gt(v.n, 0))
        # witness index w; for the generic element g:  not cmp(w, g) (max) / not cmp(g, w) (min)
        w = self.fresh('argmax' if mx else 'argmin', 'I', nonneg=True)
        self.assume(tm.lt(w, v.n))
        val = self.vec_get(a.lv, w, check=False)
        g = self.generic(v.n)
        gv = self.vec_get(a.lv, g, check=False)
        def cmp(x, y):
            if cmpc is None: return tm.lt(x, y)
            r = self.call_closure(cmpc, [TempLV(x), TempLV(y)])
            return r
        f = cmp(val, gv) if mx else cmp(gv, val)
        self.assume(NOT(f))
        self.events.append(('extreme', mx, self.vname(a.lv), w, val, f))
        return ExtremeIter(val)
    def f_min_element(self, C, n, args): return self.f_max_element(C, n, args, False)
    def f_isnan(self, C, n, args): self.ev(C, args[0]); return False
    def f_isfinite(self, C, n, args): self.ev(C, args[0]); return True
    def f_make_pair(self, C, n, args): raise Unsupported('pair')
    # ---------------------------------------------------------------- generic symbols
    def generic(self, n):
        """the shared generic index over [0, n)"""
        k = n.key()
        g = self.gens.get(k)
        if g is None:
            nm = self.cfg.__dict__.get('gnames', {}).get(k) or 'g%d' % len(self.gens)
            g = sym(nm, 'I', nonneg=True)
            self.gens[k] = g
            self.assume(tm.lt(g, n))
        return g
    # ---------------------------------------------------------------- statements
    def ex(self, C, n):
        k = n['kind']
        h = getattr(self, 's_'+k, None)
        if h is not None: return h(C, n)
        if k.startswith('OMP'): return self.omp_stmt(C, n)
        self.evx(C, n)
    def s_CompoundStmt(self, C, n):
        ks = self.kids(n)
        for i, c in enumerate(ks):
            # 'if (cond) continue;'  ==  'if (!cond) { rest }'   (merged, not forked, when data dependent)
            if c['kind'] == 'IfStmt' and self.unroll and self.cfg.merge and not c.get('hasElse') and not c.get('hasInit') and not c.get('hasVar') and only_continue(self.kids(c)[-1]):
                cond = self.boolv(self.ev(C, self.kids(c)[0]))
                if cond is True: raise ContinueX()
                if cond is False: continue
                rest = {'kind': 'CompoundStmt', 'inner': ks[i+1:], 'range': n.get('range', {})}
                if nonlinear(cond) and tm.fkey(cond) not in self.pcset and tm.fkey(NOT(cond)) not in self.pcset and not has_jump(rest):
                    return self.merge_if(C, NOT(cond), rest, None)
                if self.decide(cond): raise ContinueX()
                continue
            self.ex(C, c)
    def s_NullStmt(self, C, n): pass
    def s_DeclStmt(self, C, n):
        for d in self.kids(n):
            if d['kind'] == 'VarDecl': self.vardecl(C, d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'UsingDecl'): pass
            else: raise Unsupported('declaration %s' % d['kind'])
    def vardecl(self, C, d):
        t = self.vartype(d); q = d['type']['qualType'].strip()
        if d.get('storageClass') == 'static' and 'const' not in q: raise Unsupported('static local')
        ks = [k for k in self.kids(d) if not k['kind'].endswith('Attr') and k['kind'] != 'FullComment']
        if not ks:
            C.frame[d['id']] = self.default_val(t, d['name'])
        elif q.endswith('&'):
            v = self.evx(C, ks[0])
            C.frame[d['id']] = v if isinstance(v, LV) else TempLV(v)
        else:
            v = self.evx(C, ks[0])
            if isinstance(v, LV): v = v.get(self)
            if isinstance(v, Uninit) and ks[0]['kind'] == 'CXXConstructExpr': v = self.default_val(t, d['name']) if not self.kids(ks[0]) else self.rd(v)
            else: v = self.rd(v)
            v = self.coerce(v, t)
            if isinstance(v, Mat):
                dd = mat_dims(t)
                v = Mat(v.r, v.c, v.e, dd[2] if dd and t.startswith(('Eigen::Matrix', 'Eigen::Array', 'const Eigen::Matrix', 'const Eigen::Array')) else v.arr)
            if isinstance(v, ObjVal):
                v = v.copy() if not isinstance(v, PtrVal) else v
                if self.mon: self.mon.made(v)
            C.frame[d['id']] = v
        C.names[d['id']] = d['name']
        for lc in self.loopctx: lc.declared(C.frame, d['id'])
        if not hasattr(self, 'frame_names'): self.frame_names = {}
        self.frame_names[d['id']] = d['name']; self.frame_types = getattr(self, 'frame_types', {}); self.frame_types[d['id']] = d.get('type', {}).get('qualType', '')
    def s_ReturnStmt(self, C, n):
        ks = self.kids(n)
        raise ReturnX(self.ev(C, ks[0]) if ks else None)
    def s_BreakStmt(self, C, n): raise BreakX()
    def s_ContinueStmt(self, C, n): raise ContinueX()
    def s_AttributedStmt(self, C, n): self.ex(C, self.kids(n)[-1])
    def s_IfStmt(self, C, n):
        if n.get('isConstexpr'): pass
        ks = self.kids(n)
        i = 0
        if n.get('hasInit'): self.ex(C, ks[0]); i = 1
        if n.get('hasVar'): raise Unsupported('if with declaration')
        cond = self.boolv(self.ev(C, ks[i]))
        th = ks[i+1]; el = ks[i+2] if n.get('hasElse') else None
        if cond is True: return self.ex(C, th)
        if cond is False:
            if el is not None: self.ex(C, el)
            return
        if ((self.unroll and self.cfg.merge and nonlinear(cond)) or ((self.cfg.merge_all or self.in_newton) and not self.implied(cond) and not self.implied(NOT(cond)))) and tm.fkey(cond) not in self.pcset and tm.fkey(NOT(cond)) not in self.pcset and not has_jump(th) and not (el is not None and has_jump(el)):
            return self.merge_if(C, cond, th, el)
        if el is None and self.same_assign(C, cond, th): return
        if self.decide(cond): self.ex(C, th)
        elif el is not None: self.ex(C, el)
    def same_assign(self, C, cond, th):
        """`if (c) n = e;` on a local integer where both outcomes agree on one side of c: no case split"""
        while th['kind'] == 'CompoundStmt' and len(self.kids(th)) == 1: th = self.kids(th)[0]
        if th['kind'] != 'BinaryOperator' or th.get('opcode') != '=': return False
        a, b = self.kids(th)
        if a['kind'] != 'DeclRefExpr' or not is_int_t(tstr(a)) or not plain(b) or self.implied(cond) or self.implied(NOT(cond)): return False
        l = self.lv(C, a); x = l.get(self); y = self.ev(C, b)
        if not (isinstance(x, Poly) and isinstance(y, Poly) and x.is_int() and y.is_int()): return False
        if self.implied(OR(NOT(cond), tm.eq(x, y))): return True
        if self.implied(OR(cond, tm.eq(x, y))): self.ex(C, th); return True
        return False
    def merge_if(self, C, cond, th, el):
        def run(st, f):
            saved = self.journal; self.journal = []
            n0 = len(self.pc); s0 = set(self.pcset); so = self.solver; o0 = len(self.obs)
            self.assume(f)
            self.solver = None
            try:
                if st is not None: self.ex(C, st)
            except Infeasible:
                pass
            finally:
                j = self.journal; self.journal = saved
            # collect final values and roll back
            final = {}
            for d, k, old in j:
                final[(id(d), k)] = (d, k, d.get(k, _MISSING))
            for d, k, old in reversed(j):
                if old is _MISSING: d.pop(k, None)
                else: d[k] = old
            # decisions taken inside stay in pc as implications
            extra = self.pc[n0+1:] if len(self.pc) > n0 and self.pc[n0] == f else self.pc[n0:]
            del self.pc[n0:]; self.pcset = s0; self.solver = so
            # (a fork is a case split over all inputs, so it is kept unconditionally)
            for e in extra: self.assume(e if tm.fkey(e) in self.decided else OR(NOT(f), e))
            # obligations of the branch hold under its condition
            for i in range(o0, len(self.obs)):
                a_, b_, g_, c_ = self.obs[i]
                self.obs[i] = (a_, b_, OR(NOT(f), g_) if g_ is not True else True, len(self.pc))
            return final
        a = run(th, cond); b = run(el, NOT(cond))
        x = tm.chi(cond)
        for key in list(a)+[k for k in b if k not in a]:
            d, k, _ = a.get(key) or b.get(key)
            old = d.get(k, _MISSING)
            va = a[key][2] if key in a else old
            vb = b[key][2] if key in b else old
            if va is _MISSING or vb is _MISSING: continue      # branch-local
            self.write(d, k, self.mergev(x, cond, va, vb))
    def ite(self, cond, a, b):
        """symbol defined to be a where cond holds, b elsewhere (a common positive factor is kept outside)"""
        if a == b: return a
        f = ONE
        for m in list(a.d)[:1]:
            for at, e in m:
                if tm._atoms[at].pos and e > 0 and all(dict(q).get(at, 0) >= 1 for q in list(a.d)+list(b.d)): f = f*Poly({((at, 1),): Fraction(1)})
        s = self.fresh('ite', 'I' if a.is_int() and b.is_int() else 'R')
        self.assume(OR(NOT(cond), tm.eq(f*s, a))); self.assume(OR(cond, tm.eq(f*s, b)))
        if f == ONE: self.ites[tm.the_atom(s)] = (cond, a, b)
        return f*s
    def mergev(self, x, cond, a, b):
        if (self.cfg.merge_all or self.in_newton) and (isinstance(a, Uninit) or isinstance(b, Uninit)): return a if isinstance(a, Uninit) else b     # possibly uninitialised
        if isinstance(a, Poly) and isinstance(b, Poly) and (self.cfg.merge_all or self.in_newton): return self.ite(cond, a, b)
        if isinstance(a, Poly) and isinstance(b, Poly):
            return a if a == b else b + x*(a-b)
        if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
            return Mat(a.r, a.c, [self.mergev(x, cond, p, q) for p, q in zip(a.e, b.e)], a.arr)
        if isinstance(a, VecVal) and isinstance(b, VecVal):
            if a is b: return a
            if a.base == b.base and a.over == b.over and a.n == b.n:
                out = []
                da = {j.key(): (j, v) for j, v in a.adds}; db = {j.key(): (j, v) for j, v in b.adds}
                for k in list(da)+[k for k in db if k not in da]:
                    j = (da.get(k) or db.get(k))[0]
                    va = da[k][1] if k in da else None; vb = db[k][1] if k in db else None
                    z = va if va is not None else vb
                    zero = mat_zero(z.r, z.c) if isinstance(z, Mat) else ZERO
                    va = va if va is not None else zero; vb = vb if vb is not None else zero
                    out.append((j, self.mergev(x, cond, va, vb)))
                return VecVal(a.n, a.et, a.base, a.over, tuple(out), a.tag)
            # overlays: merge index by index
            if a.base == b.base and a.n == b.n and not a.adds and not b.adds:
                over = []
                da = {j.key(): (j, v) for j, v in a.over}; db = {j.key(): (j, v) for j, v in b.over}
                for k in list(db)+[k for k in da if k not in db]:
                    j = (da.get(k) or db.get(k))[0]
                    va = da[k][1] if k in da else self.vec_base(b, j)
                    vb = db[k][1] if k in db else self.vec_base(a, j)
                    over.append((j, self.mergev(x, cond, va, vb)))
                return VecVal(a.n, a.et, a.base, tuple(over), (), a.tag)
            raise Unsupported('merge of vectors')
        if (a is True or a is False or isinstance(a, tuple)) and (b is True or b is False or isinstance(b, tuple)):
            return OR(AND(cond, a), AND(NOT(cond), b))
        if a is b: return a
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    # ---- loops
    def s_ForStmt(self, C, n):
        inner = n.get('inner', [])
        init, cv, cond, inc, body = (inner+[None]*5)[:5]
        C2 = Ctx(C.tu, {}, C.this, C)
        def ok(x): return x if isinstance(x, dict) and 'kind' in x else None
        init, cond, inc, body = ok(init), ok(cond), ok(inc), ok(body)
        if init is not None: self.ex(C2, init)
        self.loop(C2, cond, inc, body, n)
    def s_WhileStmt(self, C, n):
        ks = self.kids(n)
        self.loop(Ctx(C.tu, {}, C.this, C), ks[0], None, ks[1], n)
    def s_DoStmt(self, C, n):
        ks = self.kids(n)
        C2 = Ctx(C.tu, {}, C.this, C)
        try:
            self.ex(C2, ks[0])
        except BreakX: return
        except ContinueX: pass
        self.loop(C2, ks[1], None, ks[0], n)
    def s_SwitchStmt(self, C, n):
        ks = self.kids(n)
        v = self.ev(C, ks[0]); body = ks[-1]
        # flatten:  list of (labels, statements)
        items = []
        def flat(st):
            if st['kind'] == 'CaseStmt':
                kk = self.kids(st)
                items.append(('case', self.ev(C, kk[0])))
                flat(kk[-1])
            elif st['kind'] == 'DefaultStmt':
                items.append(('default', None)); flat(self.kids(st)[-1])
            else: items.append(('st', st))
        for st in self.kids(body): flat(st)
        start = None
        for i, (k, x) in enumerate(items):
            if k == 'case' and self.decide(tm.eq(v, x)): start = i; break
        if start is None:
            for i, (k, x) in enumerate(items):
                if k == 'default': start = i
        if start is None: return
        try:
            for k, x in items[start:]:
                if k == 'st': self.ex(C, x)
        except BreakX: pass
    def s_CXXForRangeStmt(self, C, n):
        ks = [c for c in n.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
        # __range decl, begin, end, cond, inc, loopvar decl, body
        decls = [c for c in ks if c['kind'] == 'DeclStmt']
        rng = self.kids(self.kids(decls[0])[0])[0]
        var = self.kids(decls[-1])[0]; body = ks[-1]
        l = self.lv(C, rng); v = self.rd(l.get(self))
        if isinstance(v, Opaque): raise Unsupported('range-for over opaque')
        if not isinstance(v, VecVal): raise Unsupported('range-for over %s' % type(v).__name__)
        byref = '&' in var['type']['qualType']
        c = v.n.const()
        def one(idx):
            C2 = Ctx(C.tu, {}, C.this, C)
            e = ElemLV(l, idx)
            if byref: C2.frame[var['id']] = e
            else:
                x = self.rd(e.get(self)); C2.frame[var['id']] = x.copy() if isinstance(x, Mat) else x
            for lc in self.loopctx: lc.declared(C2.frame, var['id'])
            try: self.ex(C2, body)
            except ContinueX: pass
        if c is not None and c <= 64:
            for i in range(int(c)):
                try: one(P(i))
                except BreakX: break
            return
        self._loopC = C
        rh = self.cfg.__dict__.get('range_handler')
        if rh and rh(self, one, v.n, body, n): return
        self.generic_loop(lambda g: one(g), v.n, n, 'range-for', start=ZERO)
    def cond_of(self, C, cond):
        return self.boolv(self.ev(C, cond)) if cond is not None else True
    def loop(self, C, cond, inc, body, n):
        """try exact unrolling when every test is decided; otherwise the loop rule"""
        it = 0
        lh = self.cfg.__dict__.get('loop_handler')
        if lh and lh(self, C, cond, inc, body, n): return
        # peek at the first test
        fx = cond is not None and writes_in(cond)          # a test with an effect of its own, e.g. while (++i < n)
        if fx:
            j0 = self.journal; self.journal = []; so = len(self.obs)
            f = self.cond_of(C, cond)
            bound = self.const_trip(C, cond, body)
            for d, k, old in reversed(self.journal):
                if old is _MISSING: d.pop(k, None)
                else: d[k] = old
            self.journal = j0; del self.obs[so:]
        else:
            f = self.cond_of(C, cond)
            bound = self.const_trip(C, cond, body)
        newton = False
        if bound is not None and bound > 10 and has_exit(body): newton = True
        if bound is None and f is True and has_exit(body) and (cond is None or strip_casts(cond).get('kind') in ('CXXBoolLiteralExpr', 'IntegerLiteral')): newton = True
        if newton and f is not True: raise Unsupported('iteration that may not start (line %s)' % loc(n)[0])
        if newton: return self.newton_loop(C, cond, inc, body, n)
        if f is not True and f is not False:
            if not (self.implied(f) or self.implied(NOT(f))):
                return self.symbolic_loop(C, cond, inc, body, n)
            # decided first test: is the bound symbolic?  (i=0 < Np with Np>0 known)
            if not self.const_steps(C, cond): return self.symbolic_loop(C, cond, inc, body, n)
        self.unroll += 1
        try:
            while True:
                if it or fx: f = self.cond_of(C, cond)
                if f is not True and f is not False:
                    if self.implied(f): f = True
                    elif self.implied(NOT(f)): f = False
                    else: raise Unsupported('loop test undecided after %d iterations at line %s' % (it, loc(n)[0]))
                if f is False: break
                it += 1
                if it > 300: raise Unsupported('loop unrolled 300 times at line %s' % loc(n)[0])
                try: self.ex(Ctx(C.tu, {}, C.this, C), body)
                except ContinueX: pass
                except BreakX: break
                if inc is not None: self.evx(C, inc)
        finally:
            self.unroll -= 1
    def const_steps(self, C, cond):
        f = self.cond_of(C, cond)
        if f is True or f is False: return True
        # v < bound with (bound - v) constant
        return False
    def const_trip(self, C, cond, body):
        """constant trip bound of  v < B  tests (B-v constant), if any"""
        if cond is None: return None
        c = cond
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): c = self.kids(c)[0]
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '>', '>=', '!='): return None
        a, b = self.kids(c)
        try:
            n0 = len(self.obs)
            x = self.ev(C, a); y = self.ev(C, b)
            del self.obs[n0:]
        except Unsupported: return None
        if isinstance(x, Poly) and isinstance(y, Poly):
            d = (x-y).const()
            if d is not None: return abs(d)
        return None
    def symbolic_loop(self, C, cond, inc, body, n):
        """for (v = s; v < B; v++) with symbolic trip count"""
        c = cond
        while c is not None and c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): c = self.kids(c)[0]
        if c is None or c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '!=', '<=', '>'): raise Unsupported('loop test at line %s' % loc(n)[0])
        a, b = self.kids(c)
        if c['opcode'] == '>': a, b = b, a
        def strip(x):
            while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = self.kids(x)[0]
            return x
        va = strip(a)
        if va['kind'] != 'DeclRefExpr': raise Unsupported('loop variable at line %s' % loc(n)[0])
        l = self.evx(C, va)
        start = self.rd(l.get(self)); bound = self.ev(C, b)
        if isinstance(start, IterVal):
            if not (isinstance(bound, IterVal)): raise Unsupported('iterator loop')
            isit = start; start_p = start.pos; bound_p = bound.pos
        elif isinstance(start, Poly) and is_int_t(tstr(va)):
            isit = None; start_p = start; bound_p = bound
        elif isinstance(start, Poly):
            return self.real_loop(C, l, start, bound, inc, body, n)
        else: raise Unsupported('loop variable kind')
        if c['opcode'] == '<=': bound_p = bound_p+1
        def one(g):
            gg = IterVal(isit.lv, g) if isit is not None else g
            l.set(self, gg)
            try: self.ex(Ctx(C.tu, {}, C.this, C), body)
            except ContinueX: pass
            if inc is not None: self.evx(C, inc)
            nv = l.get(self); nv = nv.pos if isinstance(nv, IterVal) else nv
            if not (nv - g - 1).is_zero(): raise Unsupported('loop step is not +1 at line %s' % loc(n)[0])
        self._loopC = C
        self.generic_loop(one, bound_p, n, 'for', start=start_p, lv=l, isit=isit)
    def real_loop(self, C, l, start, bound, inc, body, n):
        """for (v = start; v < bound; v += step) pushing one value per iteration.  Invariant: after i iterations
        v = start + i*step and every vector grown by the body holds i entries f(start + k*step).  Established for one
        generic iteration; the trip count c satisfies  start+(c-1)*step < bound <= start+c*step."""
        if not isinstance(l, VarLV): raise Unsupported('floating loop variable at line %s' % loc(n)[0])
        v = self.fresh('loop.real'); i = self.fresh('loop.count', 'I', nonneg=True)
        # what does the body write?
        lc = LoopCtx(); j0 = self.journal; self.journal = []; so, se = len(self.obs), len(self.events)
        def undo():
            for d, k, old in reversed(self.journal):
                if old is _MISSING: d.pop(k, None)
                else: d[k] = old
            del self.obs[so:]; del self.events[se:]
        self.loopctx.append(lc)
        try:
            l.set(self, v); self.ex(Ctx(C.tu, {}, C.this, C), body); self.evx(C, inc)
        finally:
            self.loopctx.pop(); undo(); self.journal = j0
        wr = {key: dk for key, dk in lc.writes.items() if key not in lc.locals and key != (id(l.d), l.k)}
        pres = {}
        for key, (d, k) in wr.items():
            x = d.get(k)
            if not isinstance(x, VecVal) or x.n.const() != 0: raise Unsupported('floating loop modifies %s (line %s)' % (self.namefor(d, k), loc(n)[0]))
            pres[key] = x
        self.journal = []
        try:
            for key, (d, k) in wr.items(): self.write(d, k, VecVal(i, pres[key].et, ('sym', self.freshname('loop.vec'))))
            l.set(self, v); self.ex(Ctx(C.tu, {}, C.this, C), body)
            if inc is None: raise Unsupported('floating loop without step')
            self.evx(C, inc)
            step = l.get(self) - v
            if tm.the_atom(v) in tm.deep_atoms(step.atoms()) or tm.the_atom(i) in tm.deep_atoms(step.atoms()): raise Unsupported('floating loop step')
            outs = {}
            for key, (d, k) in wr.items():
                x = d[k]
                if not (x.n - i - 1).is_zero() or len(x.over) != 1 or not (x.over[0][0]-i).is_zero() or x.adds or not isinstance(x.over[0][1], Poly): raise Unsupported('floating loop does not append one value per iteration')
                outs[key] = x.over[0][1]
        finally:
            for d, k, old in reversed(self.journal):
                if old is _MISSING: d.pop(k, None)
                else: d[k] = old
            self.journal = j0
        self.oblige('term', 'floating loop advances', tm.gt(step, 0))
        if self.implied(tm.ge(start, bound)) : return
        if not self.implied(tm.lt(start, bound)):
            if not self.decide(tm.lt(start, bound)): return
        cnt = self.fresh('count', 'I', nonneg=True, pos=True)
        self.assume(tm.lt(start + (cnt-1)*step, bound)); self.assume(tm.ge(start + cnt*step, bound))
        va = tm.the_atom(v)
        for key, (d, k) in wr.items():
            f = outs[key]
            self.write(d, k, VecVal(cnt, pres[key].et, ('fn', (lambda f: lambda idx: tm.subst(f, {va: start + idx*step}))(f))))
        l.set(self, start + cnt*step)
        self.events.append(('realloop', loc(n)[0], start, bound, step, cnt))
    def generic_loop(self, one, bound, n, what, start=ZERO, lv=None, isit=None):
        """one generic iteration over havocked modified state"""
        if not start.is_zero(): raise Unsupported('loop does not start at 0 (line %s)' % loc(n)[0])
        hk = self.cfg.__dict__.get('loop_hook')
        # zero-trip case
        if not self.implied(tm.gt(bound, 0)):
            if self.cfg.__dict__.get('zero_trip', True):
                if not self.decide(tm.gt(bound, 0)):
                    if lv is not None: lv.set(self, IterVal(isit.lv, ZERO) if isit is not None else ZERO)
                    return
        g = self.generic(bound)
        if self.mon: self.mon.loop(g)
        # 1. discover what the body modifies (dry runs, fully undone)
        known = {}
        ps = self.cfg.__dict__.get('prescan')
        if ps: known = ps(self, n) or {}
        ind = self.induction(self._loopC, n, lv)
        for i in ind:
            f = self._loopC
            while f is not None and i not in f.frame: f = f.parent
            if f is not None and isinstance(f.frame[i], Poly): known[(id(f.frame), i)] = (f.frame, i)
        red = reductions(self, n)
        cnd = scan_assigned(self, n, True) if self._loopC is not None and not self.mon else {}
        cnd = {k: v for k, v in cnd.items() if isinstance(v[0].get(v[1]), Poly) and not (lv is not None and isinstance(lv, VarLV) and k == (id(lv.d), lv.k))}
        for key, dk in cnd.items(): known.setdefault(key, dk)
        for key in list(red):
            if key not in cnd: del red[key]
        pc0 = len(self.pc)
        for attempt in range(6):
            lc = LoopCtx()
            snap_obs = len(self.obs); snap_ev = len(self.events)
            j0 = self.journal; self.journal = []
            hv = self.havoc(known, g, n, ind)
            self.loopctx.append(lc)
            ended = None
            try:
                one(g)
            except (BreakX, ReturnX, AbortPath, Infeasible) as e:
                ended = e
            finally:
                self.loopctx.pop()
                j = self.journal; self.journal = j0
            new = {}
            for key, (d, k) in lc.writes.items():
                if key in lc.locals: continue
                if lv is not None and isinstance(lv, VarLV) and key == (id(lv.d), lv.k): continue
                new[key] = (d, k)
            if set(new) <= set(known):
                break
            # undo and retry with a larger havoc set
            for d, k, old in reversed(j):
                if old is _MISSING: d.pop(k, None)
                else: d[k] = old
            del self.obs[snap_obs:]; del self.events[snap_ev:]
            known.update(new)
        else:
            raise Unsupported('loop effect does not stabilise (line %s)' % loc(n)[0])
        if j0 is not None:
            j0.extend(j)
        if isinstance(ended, (ReturnX, AbortPath, Infeasible)): raise ended
        if isinstance(ended, BreakX): raise Unsupported('break out of a symbolic loop (line %s)' % loc(n)[0])
        # variables that were equal at entry are carried as equal: an invariant that the body has to preserve
        for key, (d, k) in known.items():
            h = hv[key]
            if 'eqto' in h:
                d2, k2 = known[h['eqto']]
                x, y = d[k], d2[k2]
                if not (isinstance(x, Mat) and isinstance(y, Mat) and x.key() == y.key()):
                    if self.cfg.__dict__.get('eq_obligation'): self.oblige('inv', 'the copies of the loop-carried vector agree after every iteration', AND(*[tm.eq(p, q) for p, q in zip(x.e, y.e)]))
                    else: raise Unsupported('loop-carried vectors that were equal at entry diverge (line %s)' % loc(n)[0])
        ah = self.cfg.__dict__.get('after_iteration')
        if ah: ah(self, [(self.namefor(d, k), hv[key]['val'], d[k], hv[key]['pre']) for key, (d, k) in known.items()], g, bound, n)
        # 2. summarise
        self.own_reads(hv, known, g, snap_obs)
        rec = {'gen': g, 'bound': bound, 'line': loc(n)[0], 'vars': {}, 'omp': list(self.omp), 'pc': len(self.pc), 'func': self.callstack[-1] if self.callstack else None}
        self.events.append(('loop', rec))
        opq = set()
        for h in hv.values(): opq |= h['atoms']
        ga = tm.the_atom(g)
        forked = any(tm.fkey(f) in self.decided and (opq | {ga}) & set(tm.deep_atoms(tm.f_atoms(f))) for f in self.pc[pc0:] if isinstance(f, tuple))
        for key, (d, k) in known.items():
            h = hv[key]; cur = d[k]; pre = h['pre']
            nm = h['name']
            if 'stride' in h:
                if not isinstance(cur, Poly) or not (cur-pre-(g+1)*h['stride']).is_zero(): raise Unsupported('counter %s does not advance regularly (line %s)' % (nm, loc(n)[0]))
                self.write(d, k, pre+bound*h['stride']); continue
            if isinstance(h['val'], Uninit) and not isinstance(cur, VecVal):
                # scratch variable without a value at entry: it has none after the loop either (the loop may be empty)
                self.write(d, k, pre); continue
            if key in red and isinstance(cur, Poly):
                out = self.extreme(nm, h['val'], cur, pre, pc0, g, bound, opq, rec)
                if out is not None: self.write(d, k, out); continue
            if key in cnd and isinstance(cur, Poly) and isinstance(pre, Poly) and cur == h['val'] and forked:
                # another outcome of a test in this iteration may change it: nothing is known afterwards
                self.write(d, k, self.fresh('havoc.'+nm, 'I' if pre.is_int() else 'R')); continue
            if isinstance(cur, VecVal):
                self.sum_vec(rec, d, k, nm, pre, h, cur, g, bound, opq, n)
            elif isinstance(cur, Poly):
                self.sum_scalar(rec, d, k, nm, pre, h, cur, bound, opq, n)
            elif isinstance(cur, Mat):
                es = []
                for i in range(len(cur.e)):
                    es.append(self.scalar_out('%s.%d' % (nm, i), h['val'].e[i], cur.e[i], pre.e[i] if isinstance(pre, Mat) else None, opq, rec, n))
                self.write(d, k, Mat(cur.r, cur.c, es, cur.arr))
            elif isinstance(cur, Opaque): pass
            elif cur is True or cur is False or isinstance(cur, tuple):
                self.write(d, k, tm.boolvar(self.freshname(nm)))
            else:
                raise Unsupported('loop modifies %s of kind %s' % (nm, type(cur).__name__))
        if lv is not None: lv.set(self, IterVal(isit.lv, bound) if isit is not None else bound)
    def induction(self, C, n, lv):
        """counters: integer variables with a single unconditional increment in the loop nest; {variable id: stride per iteration}
        (only a guess: the generic iteration has to confirm the stride)"""
        if n.get('kind') != 'ForStmt' or C is None or self.mon: return {}
        out = {}
        def forparts(m):
            ks = [c for c in m.get('inner', ())]
            return (ks[2], ks[-1]) if len(ks) == 5 else (None, None)
        def strip(x):
            while isinstance(x, dict) and x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and x.get('inner'): x = x['inner'][0]
            return x
        def scan(m, stride, cond):
            if not isinstance(m, dict): return
            k = m.get('kind')
            if k == 'ForStmt':
                c, b = forparts(m); c = strip(c) if c else None
                st = None
                if c and c.get('kind') == 'BinaryOperator' and c.get('opcode') == '<' and stride is not None:
                    try:
                        o0 = len(self.obs); v = self.ev(C, c['inner'][1]); del self.obs[o0:]
                        if isinstance(v, Poly): st = stride*v
                    except Exception: st = None
                scan(b, st, cond); return
            if k in ('IfStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'ConditionalOperator', 'SwitchStmt', 'LambdaExpr'):
                for x in m.get('inner', ()): scan(x, None, True)
                return
            t = None
            if k == 'UnaryOperator' and m.get('opcode') in ('++', '--'): t = strip(m['inner'][0]); good = m['opcode'] == '++'
            elif k == 'CompoundAssignOperator' or k == 'BinaryOperator' and m.get('opcode') == '=': t = strip(m['inner'][0]); good = False
            if t and t.get('kind') == 'DeclRefExpr' and t.get('referencedDecl', {}).get('kind') == 'VarDecl':
                i = t['referencedDecl']['id']
                out[i] = None if i in out or not good or stride is None else stride
            for x in m.get('inner', ()): scan(x, stride, cond)
        c, b = forparts(n)
        if b is None: return {}
        scan(b, ONE, False)
        return {i: v for i, v in out.items() if v is not None and is_int_t(getattr(self, 'frame_types', {}).get(i) or '')}
    def havoc(self, known, g, n, ind={}):
        hv = {}
        eqs = {}
        for key, (d, k) in known.items():
            pre = d.get(k, _MISSING)
            nm = self.namefor(d, k)
            h = {'pre': pre, 'name': nm, 'atoms': set()}
            if isinstance(pre, VecVal):
                on = self.freshname('loop.'+nm)
                ln = pre.n
                if pre.n is not None and self.cfg.__dict__.get('vec_len_havoc', {}).get(nm):
                    ln = sym('len(%s)' % on, 'I', nonneg=True)
                val = VecVal(ln, pre.et, ('sym', on), tag=on)
                h['on'] = on
            elif isinstance(pre, Poly) and k in ind:
                val = pre+g*ind[k]; h['stride'] = ind[k]
            elif isinstance(pre, Poly):
                # variables equal at entry stay equal in the generic iteration (checked afterwards)
                ek = (pre.key(), 'P')
                s = self.fresh('loop.'+nm, 'I' if self.int_var(k, pre) else 'R')
                val = s; h['atoms'] = {tm.the_atom(s)}
            elif isinstance(pre, Mat):
                ek = pre.key() if not any(isinstance(x, Uninit) for x in pre.e) else None
                if ek is not None and ek in eqs and pre.r*pre.c > 1 and not self.cfg.__dict__.get('no_pairing'):
                    val = eqs[ek][1].copy(); h['eqto'] = eqs[ek][0]; h['atoms'] = set(x for e in val.e for x in e.atoms())
                elif self.cfg.__dict__.get('havoc_with') and self.cfg.havoc_with(self, nm, pre) is not None:
                    val = self.cfg.havoc_with(self, nm, pre); h['atoms'] = set(x for e in val.e for x in e.atoms())
                    if ek is not None: eqs[ek] = (key, val)
                else:
                    b = self.freshname('loop.'+nm)
                    val = Mat(pre.r, pre.c, [sym('%s.%d' % (b, i)) for i in range(len(pre.e))], pre.arr)
                    h['atoms'] = {tm.the_atom(e) for e in val.e}
                    if ek is not None: eqs[ek] = (key, val)
            elif isinstance(pre, Opaque): val = pre
            elif pre is True or pre is False or isinstance(pre, tuple):
                val = tm.boolvar(self.freshname('loop.'+nm))
            elif isinstance(pre, Uninit): val = pre
            elif isinstance(pre, ObjVal): raise Unsupported('loop replaces object %s' % nm)
            elif pre is _MISSING or pre is None: val = None
            else: raise Unsupported('havoc of %s (%s)' % (nm, type(pre).__name__))
            h['val'] = val
            hv[key] = h
            if val is not None: self.write(d, k, val)
        return hv
    def int_var(self, k, pre):
        """the havocked variable is an integer: by its declared type; without one only if its value already is an integer symbol"""
        t = getattr(self, 'frame_types', {}).get(k)
        if t: return not is_real_t(t) and pre.is_int()
        return pre.is_int() and pre.const() is None
    def namefor(self, d, k):
        nm = getattr(self, 'frame_names', {}).get(k)
        if nm: return nm
        return str(k)
    def contains(self, x, opq, names):
        """does value x depend on havocked state?"""
        ps = x.e if isinstance(x, Mat) else [x]
        for p in ps:
            if not isinstance(p, Poly): continue
            for a in tm.deep_atoms(p.atoms()):
                if a in opq: return True
                at = tm._atoms[a]
                if at.kind == 'sel' and at.name and any(at.name == q or at.name.startswith(q+'.') for q in names): return True
        return False
    def sum_vec(self, rec, d, k, nm, pre, h, cur, g, bound, opq, n):
        on = h['on']
        out = {'pre': pre, 'on': on, 'over': cur.over, 'adds': cur.adds}
        rec['vars'][nm] = out
        if cur.base != ('sym', on): # reassigned wholesale inside the loop
            b = cur.base[1] if cur.base[0] == 'sym' else None
            # a perfectly nested inner loop that wrote its own index only
            if not (b in self.chain and self.chain[b] == on and len(cur.over) == 1 and not cur.adds
                    and tm.the_atom(g) in cur.over[0][0].atoms()):
                raise Unsupported('vector %s replaced inside a loop' % nm)
        if not (cur.n - h['val'].n).is_zero():
            raise Unsupported('vector %s grows inside a loop (line %s)' % (nm, loc(n)[0]))
        fin = self.freshname('after.'+nm)
        names = [on]
        if cur.adds and not cur.over:
            for j, dl in cur.adds:
                if self.contains(dl, opq, names): raise Unsupported('scatter into %s depends on loop state' % nm)
            # own-index accumulation: index is exactly the generic one -> pointwise
            if len(cur.adds) == 1 and self.own_index(cur.adds[0][0], g):
                j, dl = cur.adds[0]
                base = self.vec_base(pre, j) if not pre.over and not pre.adds else self.vec_get(VarLV(d, '_pre') if False else TempLV(pre), j, check=False)
                val = self.add(base, dl)
                out['kind'] = 'own'; out['own'] = (j, val)
                if not pre.over and not pre.adds and pre.base[0] == 'sym': self.chain[fin] = pre.base[1]
                self.write(d, k, VecVal(pre.n, pre.et, ('sym', fin), ((j, val),)))
                return
            out['kind'] = 'scatter'; out['fin'] = fin
            self.scat[fin] = {'pre': pre, 'adds': cur.adds, 'gen': g, 'name': nm, 'bound': bound}
            self.write(d, k, VecVal(pre.n, pre.et, ('sym', fin)))
            return
        if cur.over and not cur.adds:
            if len(cur.over) == 1 and self.own_index(cur.over[0][0], g):
                j, val = cur.over[0]
                # reads of the havocked vector at the own index are reads of the pre-state
                if self.contains(val, opq, names):
                    raise Unsupported('iteration of %s depends on other iterations (line %s)' % (nm, loc(n)[0]))
                out['kind'] = 'own'; out['own'] = (j, val)
                if not pre.over and not pre.adds and pre.base[0] == 'sym': self.chain[fin] = pre.base[1]
                self.write(d, k, VecVal(pre.n, pre.et, ('sym', fin), ((j, val),)))
                return
            out['kind'] = 'writes'
            self.events.append(('nonown', nm, cur.over, rec))
            raise Unsupported('writes to %s at non-own indices (line %s) %s' % (nm, loc(n)[0], [tm.p_str(x[0]) if hasattr(tm,'p_str') else x[0] for x in cur.over]))
        if cur.over and cur.adds:
            if len(cur.over) == 1 and self.own_index(cur.over[0][0], g) and all(self.distinct(j, cur.over[0][0]) is False for j, _ in cur.adds):
                j, val = cur.over[0]
                for _, dl in cur.adds: val = self.add(val, dl)
                if self.contains(val, opq, names): raise Unsupported('iteration of %s depends on other iterations' % nm)
                out['kind'] = 'own'; out['own'] = (j, val)
                if not pre.over and not pre.adds and pre.base[0] == 'sym': self.chain[fin] = pre.base[1]
                self.write(d, k, VecVal(pre.n, pre.et, ('sym', fin), ((j, val),)))
                return
            raise Unsupported('mixed updates of %s' % nm)
        # nothing written in the end
        out['kind'] = 'none'
        self.write(d, k, pre)
    def own_index(self, j, g=None):
        """index expression identifies the iteration of every enclosing generic loop"""
        if g is not None and tm.the_atom(g) not in j.atoms(): return False
        f = self.cfg.__dict__.get('own_index')
        if f and f(self, j): return True
        a = tm.as_single(j)
        return a is not None and any(tm.the_atom(g) == a.id for g in self.gens.values())
    def own_reads(self, hv, known, g, obs0):
        """reads of a havocked vector at the iteration's own index are reads of the pre-state
        (every iteration writes its own index only; anything else is rejected by sum_vec)"""
        names = {h['on']: h['pre'] for h in hv.values() if 'on' in h}
        if not names: return
        ids = set()
        def val(v):
            if isinstance(v, Poly): ids.update(v.atoms())
            elif isinstance(v, Mat):
                for e in v.e: val(e)
            elif isinstance(v, VecVal):
                for j, x in v.over: val(x)
                for j, x in v.adds: val(x)
            elif isinstance(v, tuple): ids.update(tm.f_atoms(v))
        for key, (d, k) in known.items(): val(d.get(k))
        for f in self.pc: ids.update(tm.f_atoms(f))
        for o in self.obs[obs0:]:
            if o[2] is not True and o[2] is not False: ids.update(tm.f_atoms(o[2]))
        smap = {}
        for a in tm.deep_atoms(ids) | self.touched:
            at = tm._atoms[a]
            if at.kind != 'sel' or not at.name: continue
            on = at.name; comp = None
            if on not in names and '.' in on:
                on, c = on.rsplit('.', 1); comp = c
            if on not in names: continue
            j = at.args[0]
            if not self.own_index(j, g): continue
            pre = names[on]
            pv = self.vec_get(TempLV(pre), j, check=False)
            es = self.elem_sym(pre.et, on, j)
            if isinstance(pv, Mat):
                for x, y in zip(es.e, pv.e): smap[tm.the_atom(x)] = y
            else: smap[tm.the_atom(es)] = pv
        if not smap: return
        self.ownmap.append(smap)
        def sub(v):
            if isinstance(v, Poly): return tm.subst(v, smap)
            if isinstance(v, Mat): return v.map(sub)
            if isinstance(v, VecVal):
                return VecVal(v.n, v.et, v.base, tuple((j, sub(x)) for j, x in v.over), tuple((j, sub(x)) for j, x in v.adds), v.tag)
            if isinstance(v, tuple): return tm.fsubst(v, smap)
            return v
        for key, (d, k) in known.items():
            v = d.get(k)
            if v is not None and v is not _MISSING: self.write(d, k, sub(v))
        if any(tm.deep_atoms(tm.f_atoms(p)) & set(smap) for p in self.pc):
            newpc = [tm.fsubst(p, smap) for p in self.pc]
            self.decided = set(tm.fkey(tm.fsubst(p, smap)) for p in self.pc if tm.fkey(p) in self.decided) | self.decided
            self.obs = [(a_, b_, f, self.renum(c_, newpc)) for a_, b_, f, c_ in self.obs]
            self.pc = [p for p in newpc if p is not True]
            if any(p is False for p in self.pc): raise Infeasible()
            self.pcset = set(tm.fkey(p) for p in self.pc); self.solver = None
        self.obs = [(a_, b_, tm.fsubst(f2, smap) if f2 is not True and f2 is not False else f2, c_) for a_, b_, f2, c_ in self.obs]
    def renum(self, c, newpc): return len([p for p in newpc[:c] if p is not True])
    def resolve(self, v):
        """apply the own-index identities of finished loops to a value captured inside them"""
        if isinstance(v, Mat): return v.map(self.resolve)
        for m in self.ownmap:
            if isinstance(v, Poly): v = tm.subst(v, m)
            elif isinstance(v, tuple): v = tm.fsubst(v, m)
        return v
    def sum_scalar(self, rec, d, k, nm, pre, h, cur, bound, opq, n):
        self.write(d, k, self.scalar_out(nm, h['val'], cur, pre, opq, rec, n))
    def scalar_out(self, nm, hval, cur, pre, opq, rec, n):
        if cur == hval:
            rec['vars'][nm] = {'kind': 'none', 'pre': pre}
            return pre if isinstance(pre, Poly) else cur
        dl = cur - hval
        if not self.contains(dl, opq, []):
            s = self.fresh('sum.'+nm, 'I' if cur.is_int() else 'R')
            rec['vars'][nm] = {'kind': 'sum', 'pre': pre, 'delta': dl, 'out': s}
            c = dl.const()
            if c is not None and not self.pc_local(rec): s = rec['bound'].scale(c)
            return (pre if isinstance(pre, Poly) else ZERO) + s
        s = self.fresh('havoc.'+nm, 'I' if cur.is_int() else 'R')
        rec['vars'][nm] = {'kind': 'other', 'pre': pre, 'entry': hval, 'exit': cur, 'out': s}
        return s
    def extreme(self, nm, hval, cur, pre, pc0, g, bound, opq, rec):
        """running maximum (minimum): the iteration replaces the variable by e exactly when it is smaller (larger).  Both
        outcomes of the comparison are explored; each has to show this shape.  After the loop the variable is at least the
        start value and every e(i), and equals one of them."""
        if hval.const() is not None: return None
        at = tm.the_atom(hval)
        it = self.ites.get(tm.the_atom(cur)) if len(cur.d) == 1 and list(cur.d.values()) == [1] and len(list(cur.d)[0]) == 1 and list(cur.d)[0][0][1] == 1 else None
        if it is not None: cur = it[1]; hits = [it[0]]
        else: hits = [f for f in self.pc[pc0:] if isinstance(f, tuple) and f[0] in ('lt', 'le') and at in tm.deep_atoms(f[1].atoms())]
        if len(hits) != 1 or hits[0][0] not in ('lt', 'le'): return None
        f = hits[0]
        c = f[1].d.get(((at, 1),))
        if c is None: return None
        e = -(f[1].scale(Fraction(1)/c) - hval)                # f:  c*(hval - e) < 0  (<= 0)
        if self.contains(e, opq, []): return None
        less = c > 0                                           # this path: hval < e (or <=)
        if cur == hval: mx = not less
        elif cur == e: mx = less
        else: return None
        if it is not None and not (it[2] == (e if cur == hval else hval)): return None
        w = self.fresh('argmax' if mx else 'argmin', 'I', nonneg=True); self.assume(tm.lt(w, bound))
        ew = tm.subst(e, {tm.the_atom(g): w})
        s1 = 1 if mx else -1
        d0 = (ew-pre).scale(s1) if isinstance(pre, Poly) else None
        if d0 is None: return None
        if all(c_ > 0 and all(x % 2 == 0 or tm._atoms[a].nonneg for a, x in m_) for m_, c_ in d0.d.items()): M = ew
        else:
            M = self.fresh('extreme.'+nm, 'I' if ew.is_int() and pre.is_int() else 'R')
            self.assume(tm.ge((M-pre).scale(s1), 0)); self.assume(OR(tm.eq(M, pre), tm.eq(M, ew)))
        self.assume(tm.ge((M-e).scale(s1), 0))
        rec['vars'][nm] = {'kind': 'extreme', 'pre': pre, 'out': M}
        self.events.append(('extreme', mx, nm, w, M, None))
        return M
    def pc_local(self, rec): return True
    def newton_loop(self, C, cond, inc, body, n):
        """iteration with data-dependent exit: havoc everything the body modifies,
        run one generic iteration, leave either by break/return or by the test"""
        h = self.cfg.newton
        # discover modified variables
        known = {}
        lcs = None
        base_j = self.journal
        self._loopC = C
        known.update(scan_assigned(self, body, True)); 
        if inc is not None: known.update(scan_assigned(self, inc, True))
        for attempt in range(6):
            lc = LoopCtx()
            self.journal = []
            so, se, spc, spcs = len(self.obs), len(self.events), list(self.pc), set(self.pcset)
            hv = self.havoc(known, None, n)
            self.loopctx.append(lc)
            outcome = None
            try:
                f = self.cond_of(C, cond)
                self.newton_test = f; self.newton_cond = cond
                inv = h(self, C, hv, n, 'assume') if h else None
                if not self.decide(f): outcome = 'test'
                else:
                    self.in_newton += 0 if self.cfg.__dict__.get('newton_fork') else 1
                    try:
                        self.ex(Ctx(C.tu, {}, C.this, C), body)
                        if inc is not None: self.evx(C, inc)
                        outcome = 'back'
                    except ContinueX:
                        if inc is not None: self.evx(C, inc)
                        outcome = 'back'
                    except BreakX: outcome = 'break'
                    except ReturnX as r: outcome = r
                    finally: self.in_newton = max(0, self.in_newton-1)
            finally:
                self.loopctx.pop()
                j = self.journal; self.journal = base_j
            new = {key: dk for key, dk in lc.writes.items() if key not in lc.locals}
            if set(new) <= set(known): break
            for d, k, old in reversed(j):
                if old is _MISSING: d.pop(k, None)
                else: d[k] = old
            del self.obs[so:]; del self.events[se:]
            known.update(new)
            # decisions already taken remain part of the prefix; restart the body under them
        else:
            raise Unsupported('Newton loop effect does not stabilise')
        if base_j is not None: base_j.extend(j)
        self.events.append(('newton', loc(n)[0], outcome if isinstance(outcome, str) else 'return', {h['name']: (h['pre'], h['val'], d.get(k)) for (key, h), (d, k) in zip(hv.items(), [known[x] for x in hv])}))
        if outcome == 'back':
            if h:
                for (key, hh), (d, k) in zip(hv.items(), [known[x] for x in hv]): hh['cur'] = self.resolve(d[k]) if isinstance(d.get(k), Poly) else d.get(k)
                h(self, C, hv, n, 'assert')
            raise AbortPath()
        if isinstance(outcome, ReturnX): raise outcome
    # ---- OpenMP
    def omp_stmt(self, C, n):
        k = n['kind']
        body = None
        for c in n.get('inner', ()):
            if isinstance(c, dict) and c.get('kind') in ('CapturedStmt',):
                body = c
            elif isinstance(c, dict) and c.get('kind') and not c['kind'].startswith('OMP') and c['kind'] not in ('CapturedStmt',) and body is None and c['kind'].endswith('Stmt'):
                body = c
        if body is None:
            if k == 'OMPBarrierDirective':
                if self.mon: self.mon.enter(C, k, '')
                return
            raise Unsupported(k)
        while body['kind'] in ('CapturedStmt', 'CapturedDecl'):
            nb = None
            for c in self.kids(body):
                if c['kind'] == 'CapturedDecl' or c['kind'].endswith('Stmt') or c['kind'].startswith('OMP'):
                    nb = c; break
            if nb is None: raise Unsupported('captured statement')
            body = nb
        prag = self.pragma_text(C, n)
        self.omp.append((k, prag))
        self.events.append(('omp', k, prag, loc(n)[0]))
        tok = None
        if self.mon:
            if prag is None: raise Unsupported('OpenMP directive without readable text')
            try: tok = self.mon.enter(C, k, prag)
            except ValueError as e: raise Unsupported('OpenMP: %s' % e)
        try:
            C2 = Ctx(C.tu, {}, C.this, C)
            self.ex(C2, body)
        finally:
            self.omp.pop()
            if tok: self.mon.leave(tok)
    def pragma_text(self, C, n):
        if not self.mon: return ''
        from . import race
        return race.pragma_text(self.prog.dir, C.tu, n)

class BlockLV(LV):
    def __init__(self, l, kind, i): self.l = l; self.kind = kind; self.i = i
    def get(self, X):
        m = X.rd(self.l.get(X))
        if self.kind == 'row': return Mat(1, m.c, [m[self.i, j] for j in range(m.c)])
        return Mat(m.r, 1, [m[j, self.i] for j in range(m.r)])
    def set(self, X, v):
        m = self.l.get(X)
        if isinstance(m, Uninit): m = Mat(m.rc[0], m.rc[1], [Uninit(m.name)]*(m.rc[0]*m.rc[1]))
        e = list(m.e)
        for t, x in enumerate(v.e):
            if self.kind == 'row': e[self.i*m.c+t] = x
            else: e[t*m.c+self.i] = x
        self.l.set(X, Mat(m.r, m.c, e, m.arr))

class LoopCtx:
    def __init__(self): self.writes = {}; self.locals = set()
    def wrote(self, d, k):
        key = (id(d), k)
        if key not in self.writes: self.writes[key] = (d, k)
    def declared(self, d, k):
        self.locals.add((id(d), k))

class _Missing: pass
_MISSING = _Missing()
class _Default: pass
DEFAULT = _Default()

class Ctx:
    __slots__ = ('tu', 'frame', 'this', 'parent', 'names')
    def __init__(self, tu, frame, this, parent=None):
        self.tu = tu; self.frame = frame; self.this = this; self.parent = parent; self.names = {}

def lit(s):
    """rational meaning of a C++ floating literal (decimal text as printed by clang)"""
    f = float(s)
    if f != f or f in (float('inf'), float('-inf')): raise Unsupported('literal '+s)
    for den in (1000, 10**6):
        fr = Fraction(f).limit_denominator(den)
        if float(fr) == f: return fr
    return Fraction(s)

def nonlinear(f):
    if f is True or f is False: return False
    for x in f[1:]:
        if isinstance(x, Poly):
            for m in x.d:
                if sum(abs(e) for a, e in m) >= 2: return True
        elif isinstance(x, tuple) and nonlinear(x): return True
    return False

def quick(f):
    """sign reasoning on nonneg/pos atoms"""
    k = f[0]
    if k not in ('lt', 'le', 'eq', 'ne'): return None
    p = f[1]
    neg = pos = False; strict = False
    for m, c in p.d.items():
        allnn = all(tm._atoms[a].nonneg or e % 2 == 0 for a, e in m)
        if not allnn: return None
        allp = all(tm._atoms[a].pos for a, e in m)
        if c > 0: pos = True
        else: neg = True
        if allp: strict = True
    if pos and not neg:   # p >= 0
        if k == 'lt': return False
        if strict: return {'le': False, 'eq': False, 'ne': True}[k]
    if neg and not pos:   # p <= 0
        if k == 'le': return True
        if strict: return {'lt': True, 'eq': False, 'ne': True}[k]
    return None

def only_continue(n):
    if n['kind'] == 'ContinueStmt': return True
    return n['kind'] == 'CompoundStmt' and [c.get('kind') for c in n.get('inner', ())] == ['ContinueStmt']

def strip_casts(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups') and n.get('inner'): n = n['inner'][0]
    return n

def writes_in(n):
    k = n.get('kind')
    if k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n.get('opcode') in ('++', '--') or k == 'BinaryOperator' and n.get('opcode') == '=': return True
    return any(writes_in(c) for c in n.get('inner', ()) if isinstance(c, dict))

def reductions(X, n):
    """outer scalar variables that the loop both assigns and compares: candidates for a running maximum or minimum"""
    if X._loopC is None or X.mon: return {}
    out = {k: v for k, v in scan_assigned(X, n, True).items() if isinstance(v[0].get(v[1]), Poly)}
    if not out: return {}
    tested = set()
    def refs(m, acc):
        if m.get('kind') == 'DeclRefExpr': acc.add(m.get('referencedDecl', {}).get('id'))
        if m.get('kind') == 'MemberExpr': acc.add(m.get('name'))
        for c in m.get('inner', ()):
            if isinstance(c, dict): refs(c, acc)
    st = [n]
    while st:
        m = st.pop(); ch = [c for c in m.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
        if m.get('kind') in ('IfStmt', 'ConditionalOperator') and ch: refs(ch[0], tested)
        if m.get('kind') == 'CallExpr' and ch:
            a = set(); refs(ch[0], a); nm = set(); q = [ch[0]]
            while q:
                z = q.pop(); nm.add(z.get('referencedDecl', {}).get('name')); q.extend(c for c in z.get('inner', ()) if isinstance(c, dict))
            if nm & {'max', 'min', 'fmax', 'fmin'}:
                for c in ch[1:]: refs(c, tested)
        st.extend(ch)
    return {k: v for k, v in out.items() if k[1] in tested and k[1] in {i for i in tested}}

def scan_assigned(X, n, scalars=False):
    """outer variables that the loop statement n may assign (syntactic over-approximation; the dynamic check of
    generic_loop remains in force), as {key: (frame, id)}"""
    ids = set(); mem = set()
    def root(e):
        while isinstance(e, dict):
            k = e.get('kind')
            if k == 'MemberExpr' and scalars:
                ch = [c for c in e.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
                if ch and ch[0]['kind'] == 'CXXThisExpr': mem.add(e.get('name')); return None
            if k == 'DeclRefExpr': return e.get('referencedDecl', {}).get('id')
            ch = [c for c in e.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
            if k == 'CXXOperatorCallExpr' and len(ch) > 1: e = ch[1]
            elif ch: e = ch[0]
            else: return None
    st = [n]
    while st:
        m = st.pop()
        k = m.get('kind'); ch = [c for c in m.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and m.get('opcode', '').endswith('=') and m.get('opcode') not in ('==', '!=', '<=', '>='): ids.add(root(ch[0]))
        elif k == 'UnaryOperator' and m.get('opcode') in ('++', '--'): ids.add(root(ch[0]))
        elif k == 'CXXOperatorCallExpr' and len(ch) > 1:
            o = ch[0]
            while o.get('inner'): o = o['inner'][0]
            if o.get('referencedDecl', {}).get('name') in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='): ids.add(root(ch[1]))
        elif k == 'CXXMemberCallExpr' and ch and ch[0].get('name', '') in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'normalize', 'fill', 'swap'): ids.add(root(ch[0]))
        elif k == 'CallExpr':
            for c in ch[1:]:
                if c.get('kind') == 'DeclRefExpr': ids.add(root(c))
        st.extend(ch)
    out = {}
    for i in ids:
        C = X._loopC
        while C is not None and i not in C.frame: C = C.parent
        if C is None: continue
        d, k = C.frame, i
        while isinstance(d.get(k), VarLV): d, k = d[k].d, d[k].k
        if isinstance(d.get(k), Mat) or (scalars and isinstance(d.get(k), (Poly, Uninit))): out[(id(d), k)] = (d, k)
    th = X._loopC.this if scalars else None
    for m in mem:
        if isinstance(th, ObjVal) and isinstance(th.f.get(m), Poly): out[(id(th.f), m)] = (th.f, m)
    return out

def has_jump(n):
    st = [n]
    while st:
        m = st.pop()
        if m.get('kind') in ('BreakStmt', 'ContinueStmt', 'ReturnStmt'): return True
        if m.get('kind') == 'LambdaExpr': continue
        st.extend(c for c in m.get('inner', ()) if isinstance(c, dict) and 'kind' in c)
    return False
def has_exit(n):
    st = [n]
    while st:
        m = st.pop()
        if m.get('kind') in ('BreakStmt', 'ReturnStmt'): return True
        if m.get('kind') == 'LambdaExpr': continue
        st.extend(c for c in m.get('inner', ()) if isinstance(c, dict) and 'kind' in c)
    return False

# ------------------------------------------------------------------ driver
def explore(prog, cfg, setup, maxpaths=None):
    """setup(X) -> runs the function under verification, returns a result object.
    Yields (X, result) for every completed path.  Infeasible paths are dropped."""
    work = [[]]; out = []
    n = 0
    while work:
        pre = work.pop()
        n += 1
        if n > (maxpaths or cfg.max_paths): raise Unsupported('too many paths')
        X = Exec(prog, cfg, pre)
        res = None; status = 'ok'
        try:
            res = setup(X)
        except Infeasible: status = 'infeasible'
        except AbortPath: status = 'abort'
        work.extend(X.pending)
        if status != 'infeasible': out.append((X, res, status))
    return out
