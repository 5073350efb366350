"""Shared specification of the particle/grid transfer: weights, stencils, contributions."""
import itertools
from fractions import Fraction
from vcg import term as tm
from vcg.term import Poly, P, ZERO, ONE, A, sym, NOT, AND, OR
from vcg.interp import *
from vcg import smt
from vcg.state import *

def own_cfg(cfg):
    def own(X, j):
        S = X.S
        if not hasattr(S, 'Ns'): return False
        g = [X.gens[N.key()] for N in S.Ns]
        return (j-ind(S, g)).is_zero()
    cfg.own_index = own
    return cfg

def cases(dim, deg, open0=False):
    return list(itertools.product(pieces(deg), repeat=dim))

def case_hyps(S, case):
    h = []
    for f, (lo, hi) in zip(S.fs, case):
        h += [tm.ge(f, P(lo)), tm.lt(f, P(hi))]
    return h

def unchi(p):
    """(value with every chi set to 1, list of chi conditions)"""
    smap = {}; conds = []
    for a in p.atoms():
        at = tm._atoms[a]
        if at.kind == 'chi':
            smap[a] = ONE; conds.append(at.args[0])
    return (tm.subst(p, smap) if smap else p), conds

def offs(dim): return list(itertools.product((-1, 0, 1, 2), repeat=dim))

def weight_spec(S, deg, case, off):
    """B-spline weight and gradient (times dx) at node m+off, as polynomials in the cell fractions"""
    w1 = []; g1 = []
    for a, o in enumerate(off):
        u = S.fs[a] - o
        lo, hi = case[a]; mid = (lo+hi)/2 - o
        w = ZERO; g = ZERO
        for (a0, b0, co) in bspline(deg, None):
            if a0 <= mid < b0:
                w = sum((u**i*co[i] for i in range(len(co))), ZERO)
                g = sum((u**(i-1)*(co[i]*i) for i in range(1, len(co))), ZERO)
        w1.append(w); g1.append(g)
    w = ONE
    for x in w1: w = w*x
    gr = []
    for a in range(len(off)):
        t = g1[a]
        for b in range(len(off)):
            if b != a: t = t*w1[b]
        gr.append(t)
    return w, gr

def node_offset(S, idx):
    """stencil offset o with idx = ind(m+o), searched in [-3,4]^dim"""
    dim = len(S.ms)
    d = idx - ind(S, S.ms)
    # d = o0*N1*N2 + o1*N2 + o2
    rem = d; out = []
    for a in range(dim):
        st = ONE
        for b in range(a+1, dim): st = st*S.Ns[b]
        (m, c), = st.d.items()
        k = rem.d.get(m, Fraction(0))
        if k.denominator != 1 or abs(k) > 6: return None
        out.append(int(k)); rem = rem - st.scale(k)
    return tuple(out) if rem.is_zero() else None

def comps(v): return v.e if isinstance(v, Mat) else [v]

def contributions(X, S, val, l):
    """val: polynomial linear in Sum atoms sel:after.K[.c](l) ->  {offset: per-particle contribution}
    plus the part that does not come from particles.  Raises Unsupported when not of that shape."""
    out = {}; rest = ZERO
    # group monomials by the Sum atom they contain
    by = {}
    for m, c in val.d.items():
        s = [a for a, e in m if tm._atoms[a].kind == 'sel' and base_of(X, tm._atoms[a].name)]
        if not s:
            rest = rest + Poly({m: c}); continue
        if len(s) != 1 or dict(m)[s[0]] != 1: raise Unsupported('nodal value is not linear in the particle sums')
        r = tuple(x for x in m if x[0] != s[0])
        by.setdefault(s[0], {})[r] = c
    for a, co in by.items():
        at = tm._atoms[a]
        if not (at.args[0]-l).is_zero(): raise Unsupported('nodal value reads another node')
        K, comp = base_of(X, at.name)
        coef = Poly(co)
        rec = X.scat[K]
        pre = rec['pre']
        pv = X.vec_get(TempLV(pre), l, check=False)
        pv = pv.e[comp] if isinstance(pv, Mat) else pv
        rest = rest + coef*pv
        for idx, dl in rec['adds']:
            o = node_offset(S, idx)
            if o is None: raise Unsupported('scatter index is not a stencil node')
            d = comps(dl)[comp]
            out[o] = out.get(o, ZERO) + coef*d
    return out, rest

def base_of(X, name):
    if name in X.scat: return name, 0
    if '.' in name:
        b, c = name.rsplit('.', 1)
        if b in X.scat and c.isdigit(): return b, int(c)
    return None

def node_val(X, S, vec):
    return X.vec_get(TempLV(vec), S.l, check=False)

def pick(X, f, deg, S, case):
    """expand the spline atoms of p for the case; Unsupported when an argument is not fraction+const"""
    r = expand_splines(f, deg, S.fs, case)
    if r is None: raise Unsupported('kernel evaluated at an argument that is not particle minus node')
    return r

# ------------------------------------------------------------------ obligations about scatters
def fN(S, a, o, kind='N'): return A('spl', S.fs[a]-o, name=kind)

def w_atom(S, o):
    r = ONE
    for a in range(len(o)): r = r*fN(S, a, o[a])
    return r

def gw_atom(S, o, ax):
    r = ONE/S.f['dx']
    for a in range(len(o)): r = r*fN(S, a, o[a], 'dN' if a == ax else 'N')
    return r

def spl_poly_equal(R, name, func, S, deg, got, spec, hyps=()):
    """got == spec for every cell fraction: first with the kernel symbolic, then piece by piece"""
    if got == spec or tm.clear_inv(got-spec).is_zero(): return R.prove(name, [], True, func)
    for case in cases(len(S.fs), deg):
        g = pick(None, got, deg, S, case); s = pick(None, spec, deg, S, case)
        h = case_hyps(S, case) + list(hyps)
        if not R.prove(name+' (piece)', h, tm.eq(g, s), func): return False
    return True

def check_nodal(R, X, S, func, what, val, spec, deg, guard=True, tol=Fraction(1, 10**20), hyps=()):
    """nodal value = sum over particles of spec(o) (o = node offset from the particle's cell), where terms whose
    weight does not exceed 1e-20 may be dropped"""
    con, rest = contributions(X, S, val, S.l)
    R.prove('%s: no contribution that does not come from particles' % what, X.pc, tm.eq(rest, ZERO), func)
    dim = len(S.fs)
    for o in sorted(set(con) | set(offs(dim))):
        d = con.get(o, ZERO)
        d1, conds = unchi(d)
        spl_poly_equal(R, '%s at node offset %s' % (what, o), func, S, deg, d1, spec(o), hyps)
        for c in conds:
            key = ('guard', o, tm.fkey(c), deg)
            if key in R.__dict__.setdefault('_done', set()): continue
            R._done.add(key)
            nc = NOT(c)
            w = w_atom(S, o)
            # fast route: not(cond) is literally  w <= const
            if nc[0] in ('le', 'lt'):
                k = (nc[1]-w).const()
                if k is not None:
                    R.fact('%s: dropped weights are below 1e-20' % what, -k <= tol, func, 'guard %s' % tm.f_str(c)); continue
            for case in cases(dim, deg):
                h = case_hyps(S, case)
                ok = True
                nce = expand_formula(nc, deg, S, case)
                R.prove('%s: dropped weights are below 1e-20 (node %s)' % (what, o), h+[nce], tm.le(pick(None, w, deg, S, case), P(tol)), func)

def expand_formula(f, deg, S, case):
    if f is True or f is False or f[0] == 'b': return f
    if f[0] in ('lt', 'le', 'eq', 'ne'):
        return tm.cmpf({'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[f[0]], pick(None, f[1], deg, S, case), ZERO)
    if f[0] == 'not': return NOT(expand_formula(f[1], deg, S, case))
    return (AND if f[0] == 'and' else OR)(*[expand_formula(x, deg, S, case) for x in f[1:]])

def explore_fn(prog, fn, contracts=None, pre=None, zero_grid=False, cfg=None, **kw):
    cfg = cfg or own_cfg(base_cfg(prog))
    for q, h in (contracts or {}).items(): cfg.contracts[q] = h
    def setup(X):
        S = mk_sim(X, prog.dim, zero_grid=zero_grid, **kw); X.S = S
        if pre: pre(X, S)
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, [])
        return S
    ps = explore(prog, cfg, setup)
    return [(X, S) for X, S, st in ps if st == 'ok']

def pv(S, name, X):
    """value of a particle array at the generic particle"""
    return X.vec_get(TempLV(S.f['particles'].f[name]), S.p, check=False)
def pv0(S, name, X):
    return X.vec_get(TempLV(S.pre['particles'].f[name]), S.p, check=False)

def stencil_sum(S, vec, term, X):
    """sum over the 4^d stencil nodes of term(o, value of vec at the node)"""
    r = None
    for o in offs(len(S.fs)):
        v = X.vec_get(TempLV(vec), ind(S, [m+k for m, k in zip(S.ms, o)]), check=False)
        t = term(o, v)
        r = t if r is None else (mat_add(r, t) if isinstance(r, Mat) else r+t)
    return r

def rel(S, o, a):
    """x_node - x_particle along axis a"""
    return S.f['dx']*(P(o[a])-S.fs[a])

def frame_ok(R, S, X, func, allowed_p=(), allowed_g=(), allowed_s=()):
    """nothing else is modified: particle arrays, grid arrays, scalar members"""
    for k, v in S.pre['particles'].f.items():
        if k in allowed_p: continue
        cur = S.f['particles'].f[k]
        R.fact('frame: particles.%s unchanged' % k, same_vec(cur, v), func, repr(cur)[:200])
    if 'grid' in S.pre:
        for k, v in S.pre['grid'].f.items():
            if k in allowed_g: continue
            cur = S.f['grid'].f[k]
            R.fact('frame: grid.%s unchanged' % k, same_vec(cur, v) if isinstance(v, VecVal) else cur == v, func, repr(cur)[:200])
    for k, v in S.f.items():
        if k in ('particles', 'grid') or k in allowed_s or k not in S.pre: continue
        if k.startswith('runtime'): continue
        o = S.pre[k]
        if isinstance(v, Poly): R.fact('frame: %s unchanged' % k, isinstance(o, Poly) and v == o, func, '%r -> %r' % (o, v))
        elif isinstance(v, Mat): R.fact('frame: %s unchanged' % k, isinstance(o, Mat) and v.key() == o.key(), func)

def same_vec(a, b):
    if a is b: return True
    if not isinstance(a, VecVal) or not isinstance(b, VecVal): return False
    if not (a.n == b.n and a.base == b.base and not a.adds and not b.adds and len(a.over) == len(b.over)): return False
    k = lambda v: [(j.key(), x.key()) for j, x in v.over]
    return k(a) == k(b)

def vec(S, e): return Mat(len(e), 1, e)

FR = sym('flip_ratio')
REGIMES = ((tm.lt(FR, -1), 'APIC'), (AND(tm.ge(FR, -1), tm.lt(FR, 0)), 'AFLIP'), (tm.ge(FR, 0), 'PIC-FLIP'))
def regimes(X):
    """transfer schemes (by the sign and size of the blending parameter) that are possible on this path"""
    base = [h for h in X.pc if tm.deep_atoms(tm.f_atoms(h)) and set(tm.deep_atoms(tm.f_atoms(h))) <= set(FR.atoms())]
    for c, nm in REGIMES:
        if smt.check_unsat(base+[c], [], 2000)[0] != 'unsat': yield base+[c], nm
