"""C19: particle sampling: the requested region is filled, volume, mass, cell size and arrays are consistent."""
from .transfer import *
from .setup import *
from .c17 import grows, loopvar
from vcg.prover import *
FILES = {'headers', 'vdb'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
FNS = ('regularSampleParticles', 'sampleParticles', 'regularSampleParticlesFromVdb', 'sampleParticlesFromVdb')
def tasks(progs, tier): return [('%s %dD' % (f, d), sample, (progs[(d, 2)], f)) for d in (2, 3) for f in FNS]
ASSUME = ['contract of the Poisson-disk sampler: it returns at least one point, all inside the box it is given (its minimum distance is not decided)',
          'contract of the level set (OpenVDB): corners of its bounding box, and whether a point is inside', 'box edges, cell size, density and particles per cell positive',
          'exact arithmetic: a box edge that is a whole number of spacings may lose its last layer to rounding']
HARNESS = dict(driver='h_sample.cpp', builds=[(2, 2), (3, 2)], flags=(), n=4000, time=8)
class Rejected(Exception): pass

def pick(prog, name):
    ms = [m for m in prog.byname.get(name, ()) if m.startswith('_Z')]
    if len(ms) != 1: raise Unsupported('function %s' % name)
    return ms[0]

def paths(prog, name):
    dim = prog.dim; vdb = 'Vdb' in name; rnd = name.startswith('sample')
    cfg = sim_cfg(prog); cfg.merge_all = False
    def lh(X, C, cond, inc, body, n):
        if not grows(body): return False
        var = loopvar(X, C, cond)
        if var is None: raise Unsupported('loop that appends')
        st = X.rd(var.get(X))
        if not (isinstance(st, Poly) and st.is_zero()): raise Unsupported('appending loop does not start at zero')
        c = cond
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): c = X.kids(c)[0]
        bound = X.rd(X.ev(C, X.kids(c)[1]))
        def one(g):
            var.set(X, g)
            try: X.ex(Ctx(C.tu, {}, C.this, C), body)
            except ContinueX: pass
            if inc is not None: X.evx(C, inc)
            if not (X.rd(var.get(X))-g-1).is_zero(): raise Unsupported('appending loop with another stride')
        each(X, bound, one)
        var.set(X, bound)
        return True
    def rh(X, one, bound, body, n):
        if not grows(body): return False
        def once(g):
            try: one(g)
            except ContinueX: pass
        each(X, bound, once)
        return True
    cfg.range_handler = rh
    def each(X, bound, one):
        g = X.fresh('s', 'I', nonneg=True); X.assume(tm.lt(g, bound))
        if not X.gstack: X.pushed = []; X.idx = set(); X.names = None
        X.gstack.append((g, bound))
        if len(X.gstack) == dim: X.full = list(X.gstack)
        if len(X.gstack) == 1: X.dec0 = len(X.taken)
        one(g)
        X.gstack.pop()
        if not X.gstack:
            seen = {}
            for l, x, gens, npc in X.pushed:
                k = id(l.__dict__.get('d')), l.__dict__.get('k')
                seen.setdefault(k, []).append((l, x, gens))
            if not seen:
                if X.lattice is None and not rnd: X.lattice = X.full; X.latpt = X.asked[0] if X.asked else None
                raise Rejected()
            for k, ps in seen.items():
                l, x, gens = ps[0]
                if len(ps) > 1: X.dup = True
                X.grown.append((x, gens))
                if X.lattice is None: X.lattice = gens; X.latpt = x
                nn = ONE
                for _, b in gens: nn = nn*b
                if any(q[3] for q in X.pushed if q[0] is l): nn = X.fresh('count', 'I', nonneg=True)
                v = l.get(X)
                def at(i, x=x, X=X):
                    i = X.rd(i)
                    if len(X.gstack) == 1 or not X.gstack:
                        X.idx.add(i.key())
                        if len(X.idx) > 1 or i.const() is not None: raise Unsupported('samples are not used one by one')
                        return x
                    raise Unsupported('samples used in a nested loop')
                X.idx = set()
                l.set(X, VecVal(nn, v.et, ('fn', at)))
    cfg.loop_handler = lh
    def on_push(X, l, v, x):
        if not X.gstack: return False
        if not v.n.is_zero(): raise Unsupported('appending to a vector that is not empty')
        x = X.resolve(x) if isinstance(x, (Mat, Poly)) else x
        X.pushed.append((l, x.copy() if isinstance(x, Mat) else x, list(X.gstack), len(X.taken)-X.dec0))
        return True
    cfg.on_push = on_push
    def poisson(X, th, a, n):
        a = [x.get(X) if isinstance(x, LV) else x for x in a]
        M = X.M = sym('samples', 'I', pos=True); X.pargs = a
        pt = [sym('pt.%d' % i) for i in range(dim)]; X.pt = pt
        lo, hi = ([X.rd(X.vec_get(TempLV(a[k]), P(i), check=False)) for i in range(dim)] for k in (1, 2))
        X.lo, X.hi = lo, hi
        for i in range(dim): X.assume(tm.le(lo[i], pt[i])); X.assume(tm.le(pt[i], hi[i]))
        val = VecVal(dim, 'double', ('list', tuple(pt)))
        def at(i):
            i = X.rd(i); X.idx.add(i.key())
            if len(X.idx) > 1 or i.const() is not None: raise Unsupported('samples are not used one by one')
            return val
        X.idx = set()
        return VecVal(M, 'std::array<double, %d>' % dim, ('fn', at))
    cfg.contracts['PoissonDiskSampling'] = poisson
    cfg.contracts['debug'] = lambda X, th, a, n: None
    def inside(X, th, a, n):
        x = a[0].get(X) if isinstance(a[0], LV) else a[0]
        X.asked.append(X.resolve(x)); return ('b', 'inside')
    def bounds(X, th, a, n): a[0].set(X, X.cmin.copy()); a[1].set(X, X.cmax.copy())
    cfg.contracts['ObjectVdb::inside'] = inside; cfg.contracts['ObjectVdb::bounds'] = bounds
    def setup(X):
        S = ObjVal('Simulation', ''); X.S = S; f = S.f
        X.gstack = []; X.pushed = []; X.grown = []; X.asked = []; X.idx = set(); X.dup = False; X.M = None; X.lattice = None; X.latpt = None; X.full = []
        for nm in ('dx', 'rho', 'Lx', 'Ly', 'Lz', 'particle_volume', 'particle_mass'): f[nm] = sym(nm, pos=True)
        f['Np'] = sym('Np', 'I', nonneg=True); f['particles'] = ObjVal('Particles', 'particles')
        X.ppc = sym('ppc', pos=True); X.crop = sym('crop', 'I', nonneg=True); X.rad = sym('radius', pos=True); X.att = sym('attempts', 'I', pos=True); X.seed = sym('seed', 'I', nonneg=True)
        X.cmin = Mat(dim, 1, [sym('lo.%d' % i) for i in range(dim)]); X.ext = [sym('ext.%d' % i, pos=True) for i in range(dim)]; X.cmax = Mat(dim, 1, [X.cmin.e[i]+X.ext[i] for i in range(dim)])
        S.pre = dict(f)
        ob = ObjVal('ObjectVdb', 'ob')
        args = [S] + ([ob] if vdb else []) + ([X.rad] if rnd else []) + [X.ppc] + ([] if vdb else [X.crop]) + ([X.att, X.seed] if rnd and not vdb else [])
        tu, node = prog.funcs[pick(prog, name)]
        try: X.call(tu, node, None, args)
        except Rejected: S.rej = True; return S
        S.rej = False
        return S
    return [(X, S) for X, S, st in explore(prog, cfg, setup) if st == 'ok']

def sample(R, prog, name):
    fn = name; R.fn(fn)
    dim = prog.dim; vdb = 'Vdb' in name; rnd = name.startswith('sample')
    for X, S in paths(prog, name): one(R, X, S, fn, dim, vdb, rnd)

def one(R, X, S, fn, dim, vdb, rnd):
    pc, f, pre = X.pc, S.f, S.pre
    for kind, nm, g_, n_ in X.obs: R.prove('%s: %s' % (kind, nm), X.pc[:n_], g_, fn)
    LN = ('Lx', 'Ly', 'Lz')[:dim]
    L = X.ext if vdb else [pre[n] for n in LN]
    O = X.cmin.e if vdb else [ZERO]*dim
    g = lambda n: X.rd(f[n])
    vol, mass, dx = g('particle_volume'), g('particle_mass'), g('dx')
    prod = ONE
    for l in L: prod = prod*l
    if not S.rej:
        R.eqp('particle mass is density times particle volume', pc, mass, pre['rho']*vol, fn)
        R.prove('particles per cell', pc, AND(tm.eq(vol*X.ppc, dx**dim), tm.gt(dx, 0)), fn)
        if rnd: R.eqp('the samples share the volume of the box', pc, vol*X.M, prod, fn)
        else: R.eqp('cell size is the given one', pc, dx, pre['dx'], fn)
        R.eqp('density is kept', pc, g('rho'), pre['rho'], fn)
        for n, l in zip(LN, L): R.eqp('extent '+n, pc, g(n), l, fn)
    if rnd:
        if X.M is None: raise Unsupported('Poisson sampling is not used')
        R.eqp('sampling radius', pc, X.rd(X.pargs[0]), X.rad, fn)
        for i in range(dim): R.eqp('sampling box, lower corner', pc, X.lo[i], O[i], fn); R.eqp('sampling box, upper corner', pc, X.hi[i], O[i]+L[i], fn)
        if not vdb and len(X.pargs) > 4: R.eqp('attempts', pc, X.rd(X.pargs[3]), X.att, fn); R.eqp('seed', pc, X.rd(X.pargs[4]), X.seed, fn)
        pt = X.pt
        sp = None
    else:
        # the generic point of the lattice
        if X.pushed and not X.grown: raise Unsupported('lattice')
        gens = X.lattice
        s = sym('spacing', pos=True)
        hy = [tm.eq(s**dim*X.ppc, pre['dx']**dim)]
        sx = X.spacing = (pre['dx']/tm.cbrt(X.ppc) if dim == 3 else pre['dx']/tm.sqrt(X.ppc))
        if len(gens) != dim: raise Unsupported('lattice loops')
        pt = []; left = list(gens)
        for i in range(dim):
            x = X.latpt.e[i] if X.latpt is not None else None
            hit = [q for q in left if tm.clear_inv(x-O[i]-(q[0]+P(Fraction(1, 2)))*sx).is_zero()] if x is not None else []
            R.fact('lattice point is the middle of its own cell of the lattice', len(hit) == 1, fn, 'axis %d: %s' % (i, x), status='unknown' if x is None else 'refuted')
            if len(hit) != 1: return
            left.remove(hit[0]); b = hit[0][1]
            R.prove('the lattice fills the box along axis %d' % i, pc, AND(tm.le(b*sx, L[i]), tm.gt((b+1)*sx, L[i]), tm.ge(b, 0)), fn)
            R.prove('lattice point inside the box', pc, AND(tm.gt(x, O[i]), tm.lt(x, O[i]+L[i])), fn)
            pt.append(x)
    # which points are kept
    one_ = P(1); two = P(2); half = P(Fraction(1, 2))
    if vdb:
        keep = ('b', 'inside')
        R.fact('the level set is asked about the sample itself', len(X.asked) == 1 and all(tm.clear_inv(a-b).is_zero() for a, b in zip(X.asked[0].e, pt)), fn, str(X.asked)[:200])
    else:
        c1, c2 = tm.eq(X.crop, one_), tm.eq(X.crop, two)
        if dim == 2: k1 = tm.lt(pt[1], P(Fraction(1, 20))+(pt[0]-L[0])**2*100-dx*half); k2 = True
        else:
            r2 = (pt[0]-L[0]*half)**2+(pt[2]-L[2]*half)**2
            k1 = tm.lt(r2, (L[0]*half)**2); k2 = tm.lt(r2, (tm.tanh(pt[1])+1)**2)
        if X.implied(c1): keep = k1
        elif X.implied(c2): keep = k2
        else: keep = True; R.prove('shapes are 1 and 2 only', pc, AND(NOT(c1), NOT(c2) if dim == 3 else True), fn)
    if S.rej: R.prove('a sample is left out only if it lies outside the requested shape', pc, NOT(keep), fn); return
    R.prove('a kept sample lies in the requested shape', pc, keep, fn)
    R.fact('no sample is used twice', not X.dup, fn)
    # the particles are the kept samples
    pp = f['particles']; Np = g('Np')
    x = pp.f['x']
    R.eqp('one position per particle', pc, x.n, Np, fn)
    X.idx = set(); X.gstack = []
    q = X.gens.get(Np.key())
    if q is None: q = X.fresh('q', 'I', nonneg=True)
    X.assume(tm.lt(q, Np))
    e = X.resolve(X.rd(X.vec_get(TempLV(x), q, check=False)))
    for i in range(dim): R.eqp('particle at its sample', X.pc, e.e[i], pt[i], fn)
    for nm, v in pp.f.items():
        if not isinstance(v, VecVal) or nm == 'x': continue
        R.eqp('array %s has one entry per particle' % nm, X.pc, v.n, Np, fn)
        y = X.resolve(X.rd(X.vec_get(TempLV(v), q, check=False)))
        w = mat_id(dim) if nm == 'F' else None
        for k, z in enumerate(y.e if isinstance(y, Mat) else [y]):
            R.eqp('new particles are at rest, undeformed and without history (%s)' % nm, X.pc, z, w.e[k] if w is not None else ZERO, fn)
