"""C10: terrain shapes: the surface normal is a unit vector, orthogonal to the surface that inside() decides, pointing to the free side."""
from .transfer import *
from vcg.prover import *
def programs(tier): return {(2, 2): {'headers'}, (3, 2): {'headers'}}
SHAPES = {2: ('Ground', 'Curve', 'Bump', 'Gate', 'Ramp'), 3: ('Ground', 'Curve', 'Bump', 'Gate', 'Ramp', 'Silo')}
def tasks(progs, tier):
    return [('%s %dD' % (s, d), shape, (progs[(d, 2)], 'Object'+s)) for d in (2, 3) for s in SHAPES[d]]+[('constructor %s %dD' % (s, d), ctor, (progs[(d, 2)], 'Object'+s)) for d in (2, 3) for s in SHAPES[d]]
ASSUME = ['cosh, sinh, tanh, sqrt, atan2, sin, cos are the mathematical functions', 'silo: outlet height negative; its horizontal cut face is a limit of the body, not part of the wall surface; the axis of the silo (always free) is not queried for a normal',
          'level-set (OpenVDB) obstacles: not covered (external library)']
HARNESS = dict(driver='h_objects.cpp', flags=('-DPROP=10',), builds=[(2, 2), (3, 2)], n=20000, time=8)
LIMITS = {'ObjectSilo': ('cut',)}

def mkob(X, cls):
    ob = ObjVal(cls, 'ob')
    for nm in ('y_ground', 'height', 'friction'): ob.f[nm] = sym('ob.'+nm)
    if cls == 'ObjectSilo': ob.f['cut'] = -sym('ob.cut', pos=True)
    return ob

def point(cls, dim):
    x = [sym('x.%d' % a) for a in range(dim)]
    if cls == 'ObjectSilo':     # polar coordinates around the axis (rho > 0): a change of variables
        rho = sym('rho', pos=True); c, s = sym('cos'), sym('sin'); tm.set_sqrule(c, ONE-s*s)
        return [rho*c, x[1], rho*s], rho, c, s
    return x, None, None, None

def paths(R, prog, cls, m, xs):
    fn = cls+'::'+m; R.fn(fn)
    cfg = base_cfg(prog); out = []
    def setup(X): return X.call_named(fn, mkob(X, cls), [TempLV(Mat(prog.dim, 1, list(xs)))])
    for i, (X, r, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, '%s path %d' % (m, i), X.pc) == 'unsat': continue
        for kind, nm, f, n in X.obs: R.prove('%s: %s' % (m, nm), X.pc[:n], f, fn)
        out.append((X, r))
    if not out: raise Unsupported('no feasible path of '+fn)
    return out

def comparisons(f, acc):
    if isinstance(f, tuple):
        if f[0] in ('lt', 'le', 'eq', 'ne'): acc.append(f[1])
        elif f[0] in ('not', 'and', 'or'):
            for x in f[1:]: comparisons(x, acc)

def shape(R, prog, cls):
    dim = prog.dim
    # the decided region, in Cartesian coordinates (for the gradient)
    xs = [sym('x.%d' % a) for a in range(dim)]
    ins = paths(R, prog, cls, 'inside', xs)
    region = OR(*[AND(*(X.pc+[r])) for X, r in ins])
    ids = {tm.the_atom(x) for x in xs}
    polys = []; comparisons(region, polys)
    surf = []
    for q in polys:
        at = tm.deep_atoms(q.atoms())
        if not (at & ids): continue
        if any(tm.atom(i).name == 'ob.'+l for i in at for l in LIMITS.get(cls, ()) ): continue
        if not any(same(q, s) for s in surf): surf.append(q)
    if len(surf) != 1: raise Unsupported('%s: %d surfaces' % (cls, len(surf)))
    f = surf[0]
    grad = [tm.diff(f, x) for x in xs]
    # which side of f = 0 is solid (inside the limits of the body)
    lim = [tm.ge(xs[1], -sym('ob.cut', pos=True))] if cls == 'ObjectSilo' else []
    neg = R.prove
    solid_neg = discharge(lim+[tm.lt(f, 0)], region, 4000)[0] == 'discharged'
    solid_pos = discharge(lim+[tm.gt(f, 0)], region, 4000)[0] == 'discharged'
    if solid_neg == solid_pos: raise Unsupported('%s: solid side not identified' % cls)
    sg = 1 if solid_neg else -1
    free = tm.gt(f, 0) if solid_neg else tm.lt(f, 0)
    R.prove('the free side is free', lim+[free], NOT(region), cls+'::inside')
    # the normal, at an arbitrary point
    ys, rho, c, s = point(cls, dim)
    fn = cls+'::normal'
    smap = {tm.the_atom(xs[a]): ys[a] for a in range(dim)} if rho is not None else {}
    g = [tm.subst(q, smap) if smap else q for q in grad]; F = tm.subst(f, smap) if smap else f
    for X, n in paths(R, prog, cls, 'normal', ys):
        if not isinstance(n, Mat): n = X.rd(n)
        nn = sum((e*e for e in n.e), ZERO)
        R.prove('unit length', X.pc, tm.eq(nn, ONE), fn)
        # restrict to the surface: eliminate one coordinate where f is linear in it, else use f = 0 as a hypothesis
        hyp = list(X.pc); sub = None
        for a in range(dim):
            d = g[a].const()
            if rho is None and d is not None and d != 0:
                sub = {tm.the_atom(ys[a]): ys[a]-F.scale(1/d)}; break
        if sub is None: hyp.append(tm.eq(F, ZERO))
        if cls == 'ObjectSilo':
            y = ys[1]; R0 = tm.tanh(y)+1
            # lemma: on the surface the radius is tanh(y)+1 (both positive)
            e = sym('exp_y', pos=True); hyps = {tm.the_atom(tm.cosh(y)): (e+tm.inv(e)).scale(Fraction(1, 2)), tm.the_atom(tm.sinh(y)): (e-tm.inv(e)).scale(Fraction(1, 2))}
            R.prove('surface radius', [tm.fsubst(h, hyps) for h in hyp], tm.eq(rho*(e*e+1), (e*e).scale(2)), fn)
            sub = {tm.the_atom(rho): R0}; hyp = [h for h in X.pc]
        S_ = (lambda q: tm.subst(q, sub)) if sub else (lambda q: q)
        hyp = [tm.fsubst(h, sub) for h in hyp] if sub else hyp
        for a in range(dim):
            for b in range(a+1, dim):
                cr = S_(n.e[a]*g[b]-n.e[b]*g[a])
                R.prove('on the surface: normal is orthogonal to it (%s%s)' % (AX[a], AX[b]), hyp, tm.eq(cr, ZERO), fn)
        dt = S_(sum((n.e[a]*g[a] for a in range(dim)), ZERO)).scale(sg)
        if cls == 'ObjectSilo':
            # n = -sg... : compare with the radial component, which keeps its sign
            rad = S_(n.e[0]*c+n.e[2]*s)
            gr = S_(g[0]*c+g[2]*s).scale(sg)
            R.prove('on the surface: normal points to the free side', hyp+[tm.gt(tm.cosh(ys[1])+tm.sinh(ys[1]), 0)], tm.gt(rad*gr, 0), fn)
        else: R.prove('on the surface: normal points to the free side', hyp, tm.gt(dt, 0), fn)

def same(a, b): return (a-b).is_zero() or (a+b).is_zero()

def ctor(R, prog, cls):
    fn = cls+'::'+cls; R.fn(fn)
    cfg = base_cfg(prog)
    par = {'ObjectGround': 'y_ground', 'ObjectGate': 'height', 'ObjectSilo': 'cut'}.get(cls)
    for e in [prog.enums[('BC', k)] for k in ('NoSlip', 'SlipStick', 'SlipFree')]:
        def setup(X): return X.construct_vals(cls, [P(e), sym('mu', nonneg=True), 'name']+([sym('par')] if par else []))
        for X, o, st in explore(prog, cfg, setup):
            if st != 'ok': continue
            R.eqp('boundary condition stored', X.pc, o.f['bc'], P(e), fn)
            R.eqp('friction stored', X.pc, o.f['friction'], sym('mu', nonneg=True), fn)
            if par: R.eqp('shape parameter stored', X.pc, o.f[par], sym('par'), fn)
