"""Contact of grid nodes with obstacles: one arbitrary iteration of each obstacle loop of boundaryCollision."""
from .transfer import *
from .setup import *
from vcg.prover import *
FN = 'Simulation::boundaryCollision'

def frame_of(dim, which, typ):
    """arbitrary orthonormal pair (normal, tangent); for a plate the normal is its axis, pointing into the material"""
    if which == 'plates':
        ax, sg = plate_axis(None, typ)
        nrm = [P(sg) if a == ax else ZERO for a in range(dim)]
        if dim == 2: tau = [ZERO if a == ax else sym('tau') for a in range(dim)]; tm.set_sqrule(sym('tau'), ONE)
        else:
            c, s = sym('tau.0'), sym('tau.1'); tm.set_sqrule(c, ONE-s*s)
            o = [a for a in range(3) if a != ax]; tau = [ZERO]*3; tau[o[0]] = c; tau[o[1]] = s
        return nrm, tau
    if dim == 2:
        a, b = sym('n.0'), sym('n.1'); tm.set_sqrule(a, ONE-b*b)
        e = sym('tau'); tm.set_sqrule(e, ONE)
        return [a, b], [-(b*e), a*e]
    # rotation of an arbitrary unit quaternion
    q = [sym('q.%d' % i) for i in range(4)]; tm.set_sqrule(q[0], ONE-q[1]*q[1]-q[2]*q[2]-q[3]*q[3])
    w, x, y, z = q
    return [ONE-(y*y+z*z).scale(2), (x*y+w*z).scale(2), (x*z-w*y).scale(2)], [(x*y-w*z).scale(2), ONE-(x*x+z*z).scale(2), (y*z+w*x).scale(2)]

def contact_paths(R, prog, which, bck, typ=None, monitor=None):
    """which: 'objects' (terrain, virtual inside/normal by contract) or 'plates'.  Yields paths with .w (velocity before the
    obstacle), .v (after), .ob (obstacle), .Xi (tested position).  The velocity before the obstacle is an arbitrary vector written
    as v_obstacle + d n + s tau with an arbitrary unit normal n, unit tangent tau (a change of variables, no restriction)."""
    dim = prog.dim
    R.fn(FN, 'ObjectPlate::inside' if which == 'plates' else 'ObjectGeneral::inside (contract)')
    cfg = base_cfg(prog); cfg.eq_obligation = True; cfg.prescan = scan_assigned
    nrm, tau = frame_of(dim, which, typ)
    dn = sym('vn'); ts = sym('vt', nonneg=True)
    ob_v = [ZERO]*dim if which == 'objects' else [sym('ob.v%s_object' % AX[a]) for a in range(dim)]
    W = Mat(dim, 1, [ob_v[a]+dn*nrm[a]+ts*tau[a] for a in range(dim)])
    cfg.havoc_with = lambda X, nm, pre: W.copy() if pre.key() == X.vin.key() else None
    def inside(X, th, a, n):
        x = a[0].get(X) if isinstance(a[0], LV) else a[0]
        X.tested.append(X.rd(x)); return ('b', 'inside')
    def normal(X, th, a, n):
        x = a[0].get(X) if isinstance(a[0], LV) else a[0]
        X.tested.append(X.rd(x)); return Mat(dim, 1, list(nrm))
    cfg.contracts['ObjectGeneral::inside'] = inside
    cfg.contracts['ObjectGeneral::normal'] = normal
    cfg.contracts['debug'] = lambda X, th, a, n: None
    def after(X, vs, g, bound, n): X.its.append(vs)
    cfg.after_iteration = after
    def setup(X):
        X.tested = []; X.its = []
        S = mk_sim(X, dim, particle_cell=False); X.S = S; f = S.f
        ob = ObjVal('ObjectPlate' if which == 'plates' else 'ObjectGeneral', 'ob'); X.ob = ob
        ob.f['friction'] = sym('ob.friction', nonneg=True)
        ob.f['bc'] = P(prog.enums[('BC', bck)])
        if which == 'plates':
            ob.f['plate_type'] = P(prog.enums[('PlateType', typ)])
            for a in range(dim): ob.f['v%s_object' % AX[a]] = ob_v[a]
        one = VecVal(sym('n_ob', 'I', pos=True), 'std::unique_ptr<%s>' % ob.cls, ('fn', lambda i: PtrVal(ob)))
        none = lambda c: VecVal(0, 'std::unique_ptr<%s>' % c, ('list', ()))
        f['objects'] = one if which == 'objects' else none('ObjectGeneral')
        f['plates'] = one if which == 'plates' else none('ObjectPlate')
        f['grid'].f['friction'] = VecVal(S.nodes, 'double', ('fn', lambda i: A('sel', i, name='nodefric')))
        X.assume(tm.ge(A('sel', S.l, name='nodefric'), 0))
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.obpre = dict(ob.f)
        xi = Mat(dim, 1, [sym('node.%d' % a) for a in range(dim)]); vi = Mat(dim, 1, [sym('vin.%d' % a) for a in range(dim)])
        X.Xi = mat_add(xi, mat_scale(vi, f['dt'])); X.vin = vi
        fr = {'vi': vi.copy()}
        if monitor: monitor(X, S, {})
        X.call_named(FN, S, [S.l, TempLV(xi), VarLV(fr, 'vi')])
        if monitor: X.mon.finish()
        X.vfinal = fr['vi']
        return S
    k = 0
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, '%s path %d' % (which, i), X.pc) == 'unsat': continue
        k += 1
        X.w = X.vin; X.v = X.vin
        if X.its:
            if len(X.its) != 1: raise Unsupported('contact: %d loops over the obstacles' % len(X.its))
            for nm, a, b, pre in X.its[0]:
                if nm == 'vi': X.w, X.v = a, b
        X.n = Mat(dim, 1, nrm); X.vo = ob_v; X.dn = dn; X.ts = ts; X.tau = tau
        X.mibf = tm.fkey(('b', 'use_mibf')) in X.pcset
        X.nodemu = A('sel', S.l, name='nodefric')
        X.moved = X.w is not X.vin
        yield X, S
    if not k: raise Unsupported('no feasible path')

BCS = ('NoSlip', 'SlipStick', 'SlipFree')
def contact_tasks(progs, terrain, plates, bcs=BCS):
    t = []
    for d in (3, 2):
        for k in bcs:
            for ty in ('top', 'bottom', 'left', 'right')+(('front', 'back') if d == 3 else ()): t.append(('%s plate %s %dD' % (ty, k, d), plates, (progs[(d, 2)], k, ty)))
            t.append(('terrain %s %dD' % (k, d), terrain, (progs[(d, 2)], k)))
    return t

def plate_axis(prog, t):
    ax = {'left': 0, 'right': 0, 'bottom': 1, 'top': 1, 'back': 2, 'front': 2}[t]
    sg = 1 if t in ('left', 'bottom', 'back') else -1      # outward normal (into the material)
    return ax, sg

def plate_inside(prog, X, t):
    """half space beyond the plate, limited laterally"""
    f = X.ob.f; x = X.Xi
    ax, sg = plate_axis(prog, t)
    pos = X.field(X.ob, 'pos_object')
    g = [tm.le(x.e[ax].scale(sg), pos.scale(sg))]
    if t not in ('front', 'back'):
        lat = 1-ax
        g += [tm.lt(x.e[lat], X.field(X.ob, 'pos_upper')), tm.gt(x.e[lat], X.field(X.ob, 'pos_lower'))]
    return AND(*g)
