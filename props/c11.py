"""C11: plates: region they occupy, rigid motion with the prescribed (start-up scaled) velocity, moved once per step."""
from .contact import *
FILES = {'simulation', 'headers'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
TYPES = {2: ('top', 'bottom', 'left', 'right'), 3: ('top', 'bottom', 'left', 'right', 'front', 'back')}
def tasks(progs, tier):
    t = []
    for d in (2, 3):
        for ty in TYPES[d]: t += [('motion %s %dD' % (ty, d), motion, (progs[(d, 2)], ty)), ('region %s %dD' % (ty, d), region, (progs[(d, 2)], ty)), ('constructor %s %dD' % (ty, d), ctor, (progs[(d, 2)], ty))]
        t += [('every plate moves %dD' % d, moveall, (progs[(d, 2)],)), ('step order %dD' % d, order, (progs[(d, 2)],))]
    return t
ASSUME = ['start-up divisor non-zero, plate type valid for the dimension']
HARNESS = dict(driver='h_objects.cpp', flags=('-DPROP=11',), builds=[(2, 2), (3, 2)], n=20000, time=8)

def plate(X, prog, ty):
    ob = ObjVal('ObjectPlate', 'ob')
    ob.f['plate_type'] = P(prog.enums[('PlateType', ty)])
    ob.f['vmin_factor'] = sym('ob.vmin_factor', pos=True)
    return ob

def motion(R, prog, ty):
    fn = 'ObjectPlate::move'; R.fn(fn); dim = prog.dim
    cfg = base_cfg(prog)
    dt, fd, t = sym('dt', pos=True), sym('frame_dt', pos=True), sym('time', nonneg=True)
    NM = ['pos_object', 'pos_upper', 'pos_lower', 'load_factor', 'friction', 'bc']+['v%s_object_original' % AX[a] for a in range(dim)]+['v%s_object' % AX[a] for a in range(dim)]
    def setup(X):
        ob = plate(X, prog, ty)
        for nm in NM: X.field(ob, nm)
        X.pre = dict(ob.f)
        X.call_named(fn, ob, [dt, fd, t]); return ob
    k = 0
    for i, (X, ob, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        k += 1
        for kind, nm, f, n in X.obs: R.prove(nm, X.pc[:n], f, fn)
        pre, f = X.pre, ob.f
        start = tm.lt(t, pre['load_factor']*fd)
        for a in range(dim):
            vo = pre['v%s_object_original' % AX[a]]; v = f['v%s_object' % AX[a]]
            R.prove('during start-up the velocity is the prescribed one over the divisor', X.pc+[start], tm.eq(v*pre['vmin_factor'], vo), fn)
            R.prove('after start-up the velocity is the prescribed one', X.pc+[NOT(start)], tm.eq(v, vo), fn)
        ax, sg = plate_axis(prog, ty)
        R.prove('face advances with the normal velocity', X.pc, tm.eq(f['pos_object']-pre['pos_object'], dt*f['v%s_object' % AX[ax]]), fn)
        if ax < 2:
            for nm in ('pos_upper', 'pos_lower'): R.prove('lateral limit advances with the tangential velocity (%s)' % nm, X.pc, tm.eq(f[nm]-pre[nm], dt*f['v%s_object' % AX[1-ax]]), fn)
        for nm in f:
            if nm in ('pos_object', 'pos_upper', 'pos_lower') or re.match(r'v[xyz]_object$', nm): continue
            R.fact('motion leaves %s alone' % nm, nm not in pre or f[nm] is pre[nm] or (isinstance(f[nm], Poly) and (f[nm]-pre[nm]).is_zero()), fn)
    if not k: raise Unsupported('no feasible path')

def region(R, prog, ty):
    fn = 'ObjectPlate::inside'; R.fn(fn); dim = prog.dim
    cfg = base_cfg(prog)
    def setup(X):
        ob = plate(X, prog, ty); X.ob = ob
        x = Mat(dim, 1, [sym('x.%d' % a) for a in range(dim)]); X.Xi = x
        return X.call_named(fn, ob, [TempLV(x)])
    k = 0
    for i, (X, r, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        k += 1
        J = plate_inside(prog, X, ty)
        R.prove('inside only behind the face and within the lateral limits', X.pc+[r], J, fn)
        R.prove('everything behind the face within the lateral limits is inside', X.pc+[J], r, fn)
    if not k: raise Unsupported('no feasible path')

def ctor(R, prog, ty):
    fn = 'ObjectPlate::ObjectPlate'; R.fn(fn); dim = prog.dim
    cfg = base_cfg(prog)
    ar = dict(pos_object=sym('pos'), plate_type=P(prog.enums[('PlateType', ty)]), friction=sym('mu'), pos_lower=sym('lo'), pos_upper=sym('up'), vmin_factor=sym('vm'), load_factor=sym('lf'))
    for a in range(dim): ar['v%s_object' % AX[a]] = sym('v.%d' % a)
    for e in [prog.enums[('BC', k)] for k in BCS]:
        ar['bc'] = P(e)
        names = ['pos_object', 'plate_type', 'bc', 'friction', 'pos_lower', 'pos_upper']+['v%s_object' % AX[a] for a in range(dim)]+['vmin_factor', 'load_factor']
        def setup(X): return X.construct_vals('ObjectPlate', [ar[n] for n in names])
        for X, o, st in explore(prog, cfg, setup):
            if st != 'ok': continue
            for nm in names: R.eqp('constructor stores %s' % nm, X.pc, o.f[nm], ar[nm], fn)
            for a in range(dim): R.eqp('constructor stores the prescribed velocity %s' % AX[a], X.pc, o.f['v%s_object_original' % AX[a]], sym('v.%d' % a), fn)

def moveall(R, prog):
    """one arbitrary plate of the list: moved exactly once, with the step, frame duration and time of this step"""
    fn = 'Simulation::moveObjects'; R.fn(fn)
    cfg = base_cfg(prog); dim = prog.dim
    def mv(X, th, a, n): X.moves.append((th, [X.rd(x.get(X) if isinstance(x, LV) else x) for x in a]))
    cfg.contracts['ObjectPlate::move'] = mv
    def setup(X):
        X.moves = []; S = mk_sim(X, dim, grid=False); f = S.f; X.ob = ObjVal('ObjectPlate', 'ob')
        for nm in ('dt', 'frame_dt'): f[nm] = sym(nm, pos=True)
        f['time'] = sym('time', nonneg=True)
        f['plates'] = VecVal(sym('n_ob', 'I', pos=True), 'std::unique_ptr<ObjectPlate>', ('fn', lambda i: PtrVal(X.ob)))
        S.pre = dict(f)
        X.call_named(fn, S, []); return S
    k = 0
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        k += 1
        R.fact('every plate is moved exactly once', len(X.moves) == 1 and X.moves[0][0] is X.ob, fn)
        for th, a in X.moves:
            for j, nm in enumerate(('dt', 'frame_dt', 'time')): R.eqp('moved with the %s of the step' % nm, X.pc, a[j], S.pre[nm], fn)
        for nm in ('dt', 'frame_dt', 'time'): R.eqp('clock untouched (%s)' % nm, X.pc, S.f[nm], S.pre[nm], fn)
    if not k: raise Unsupported('no feasible path')

def order(R, prog):
    """advanceStep moves the plates exactly once, after the grid update that uses them and after the step size is known"""
    fn = 'Simulation::advanceStep'; R.fn(fn)
    cfg = base_cfg(prog)
    for q in ('updateDt', 'remeshFixed', 'remeshFixedInit', 'remeshFixedCont', 'resizeGrid', 'P2G', 'explicitEulerUpdate', 'G2P', 'MUSL', 'deformationUpdate', 'positionUpdate', 'PBCAddParticles', 'PBCDelParticles'):
        cfg.contracts['Simulation::'+q] = (lambda q: lambda X, th, a, n: X.seq.append(q))(q)
    cfg.contracts['ObjectPlate::move'] = lambda X, th, a, n: X.seq.append('move')
    def setup(X):
        X.seq = []; S = mk_sim(X, prog.dim, grid=False); X.ob = ObjVal('ObjectPlate', 'ob')
        S.f['plates'] = VecVal(sym('n_ob', 'I', pos=True), 'std::unique_ptr<ObjectPlate>', ('fn', lambda i: PtrVal(X.ob)))
        X.call_named(fn, S, []); return S
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        s = X.seq
        R.fact('plates are moved exactly once per step', s.count('move') == 1, fn)
        if 'move' in s and 'updateDt' in s: R.fact('the step size is set before plates move', s.index('updateDt') < s.index('move'), fn)
        if 'move' in s and 'explicitEulerUpdate' in s: R.fact('the grid update sees the plates at the beginning of the step', s.index('explicitEulerUpdate') < s.index('move'), fn)
