"""C06: every particle's stencil lies inside the grid, over any history of re-meshing; every array access is in range."""
from .transfer import *
from .setup import *
from vcg.prover import *
FILES = {'remesh', 'p2g', 'g2p', 'musl', 'deformation_update', 'explicit_euler_update', 'simulation'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
FNS = ('P2G', 'G2P', 'MUSL', 'deformationUpdate', 'explicitEulerUpdate')
def tasks(progs, tier):
    t = []
    for d in (3, 2):
        pr = progs[(d, 2)]
        t += [('first mesh %dD' % d, init, (pr,)), ('re-mesh %dD' % d, cont, (pr,)), ('fixed mesh %dD' % d, fixed, (pr,)), ('resizeGrid %dD' % d, resize, (pr,))]
        t += [('index safety %s %dD' % (f, d), safe, (pr, f)) for f in FNS]
        t += [('step protocol %dD' % d, protocol, (pr,))]
    return t
ASSUME = ['at least one particle; finite coordinates', 'periodic mode: particles (and ghosts) lie in the fixed box [-4dx, Lx+4dx) x [0, Ly+dx) (x [-4dx, Lz+4dx))',
          'grid sizes fit in the machine integer types']

HARNESS = dict(driver='h_mesh.cpp', flags=('-D_GLIBCXX_ASSERTIONS',), builds=[(2, 2), (3, 2)], n=20000, time=10)

def scaled(X, S, dim, names=()):
    """positions in units of dx (dx > 0): a change of variables, no restriction"""
    dx = S.f['dx']
    px = S.f['particles'].f['x']
    S.f['particles'].f['x'] = VecVal(px.n, px.et, ('fn', lambda i: Mat(dim, 1, [dx*A('sel', i, name='X.%d' % a) for a in range(dim)])))
    S.f['grid'] = ObjVal('Grid', 'grid')
    for a in range(dim):
        S.f['grid'].f[AX[a]] = VecVal(sym('oldlen'+AX[a], 'I', nonneg=True), 'double', ('sym', 'oldgrid'+AX[a]))
        S.f['grid'].f[AX[a]+'c'] = sym('oldc'+AX[a])
    ref = [dx*sym('REF.%d' % a) for a in range(dim)]
    S.f['grid_reference_point'] = Mat(dim, 1, ref)

def mesh(prog, fn, pre, args=()):
    cfg = sim_cfg(prog); cfg.merge_all = True
    def setup(X):
        S = mk_sim(X, prog.dim, grid=False); X.S = S
        scaled(X, S, prog.dim); pre(X, S)
        X.assume(tm.le(S.f['dx'], 10))
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, [a(X) if callable(a) else a for a in args])
        return S
    ps = explore(prog, cfg, setup)
    return [(X, S) for X, S, st in ps if st == 'ok']

def covered(R, X, S, fn, lo=1):
    """postcondition: uniform grid; generic particle p has its four-node stencil inside on every axis"""
    dim = X.prog.dim; dx = S.f['dx']; G = S.f['grid']
    x = X.vec_get(TempLV(S.f['particles'].f['x']), S.p, check=False)
    nodes = ONE
    for a in range(dim):
        g = G.f[AX[a]]; N = S.f['N'+AX[a]]; c = G.f[AX[a]+'c']; nodes = nodes*N
        R.eqp('%s: node count is the length of the coordinate array' % AX[a], X.pc, N, g.n, fn)
        i = sym('ii', 'I', nonneg=True)
        R.eqp('%s: nodes are equally spaced from the corner' % AX[a], X.pc, X.vec_get(TempLV(g), i, check=False), c+i*dx, fn)
        R.prove('%s: at least four nodes' % AX[a], X.pc, tm.ge(N, 4), fn)
        rel = (x.e[a]-c)/dx
        R.prove('%s: one node layer below the cell of every particle' % AX[a], X.pc, tm.ge(rel, 1), fn)
        R.prove('%s: two node layers above the cell of every particle' % AX[a], X.pc, tm.lt(rel, N-2), fn)
    R.eqp('number of grid nodes is the product', X.pc, S.f['grid_nodes'], nodes, fn)
    for kind, nm, f, n in X.obs:
        R.prove('%s' % nm, X.pc[:n] if False else X.pc, f, fn)

def init(R, prog):
    fn = 'Simulation::remeshFixedInit'; R.fn(fn, 'arange')
    sf = [sym('sf'+a, 'I', nonneg=True) for a in AX]
    def pre(X, S):
        for s in sf: X.assume(tm.ge(s, 2))
    ps = mesh(prog, fn, pre, sf)
    for i, (X, S) in enumerate(ps):
        if vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        covered(R, X, S, fn)
        x = X.vec_get(TempLV(S.f['particles'].f['x']), S.p, check=False)
        for a in range(prog.dim):
            n = AX[a]; f = S.f; dx = f['dx']
            R.prove('%s: stored lower bound bounds every particle' % n, X.pc, tm.le(f['min_%s_init' % n], x.e[a]), fn)
            R.prove('%s: stored upper bound bounds every particle' % n, X.pc, tm.ge(f['max_%s_init' % n], x.e[a]), fn)
            R.prove('%s: stored mesh extends at least two cells below' % n, X.pc, tm.le(f['low_%s_init' % n], f['min_%s_init' % n]-dx.scale(2)), fn)
            R.prove('%s: stored mesh extends at least two cells above' % n, X.pc, tm.ge(f['high_%s_init' % n], f['max_%s_init' % n]+dx.scale(2)), fn)
        frame_ok(R, S, X, fn, (), ('x', 'y', 'z', 'xc', 'yc', 'zc'), tuple(k for k in S.f if k.endswith('_init')) + ('Nx', 'Ny', 'Nz', 'grid_nodes'))

def pre_init(X, S):
    dx = S.f['dx']
    for a in range(X.prog.dim):
        n = AX[a]
        mn = sym('MN'+n); mx = sym('MX'+n); lo = sym('LO'+n); hi = sym('HI'+n)
        S.f['min_%s_init' % n] = dx*mn; S.f['max_%s_init' % n] = dx*mx; S.f['low_%s_init' % n] = dx*lo; S.f['high_%s_init' % n] = dx*hi
        X.assume(tm.le(mn, mx)); X.assume(tm.le(lo, mn-2)); X.assume(tm.ge(hi, mx+2))

def cont(R, prog):
    fn = 'Simulation::remeshFixedCont'; R.fn(fn, 'arange')
    for i, (X, S) in enumerate(mesh(prog, fn, pre_init)):
        if vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        covered(R, X, S, fn)
        frame_ok(R, S, X, fn, (), ('x', 'y', 'z', 'xc', 'yc', 'zc'), ('Nx', 'Ny', 'Nz', 'grid_nodes'))

def fixed(R, prog):
    """periodic mode"""
    fn = 'Simulation::remeshFixed'; R.fn(fn, 'arange')
    dim = prog.dim
    ex = sym('extra', 'I', nonneg=True)
    def pre(X, S):
        dx = S.f['dx']; X.assume(tm.ge(ex, 4))
        x = X.vec_get(TempLV(S.f['particles'].f['x']), S.p, check=False)
        for a in range(dim):
            L = sym('LL'+AX[a], nonneg=True); S.f['L'+AX[a]] = dx*L
            lo = ZERO if a == 1 else P(-4); hi = L if a == 1 else L+4
            X.assume(tm.ge(x.e[a]/dx, lo)); X.assume(tm.lt(x.e[a]/dx, hi+(1 if a == 1 else 0)))
    for i, (X, S) in enumerate(mesh(prog, fn, pre, [ex])):
        if vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        covered(R, X, S, fn)
        frame_ok(R, S, X, fn, (), ('x', 'y', 'z', 'xc', 'yc', 'zc'), ('Nx', 'Ny', 'Nz', 'grid_nodes'))

def resize(R, prog):
    fn = 'Simulation::resizeGrid'; R.fn(fn)
    dim = prog.dim; gn = sym('grid_nodes', 'I', pos=True)
    cfg = sim_cfg(prog)
    def setup(X):
        S = mk_sim(X, dim, grid=False); X.S = S; S.f['grid_nodes'] = gn
        G = S.f['grid'] = ObjVal('Grid', 'grid')
        for nm, k in (('v', 'V'), ('flip', 'V'), ('force', 'V'), ('mass', 'S'), ('friction', 'S')):
            G.f[nm] = VecVal(sym('old.'+nm, 'I', nonneg=True), etype(k, dim), ('sym', 'grid.'+nm))
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, []); return S
    for X, S, st in explore(prog, cfg, setup):
        if st != 'ok': continue
        if vacuity(R, 'resize', X.pc) == 'unsat': continue
        j = sym('jj', 'I', nonneg=True)
        for nm in ('v', 'flip', 'force', 'mass', 'friction'):
            if nm == 'friction' and tm.fkey(NOT(('b', 'use_mibf'))) in X.pcset: continue
            v = S.f['grid'].f[nm]
            R.eqp('grid.%s has one entry per node' % nm, X.pc, v.n, gn, fn)
            e = X.vec_get(TempLV(v), j, check=False)
            for c in comps(e): R.eqp('grid.%s is cleared' % nm, X.pc, c, ZERO, fn)
        frame_ok(R, S, X, fn, (), ('v', 'flip', 'force', 'mass', 'friction'))

def safe(R, prog, f):
    fn = 'Simulation::'+f; R.fn(fn)
    from .c04 import plast
    cfg = own_cfg(base_cfg(prog))
    cfg.contracts['Simulation::plasticity'] = plast
    for q in ('boundaryCollision', 'PBCAddParticles', 'PBCDelParticles'): cfg.contracts['Simulation::'+q] = lambda X, th, a, n: None    # C17: copies lie in the mesh too
    def setup(X):
        S = mk_sim(X, prog.dim); X.S = S
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, []); return S
    seen = set()
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if vacuity(R, '%s path %d' % (f, i), X.pc) == 'unsat': continue
        for kind, nm, g, n in X.obs:
            if kind not in ('bounds', 'conv', 'init'): continue
            h = [x for x in X.pc if not nonlinear(x)]
            key = (nm, tm.fkey(g) if g not in (True, False) else g)
            if key in seen: continue
            seen.add(key)
            index_ob(R, X, S, nm, g, h, fn)

def index_ob(R, X, S, nm, g, h, fn):
    """0 <= ind(m+o) < N0*N1*N2 is reduced to the per-axis ranges (row-major index lemma)"""
    if g is not True and g is not False and g[0] == 'and' and hasattr(S, 'Ns'):
        # g = (idx >= 0, idx < nodes)
        lo = [x for x in g[1:] if x[0] == 'le']
        idx = None
        for x in g[1:]:
            c = -x[1]
            if x[0] == 'le':
                o = node_offset(S, c)
                if o is not None: idx = o
        if idx is not None and len(S.ms) == len(idx):
            ok = True
            for a, o in enumerate(idx):
                ok &= R.prove('%s (axis %s)' % (nm, AX[a]), h, AND(tm.ge(S.ms[a]+o, 0), tm.lt(S.ms[a]+o, S.Ns[a])), fn)
            return ok
    return R.prove(nm, X.pc, g, fn)

def protocol(R, prog):
    """advanceStep: the cycle of one step, each function called in a state that satisfies its precondition"""
    fn = 'Simulation::advanceStep'; R.fn(fn)
    cfg = sim_cfg(prog)
    def c(name, f=None):
        def h(X, th, a, n):
            X.evs.append((name, [X.rd(v.get(X)) if isinstance(v, LV) else v for v in a]))
        cfg.contracts['Simulation::'+name] = h
    for nm in ('updateDt', 'remeshFixed', 'remeshFixedInit', 'remeshFixedCont', 'resizeGrid', 'P2G', 'explicitEulerUpdate', 'G2P', 'MUSL', 'deformationUpdate', 'positionUpdate', 'moveObjects', 'PBCAddParticles', 'PBCDelParticles'): c(nm)
    def setup(X):
        X.evs = []
        S = mk_sim(X, prog.dim, grid=False); X.S = S
        S.f['current_time_step'] = sym('current_time_step', 'I', nonneg=True)
        X.call_named(fn, S, []); return S
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'step path %d' % i, X.pc) == 'unsat': continue
        names = [e[0] for e in X.evs]
        def at(n): return [k for k, e in enumerate(names) if e == n]
        pbc = tm.fkey(('b', 'pbc')) in X.pcset; musl = tm.fkey(('b', 'use_musl')) in X.pcset
        first = tm.eq(S.f['current_time_step'], 0)
        isfirst = discharge(X.pc, first, 1000)[0] == 'discharged'
        txt = ' -> '.join(names)
        one = ['updateDt', 'resizeGrid', 'P2G', 'explicitEulerUpdate', 'G2P', 'positionUpdate'] + (['MUSL', 'deformationUpdate'] if musl else []) + (['PBCAddParticles', 'PBCDelParticles'] if pbc else [])
        for n in one: R.fact('%s is executed exactly once per step' % n, len(at(n)) == 1, fn, txt)
        for n in ('MUSL', 'deformationUpdate'):
            if not musl: R.fact('%s only with MUSL' % n, not at(n), fn, txt)
        for n in ('PBCAddParticles', 'PBCDelParticles', 'remeshFixed'):
            if not pbc: R.fact('%s only in periodic mode' % n, not at(n), fn, txt)
        def before(a, b):
            if at(a) and at(b): R.fact('%s before %s' % (a, b), max(at(a)) < min(at(b)), fn, txt)
        if pbc:
            R.fact('periodic mode: fixed mesh made in the first step only', len(at('remeshFixed')) == (1 if isfirst else 0) and not at('remeshFixedInit') and not at('remeshFixedCont'), fn, txt)
        else:
            want = 'remeshFixedInit' if isfirst else 'remeshFixedCont'
            R.fact('the mesh is adapted once per step', [n for n in names if n.startswith('remesh')] == [want], fn, txt)
        for e in X.evs:
            if e[0] == 'remeshFixedInit':
                for v in e[1][:prog.dim]: R.prove('margin of at least two cells', X.pc, tm.ge(v, 2), fn)
            if e[0] == 'remeshFixed':
                R.prove('periodic margin: four cells for the copies and one for rounding', X.pc, tm.ge(e[1][0], 5), fn)
        for m in ('remeshFixed', 'remeshFixedInit', 'remeshFixedCont'): before(m, 'resizeGrid')
        before('resizeGrid', 'P2G'); before('P2G', 'explicitEulerUpdate'); before('explicitEulerUpdate', 'G2P')
        before('PBCAddParticles', 'P2G'); before('P2G', 'PBCDelParticles'); before('PBCDelParticles', 'G2P'); before('PBCDelParticles', 'positionUpdate')
        before('G2P', 'MUSL'); before('MUSL', 'deformationUpdate'); before('deformationUpdate', 'positionUpdate'); before('G2P', 'positionUpdate')
        before('updateDt', 'explicitEulerUpdate'); before('updateDt', 'G2P')
        if pbc and at('PBCDelParticles') and at('PBCAddParticles'):
            R.fact('ghost particles do not survive into the gather phase', at('PBCDelParticles')[0] < at('G2P')[0], fn, txt)
