"""C17: periodic mode: image particles around the seam, removed again; wrap-around of positions."""
from .transfer import *
from .setup import *
from vcg.prover import *
from .c06 import protocol
FILES = {'pbc', 'position_update', 'musl', 'simulation'}
NEED = ('x', 'v', 'F', 'Bmat', 'tau', 'muI')
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    t = []
    for d in (3, 2):
        pr = progs[(d, 2)]
        t += [('add copies %dD' % d, add, (pr,)), ('remove copies %dD' % d, rem, (pr,)), ('wrap-around %dD' % d, wrap, (pr,)),
              ('MUSL projection %dD' % d, musl, (pr,)), ('step protocol %dD' % d, protocol, (pr,))]
    return t
ASSUME = ['the period is at least eight cells long', 'a particle moves by at most one period per step', 'real arithmetic for the displaced coordinate (one rounding in the code)',
          'parallel execution of the position update by C18']
HARNESS = dict(driver='h_pbc.cpp', builds=[(2, 2), (3, 2)], builds_thorough=[(2, 3), (3, 3)], flags=('-D_GLIBCXX_ASSERTIONS',), n=20000, time=14)

def grows(n):
    """does the loop body append to a vector (possibly through a helper function)?"""
    def has(x):
        if isinstance(x, dict):
            if x.get('name') in ('push_back', 'emplace_back'): return True
            return any(has(v) for v in x.get('inner', ()))
        return False
    return has(n)

def world(X, dim):
    S = mk_sim(X, dim, grid=False); X.S = S
    dx = S.f['dx']; px = S.f['particles'].f['x']
    S.f['particles'].f['x'] = VecVal(px.n, px.et, ('fn', lambda i: Mat(dim, 1, [dx*A('sel', i, name='X.%d' % a) for a in range(dim)])))
    L = sym('LL', pos=True); X.assume(tm.ge(L, 8)); S.f['Lx'] = dx*L
    S.f['num_add_pbc_particles'] = sym('old_added', 'I', nonneg=True)
    S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
    return S

class Body(Exception): pass

def add_paths(prog, G, sf):
    """paths through PBCAddParticles; the appending loop by its invariant: after i iterations every array in G has Np+k entries,
    the first Np unchanged, and k copies are counted"""
    cfg = sim_cfg(prog); cfg.merge_all = False
    fn = 'Simulation::PBCAddParticles'
    def lh(X, C, cond, inc, body, n):
        S = X.S
        if getattr(X, 'inbody', False): return False
        var = loopvar(X, C, cond)
        if var is None: return False
        start = X.rd(var.get(X))
        if not (isinstance(start, Poly) and (X.rd(S.f['Np'])-S.pre['Np']).is_zero()): return False
        if hasattr(X, 'entry'): raise Unsupported('more than one loop over the particles')
        X.entry = dict(start=start, lens={g: S.f['particles'].f[g].n for g in VP}, num=X.rd(S.f['num_add_pbc_particles']), Np=X.rd(S.f['Np']))
        k = X.fresh('copies', 'I', nonneg=True)
        def head():
            for g in G:
                v = S.pre['particles'].f[g]
                S.f['particles'].f[g] = VecVal(S.pre['Np']+k, v.et, v.base)
            S.f['num_add_pbc_particles'] = k
        g = S.p
        X.fork_choice = X.decide(('b', 'choose:iteration'))
        if X.fork_choice:       # one generic iteration
            head(); X.inbody = True; X.k = k
            var.set(X, g)
            c = X.cond_of(C, cond)
            X.iter_cond = c; X.iter_pc = list(X.pc)
            if c is not True: X.assume(c)
            try: X.ex(Ctx(C.tu, {}, C.this, C), body)
            except ContinueX: pass
            X.inbody = False
            if inc is not None: X.evx(C, inc)
            X.next = X.rd(var.get(X))
            raise Body()
        head(); X.k = k
        # exit: the loop variable has reached the first value that fails the test
        var.set(X, S.pre['Np']); X.exit_cond = X.cond_of(C, cond)
        return True
    cfg.loop_handler = lh
    def setup(X):
        S = world(X, prog.dim)
        try: X.call_named(fn, S, [sf])
        except Body: S.kind = 'iter'; return S
        S.kind = 'end' if hasattr(X, 'k') else 'none'
        return S
    return explore(prog, cfg, setup)

def loopvar(X, C, cond):
    c = cond
    while c is not None and c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): c = X.kids(c)[0]
    if c is None or c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '!='): return None
    a = X.kids(c)[0]
    while a['kind'] in ('ImplicitCastExpr', 'ParenExpr'): a = X.kids(a)[0]
    if a['kind'] != 'DeclRefExpr': return None
    return X.evx(C, a)

def add(R, prog):
    fn = 'Simulation::PBCAddParticles'; R.fn(fn)
    dim = prog.dim; sf = sym('margin', 'I', pos=True)
    G = set(NEED)
    for _ in range(3):
        ps = add_paths(prog, G, sf)
        new = set()
        for X, S, st in ps:
            if st != 'ok' or S.kind != 'iter': continue
            for g, v in S.f['particles'].f.items():
                if g not in G and not (v.n-S.pre['particles'].f[g].n).is_zero(): new.add(g)
        if not new: break
        G |= new
    it = en = 0
    for i, (X, S, st) in enumerate(ps):
        if st != 'ok': raise Unsupported('aborted path in PBCAddParticles')
        if S.kind == 'none': R.fact('the particles are examined', False, fn, 'no loop over the particles on this path'); continue
        dx = S.f['dx']; Lx = S.f['Lx']; p = S.p; Np = S.pre['Np']; k = X.k
        # entry: the invariant holds for k = 0
        e = X.entry
        R.eqp('the loop starts at the first particle', X.pc, e['start'], ZERO, fn)
        R.eqp('the count starts at zero', X.pc, e['num'], ZERO, fn)
        for g in sorted(G): R.eqp('no copy of %s before the loop' % g, X.pc, e['lens'][g], Np, fn)
        H = list(X.pc)+[tm.le(sf, 4)]
        if vacuity(R, 'path %d' % i, H) == 'unsat': continue
        if S.kind == 'iter':
            it += 1
            if X.iter_cond is not True: R.prove('every particle is examined', X.iter_pc, X.iter_cond, fn)
            R.eqp('the loop steps to the next particle', X.pc, X.next, p+1, fn)
            R.eqp('the particle number is constant during the loop', X.pc, S.f['Np'], Np, fn)
            x0 = X.vec_get(TempLV(S.pre['particles'].f['x']), p, check=False)
            m = S.f['particles'].f['x'].n-Np-k
            if m.const() is None: raise Unsupported('number of copies')
            n = int(m.const())
            for g in sorted(G): R.eqp('as many copies of %s as of the position' % g, X.pc, S.f['particles'].f[g].n, Np+k+n, fn)
            R.eqp('every copy is counted', X.pc, S.f['num_add_pbc_particles'], k+n, fn)
            up = AND(tm.lt(Lx-x0.e[0], sf*dx), tm.ge(Lx-x0.e[0], 0)); lo = AND(tm.lt(x0.e[0], sf*dx), tm.ge(x0.e[0], 0))
            R.fact('at most one copy per particle', n <= 1, fn)
            if n == 0: R.prove('only particles away from both faces get no copy', H, AND(NOT(up), NOT(lo)), fn)
            for q in range(n):
                R.prove('only particles next to a face get a copy', H, OR(up, lo), fn)
                for g in sorted(G):
                    v = S.f['particles'].f[g]
                    w = [val for j, val in v.over if (j-Np-k-q).is_zero()]
                    if len(w) != 1: R.fact('a copy of %s is appended' % g, False, fn); continue
                    w = w[0]
                    o = X.vec_get(TempLV(S.pre['particles'].f[g]), p, check=False)
                    if g == 'x':
                        for a in range(dim):
                            if a: R.eqp('the copy is displaced along the flow only (%s)' % AX[a], X.pc, w.e[a], o.e[a], fn)
                        R.prove('a particle below the upper face is copied one period down', H+[up], tm.eq(w.e[0], o.e[0]-Lx), fn)
                        R.prove('a particle above the lower face is copied one period up', H+[lo], tm.eq(w.e[0], o.e[0]+Lx), fn)
                    else:
                        for a, b in zip(comps(w), comps(o)): R.eqp('the copy carries %s of the particle' % g, X.pc, a, b, fn)
            for g in VP:        # frame: the originals
                v = S.f['particles'].f[g]
                R.fact('the original %s is untouched' % g, all(any((j-Np-k-q).is_zero() for q in range(n)) for j, w in v.over) and not v.adds and (g in G or (v.n-Np).is_zero()), fn)
        else:
            en += 1
            R.prove('the loop ends after the last particle', X.pc, NOT(X.exit_cond), fn) if X.exit_cond is not False else R.fact('the loop ends after the last particle', True, fn)
            R.eqp('the particle number includes the copies', X.pc, S.f['Np'], Np+k, fn)
            R.eqp('the number of copies is remembered', X.pc, S.f['num_add_pbc_particles'], k, fn)
            for g in sorted(G): R.eqp('length of %s includes the copies' % g, X.pc, S.f['particles'].f[g].n, Np+k, fn)
            for g in VP:
                v = S.f['particles'].f[g]; R.fact('nothing else happens to %s' % g, not v.over and not v.adds, fn)
        other(R, S, fn)
        for kind, nm, f, n in X.obs:
            if kind in ('bounds', 'conv', 'init'): R.prove(nm, X.pc, f, fn)
    R.fact('iteration and exit were explored', it > 0 and en > 0, fn)
    R.grown = G

def other(R, S, fn, allowed=('Np', 'num_add_pbc_particles', 'particles')):
    for k, v in S.f.items():
        if k in allowed or k not in S.pre: continue
        R.fact('%s unchanged' % k, v is S.pre[k] or (isinstance(v, Poly) and isinstance(S.pre[k], Poly) and (v-S.pre[k]).is_zero()) or (not isinstance(v, Poly) and repr(v) == repr(S.pre[k])), fn)

def rem(R, prog):
    """PBCDelParticles undoes the additions exactly: state = originals followed by k copies"""
    fn = 'Simulation::PBCDelParticles'; R.fn(fn)
    # which arrays does the addition extend?
    G = set(NEED)
    for X, S, st in add_paths(prog, G, sym('margin', 'I', pos=True)):
        if st == 'ok' and S.kind == 'iter':
            for g, v in S.f['particles'].f.items():
                if g not in G and not (v.n-S.pre['particles'].f[g].n).is_zero(): G.add(g)
    k = sym('copies', 'I', nonneg=True)
    cfg = sim_cfg(prog)
    def setup(X):
        S = world(X, prog.dim)
        for g in G:
            v = S.pre['particles'].f[g]; S.f['particles'].f[g] = VecVal(S.pre['Np']+k, v.et, v.base)
        S.f['Np'] = S.pre['Np']+k; S.f['num_add_pbc_particles'] = k
        X.call_named(fn, S, []); return S
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok': raise Unsupported('aborted path in PBCDelParticles')
        if vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        R.eqp('the particle number is restored', X.pc, S.f['Np'], S.pre['Np'], fn)
        for g in VP:
            v = S.f['particles'].f[g]; o = S.pre['particles'].f[g]
            R.eqp('the length of %s is restored' % g, X.pc, v.n, o.n, fn)
            a = X.vec_get(TempLV(v), S.p, check=False); b = X.vec_get(TempLV(o), S.p, check=False)
            for s, t in zip(comps(a), comps(b)): R.eqp('%s of the original particles is kept' % g, X.pc, s, t, fn)
        other(R, S, fn)
        for kind, nm, f, n in X.obs:
            if kind in ('bounds', 'conv', 'init'): R.prove(nm, X.pc, f, fn)

def wrap(R, prog):
    fn = 'Simulation::positionUpdate'; R.fn(fn)
    dim = prog.dim
    cfg = sim_cfg(prog)
    def setup(X):
        S = world(X, dim); S.f['pbc'] = True; S.pre['pbc'] = True
        X.call_named(fn, S, []); return S
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        if tm.fkey(('b', 'change_particle_positions')) in X.pcset: continue
        Lx = S.f['Lx']; dt = S.f['dt']
        x0 = pv0(S, 'x', X); pic = pv0(S, 'pic', X); x1 = pv(S, 'x', X)
        pl = mat_add(x0, mat_scale(pic, dt))
        e = pl.e[0]; y = x1.e[0]
        R.prove('the position changes by whole periods only', X.pc, OR(tm.eq(y, e), tm.eq(y, e-Lx), tm.eq(y, e+Lx)), fn)
        R.prove('a particle inside the period stays where it is', X.pc+[tm.gt(e, 0), tm.lt(e, Lx)], tm.eq(y, e), fn)
        h = X.pc+[tm.ge(e, -Lx), tm.le(e, Lx.scale(2))]
        R.prove('the particle ends inside the period (lower)', h, tm.ge(y, 0), fn)
        R.prove('the particle ends inside the period (upper)', h, tm.le(y, Lx), fn)
        for a in range(1, dim): R.eqp('the other coordinates are only advected', X.pc, x1.e[a], pl.e[a], fn)

def musl(R, prog):
    """with MUSL the copies take part in the second projection, with the updated velocities"""
    fn = 'Simulation::MUSL'; R.fn(fn)
    dim = prog.dim; fr = sym('flip_ratio')
    Np2 = sym('Np_with_copies', 'I', pos=True)
    cfg = own_cfg(base_cfg(prog))
    def sums(X):
        return X.vec_get(TempLV(X.S.f['grid'].f['v']), X.S.l, check=False)
    def addc(X, th, a, n):
        S = X.S; vals = [X.rd(v.get(X)) if isinstance(v, LV) else v for v in a]
        X.log.append(('add', vals, X.vec_get(TempLV(S.f['particles'].f['v']), S.p, check=False), sums(X)))
        th.f['Np'] = Np2; X.gens[Np2.key()] = S.p; X.assume(tm.ge(Np2, S.pre['Np']))
        for g in NEED:
            v = S.f['particles'].f[g]; S.f['particles'].f[g] = VecVal(Np2, v.et, ('sym', 'ext.'+g))
        xp = S.f['particles'].f['x']; S.f['particles'].f['x'] = VecVal(Np2, xp.et, xp.base, ((S.p, Mat(dim, 1, S.xp)),))
    def delc(X, th, a, n):
        S = X.S
        X.log.append(('del', [], None, sums(X)))
        th.f['Np'] = S.pre['Np']
        for g in NEED:
            v = S.f['particles'].f[g]; X.ext = dict(getattr(X, 'ext', {}), **{g: v}); S.f['particles'].f[g] = S.pre['particles'].f[g]
    cfg.contracts['Simulation::PBCAddParticles'] = addc
    cfg.contracts['Simulation::PBCDelParticles'] = delc
    def setup(X):
        X.log = []
        S = mk_sim(X, dim); X.S = S; S.f['pbc'] = True
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, []); return S
    from .c04 import blend
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'MUSL path %d' % i, X.pc) == 'unsat': continue
        kinds = [e[0] for e in X.log]
        R.fact('copies are made once and removed once', kinds == ['add', 'del'], fn, ' -> '.join(kinds))
        if kinds != ['add', 'del']: continue
        A_, D_ = X.log
        R.prove('margin of at least four cells', X.pc, tm.ge(A_[1][0], 4), fn)
        v1 = X.resolve(A_[2])
        blend(R, X, fn, v1, pv0(S, 'v', X), pv0(S, 'flip', X), pv0(S, 'pic', X), fr)
        R.fact('copies are made before the projection', not any(base_of(X, str(tm._atoms[a].name)) for q in comps(X.resolve(A_[3])) for a in q.atoms() if tm._atoms[a].kind == 'sel'), fn)
        at = set(base_of(X, str(tm._atoms[a].name)) for q in comps(X.resolve(D_[3])) for a in q.atoms() if tm._atoms[a].kind == 'sel')-{None}
        R.fact('copies are removed after the projection', len(at) >= dim, fn, str(at))
        for K, c in at: R.eqp('the projection runs over the particles and their copies', X.pc, X.scat[K]['bound'], Np2, fn)
        E_ = {g: X.vec_get(TempLV(X.ext[g]), S.p, check=False) for g in ('v', 'Bmat')}
        D = sym('apicDinverse'); pm = S.f['particle_mass']
        mass = node_val(X, S, S.f['grid'].f['mass']); v = node_val(X, S, S.f['grid'].f['v'])
        if discharge(X.pc, tm.gt(mass, 0), 2000)[0] == 'discharged':
            for h, nm in regimes(X):
                for a in range(dim):
                    def spec(o):
                        t = E_['v'].e[a]
                        if nm != 'PIC-FLIP': t = t + sum((E_['Bmat'][a, b]*rel(S, o, b)*D for b in range(dim)), ZERO)
                        return pm*w_atom(S, o)*t
                    check_nodal(R, X, S, fn, '%s: nodal momentum with copies %s' % (nm, AX[a]), mass*v.e[a], spec, 2, hyps=h)
