"""C03: internal forces are self-equilibrated and the grid update is Newton's second law."""
from .transfer import *
from vcg.prover import *
def programs(tier): return {(2, 2): {'p2g', 'explicit_euler_update'}, (3, 2): {'p2g', 'explicit_euler_update'}}
def tasks(progs, tier):
    t = [('internal force %dD deg %d' % (d, s), force, (progs[(d, 2)], s)) for d in (2, 3) for s in (2, 3, 1)]
    t += [('grid update %dD' % d, euler, (progs[(d, 2)],)) for d in (2, 3)]
    t += [('equilibrium lemmas %dD deg %d' % (d, s), lemmas, (d, s)) for d in (2, 3) for s in (2, 3)]
    return t
ASSUME = ['boundary collision enters the grid update only through its contract (C08/C09); here it is an arbitrary change of the velocity']

def force(R, prog, deg):
    fn = 'Simulation::P2G'; R.fn(fn)
    dim = prog.dim
    for i, (X, S) in enumerate(explore_fn(prog, fn, zero_grid=True)):
        if vacuity(R, 'P2G path %d' % i, X.pc) == 'unsat': continue
        F = node_val(X, S, S.f['grid'].f['force']); tau = pv0(S, 'tau', X)
        for a in range(dim):
            check_nodal(R, X, S, fn, 'nodal internal force %s' % AX[a], F.e[a],
                        lambda o: sum((tau[a, b]*gw_atom(S, o, b) for b in range(dim)), ZERO), deg)

def euler(R, prog):
    fn = 'Simulation::explicitEulerUpdate'; R.fn(fn)
    dim = prog.dim
    calls = []
    def bc(X, th, a, n):
        # arbitrary new velocity; remember what it was given
        idx = a[0].get(X) if isinstance(a[0], LV) else a[0]
        Xi = a[1].get(X) if isinstance(a[1], LV) else a[1]
        vi = a[2].get(X)
        new = Mat(dim, 1, [sym('bc.v%d' % k) for k in range(dim)])
        X.bc = (idx, Xi, vi)
        a[2].set(X, new)
    ps = explore_fn(prog, fn, {'Simulation::boundaryCollision': bc})
    some = False
    for i, (X, S) in enumerate(ps):
        if vacuity(R, 'explicitEulerUpdate path %d' % i, X.pc) == 'unsat': continue
        G = S.f['grid']; G0 = S.pre['grid']
        g = [X.gens[N.key()] for N in S.Ns]; j = ind(S, g)
        at = lambda grid, k: X.vec_get(TempLV(grid.f[k]), j, check=False)
        m0 = at(G0, 'mass'); v0 = at(G0, 'v'); f0 = at(G0, 'force')
        occupied = discharge(X.pc, tm.gt(m0, 0), 3000)[0] == 'discharged'
        if occupied:
            some = True
            R.fact('boundary collision is applied at every occupied node', hasattr(X, 'bc'), fn)
            if not hasattr(X, 'bc'): continue
            idx, Xi, vi = [X.resolve(x) for x in X.bc]
            R.eqp('collision is told the node it acts on', X.pc, idx, j, fn)
            R.eqm('collision is told the position of that node', X.pc, Xi, Mat(dim, 1, [G0.f[AX[a]+'c'] + g[a]*S.f['dx'] for a in range(dim)]), fn)
            dt = S.f['dt']; V = S.f['particle_volume']; gr = X.field(S, 'gravity')
            R.eqm('velocity before collision = v + dt*(gravity - volume*force/mass)', X.pc, vi, Mat(dim, 1, [v0.e[a] + dt*(gr.e[a] - V*f0.e[a]/m0) for a in range(dim)]), fn)
            bcv = Mat(dim, 1, [sym('bc.v%d' % k) for k in range(dim)])
            R.eqm('stored velocity is the collision result', X.pc, at(G, 'v'), bcv, fn)
            R.eqm('stored velocity increment = new - old', X.pc, at(G, 'flip'), mat_sub(bcv, v0), fn)
        else:
            R.prove('only nodes without mass are skipped', X.pc, tm.le(m0, 0), fn)
            R.eqm('velocity of an empty node unchanged', X.pc, at(G, 'v'), v0, fn)
            R.eqm('increment of an empty node unchanged', X.pc, at(G, 'flip'), at(G0, 'flip'), fn)
        frame_ok(R, S, X, fn, (), ('v', 'flip'))
        for kind, nm, f, n in X.obs:
            if kind == 'div': R.prove(nm, X.pc[:n], f, fn)
    R.fact('occupied nodes are reached', some, fn)

def lemmas(R, dim, deg):
    S = ObjVal('Simulation', ''); S.fs = [sym('f'+AX[a], nonneg=True) for a in range(dim)]
    tau = [[sym('tau%d%d' % (min(a, b), max(a, b))) for b in range(dim)] for a in range(dim)]
    for case in cases(dim, deg):
        h = case_hyps(S, case)
        W = {o: weight_spec(S, deg, case, o) for o in offs(dim)}
        f = {o: [sum((tau[a][b]*W[o][1][b] for b in range(dim)), ZERO) for a in range(dim)] for o in W}
        for a in range(dim):
            R.eqp('internal forces of a particle sum to zero (%s)' % AX[a], h, sum((f[o][a] for o in W), ZERO), ZERO, 'lemma')
            for b in range(a):
                R.eqp('internal forces of a symmetric stress have no torque', h, sum((f[o][a]*(P(o[b])-S.fs[b]) - f[o][b]*(P(o[a])-S.fs[a]) for o in W), ZERO), ZERO, 'lemma')
HARNESS = {'driver': 'h_transfer.cpp', 'builds': [(2, 2), (3, 2), (2, 3)], 'builds_thorough': [(3, 3), (2, 1)], 'flags': ('-DPROP=3',), 'n': 4000, 'time': 15}
