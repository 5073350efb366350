"""C02: particle-to-grid transfer conserves mass, linear and affine momentum, node by node."""
from .transfer import *
from vcg.prover import *

def programs(tier): return {(2, 2): {'p2g'}, (3, 2): {'p2g'}}
def tasks(progs, tier):
    t = [('P2G %dD deg %d' % (d, s), p2g, (progs[(d, 2)], s)) for d in (2, 3) for s in (2, 3, 1)]
    t += [('conservation lemmas %dD deg %d' % (d, s), lemmas, (d, s)) for d in (2, 3) for s in (2, 3, 1)]
    return t
ASSUME = ['particles lie inside the grid with one layer of nodes below and two above (established by C06)',
          'grid arrays are zeroed before the transfer (established by resizeGrid, C06)',
          'sums over particles: the nodal value is the sum of the per-particle contributions (loop rule for scatter loops)']

def p2g(R, prog, deg):
    fn = 'Simulation::P2G'; R.fn(fn, 'Simulation::ind')
    ps = explore_fn(prog, fn, zero_grid=True)
    dim = prog.dim
    seen = set()
    for i, (X, S) in enumerate(ps):
        if vacuity(R, 'P2G path %d' % i, X.pc) == 'unsat': continue
        G = S.f['grid']
        mass = node_val(X, S, G.f['mass'])
        v = node_val(X, S, G.f['v'])
        pm = S.f['particle_mass']
        R.prove('grid array lengths unchanged', X.pc, AND(tm.eq(G.f['mass'].n, S.nodes), tm.eq(G.f['v'].n, S.nodes), tm.eq(G.f['force'].n, S.nodes)), fn)
        check_nodal(R, X, S, fn, 'nodal mass', mass, lambda o: pm*w_atom(S, o), deg)
        vp = pv0(S, 'v', X); B = pv0(S, 'Bmat', X); D = sym('apicDinverse')
        def mom(a, affine):
            def f(o):
                t = vp.e[a]
                if affine: t = t + sum((B[a, b]*rel(S, o, b)*D for b in range(dim)), ZERO)
                return pm*w_atom(S, o)*t
            return f
        positive = None
        sm = [a for a in mass.atoms() if base_of(X, tm._atoms[a].name or '')]
        Sm = Poly({((sm[0], 1),): Fraction(1)}) if len(sm) == 1 else mass
        pos = discharge(X.pc, tm.gt(mass, 0), 3000)[0] == 'discharged'
        if pos:
            for h, nm in regimes(X):
                for a in range(dim):
                    check_nodal(R, X, S, fn, '%s: nodal momentum %s' % (nm, AX[a]), mass*v.e[a], mom(a, nm != 'PIC-FLIP'), deg, hyps=h)
        else:
            # empty node: all per-particle contributions of mass are >= 0 and vanish together with those of momentum
            R.prove('a node is treated as empty only if its mass is not positive', X.pc, tm.le(mass, 0), fn)
            R.eqm('empty node has zero velocity', X.pc, v, mat_zero(dim, 1), fn)
        frame_ok(R, S, X, fn, (), ('mass', 'v', 'force', 'friction'))

def lemmas(R, dim, deg):
    """from the node-wise contract to the conserved totals (sum over the stencil)"""
    S = ObjVal('Simulation', ''); S.fs = [sym('f'+AX[a], nonneg=True) for a in range(dim)]
    v = [sym('vp%d' % a) for a in range(dim)]; B = [[sym('B%d%d' % (a, b)) for b in range(dim)] for a in range(dim)]
    Dinv = {2: P(4), 3: P(3), 1: ZERO}[deg]
    for case in cases(dim, deg):
        h = case_hyps(S, case)
        W = {o: weight_spec(S, deg, case, o) for o in offs(dim)}
        R.eqp('one particle deposits exactly its mass', h, sum((w for w, g in W.values()), ZERO), ONE, 'lemma')
        for a in range(dim):
            m = sum((W[o][0]*(v[a] + sum((B[a][b]*(P(o[b])-S.fs[b])*Dinv for b in range(dim)), ZERO)) for o in W), ZERO)
            R.eqp('one particle deposits exactly its momentum %s' % AX[a], h, m, v[a], 'lemma')
            if deg > 1:
                for b in range(dim):
                    m = sum((W[o][0]*(P(o[b])-S.fs[b])*(v[a] + sum((B[a][c]*(P(o[c])-S.fs[c])*Dinv for c in range(dim)), ZERO)) for o in W), ZERO)
                    R.eqp('one particle deposits exactly its affine momentum %d%d' % (a, b), h, m, B[a][b], 'lemma')
HARNESS = {'driver': 'h_transfer.cpp', 'builds': [(2, 2), (3, 2), (2, 3)], 'builds_thorough': [(3, 3), (2, 1)], 'flags': ('-DPROP=2',), 'n': 4000, 'time': 15}
