"""C04: grid-to-particle transfer: interpolation, affine fields, deformation update, velocity blending, advection."""
from .transfer import *
from vcg.prover import *
FILES = {'g2p', 'position_update'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    t = [('G2P %dD deg %d' % (d, s), g2p, (progs[(d, 2)], s, 'Simulation::G2P')) for d in (2, 3) for s in (2, 3)]
    t += [('positionUpdate %dD' % d, posupd, (progs[(d, 2)],)) for d in (2, 3)]
    t += [('affine lemmas %dD deg %d' % (d, s), lemmas, (d, s)) for d in (2, 3) for s in (2, 3)]
    return t
ASSUME = ['plasticity is called by its contract (it receives the trial deformation gradient; C12-C16 verify it)',
          'particles lie inside the grid (C06)']

def plast(X, th, a, n):
    p = a[0].get(X) if isinstance(a[0], LV) else a[0]
    F = a[2].get(X)
    S = X.S
    X.plast = (p, F, X.vec_get(TempLV(S.f['particles'].f['F']), S.p, check=False))

def g2p(R, prog, deg, fn):
    R.fn(fn)
    dim = prog.dim
    ps = explore_fn(prog, fn, {'Simulation::plasticity': plast})
    fr = sym('flip_ratio')
    for i, (X, S) in enumerate(ps):
        if vacuity(R, 'G2P path %d' % i, X.pc) == 'unsat': continue
        G0 = S.pre['grid']
        def vsum(vecname, term): return stencil_sum(S, G0.f[vecname], term, X)
        def eq(name, got, spec, h=()):
            for k, (a, b) in enumerate(zip(got.e, spec.e)): spl_poly_equal(R, '%s[%d]' % (name, k), fn, S, deg, a, b, h)
        pic = vsum('v', lambda o, v: mat_scale(v, w_atom(S, o)))
        eq('PIC velocity = interpolated grid velocity', pv(S, 'pic', X), pic)
        for h, nm in regimes(X):
            if nm != 'APIC':
                eq('%s: FLIP increment = interpolated grid increment' % nm, pv(S, 'flip', X), vsum('flip', lambda o, v: mat_scale(v, w_atom(S, o))), h)
            if nm != 'PIC-FLIP':
                eq('%s: affine matrix = sum w v (xi-xp)^T' % nm, pv(S, 'Bmat', X), vsum('v', lambda o, v: Mat(dim, dim, [v.e[a]*rel(S, o, b)*w_atom(S, o) for a in range(dim) for b in range(dim)])), h)
        grad = vsum('v', lambda o, v: Mat(dim, dim, [v.e[a]*gw_atom(S, o, b) for a in range(dim) for b in range(dim)]))
        F0 = pv0(S, 'F', X)
        spec = mat_add(F0, mat_scale(mat_mul(grad, F0), S.f['dt']))
        musl = tm.fkey(('b', 'use_musl')) in X.pcset
        if musl:
            R.fact('with MUSL the deformation is not touched here', not hasattr(X, 'plast') and same_vec(S.f['particles'].f['F'], S.pre['particles'].f['F']), fn)
        else:
            if hasattr(X, 'plast'): X.plast = [X.resolve(x) for x in X.plast]
            R.fact('return mapping is called', hasattr(X, 'plast'), fn)
            if hasattr(X, 'plast'):
                R.eqp('return mapping acts on this particle', X.pc, X.plast[0], S.p, fn)
                eq('trial deformation = (I + dt grad v) F', X.plast[1], spec)
                eq('stored deformation is the trial deformation', X.plast[2], spec)
        frame_ok(R, S, X, fn, ('pic', 'flip', 'Bmat', 'F', 'delta_gamma'), ())

def posupd(R, prog):
    fn = 'Simulation::positionUpdate'; R.fn(fn)
    dim = prog.dim
    ps = explore_fn(prog, fn, grid=False, particle_cell=False)
    fr = sym('flip_ratio')
    for i, (X, S) in enumerate(ps):
        if vacuity(R, 'positionUpdate path %d' % i, X.pc) == 'unsat': continue
        x0 = pv0(S, 'x', X); v0 = pv0(S, 'v', X); pic = pv0(S, 'pic', X); fl = pv0(S, 'flip', X); dt = S.f['dt']
        musl = tm.fkey(('b', 'use_musl')) in X.pcset
        x1 = pv(S, 'x', X)
        plain = mat_add(x0, mat_scale(pic, dt))
        pbc = tm.fkey(('b', 'pbc')) in X.pcset
        chg = tm.fkey(('b', 'change_particle_positions')) in X.pcset
        if not pbc and not chg:
            R.eqm('new position = old + dt * PIC velocity', X.pc, x1, plain, fn)
        elif not chg:
            R.eqm('positions across the flow are only advected', X.pc, Mat(dim-1, 1, x1.e[1:]), Mat(dim-1, 1, plain.e[1:]), fn)
        v1 = pv(S, 'v', X)
        if musl: R.eqm('with MUSL the velocity was updated before', X.pc, v1, v0, fn)
        else: blend(R, X, fn, v1, v0, fl, pic, fr)
        frame_ok(R, S, X, fn, ('x', 'v'), ())

def blend(R, X, fn, v1, v0, fl, pic, fr):
    """|flip_ratio| is the FLIP fraction; below -1 pure APIC"""
    for cond, alpha in ((tm.lt(fr, -1), ZERO), (AND(tm.ge(fr, -1), tm.lt(fr, 0)), -fr), (tm.ge(fr, 0), fr)):
        h = X.pc + [cond]
        R.eqm('blended velocity = a(v+dv)+(1-a)pic', h, v1, mat_add(mat_scale(mat_add(v0, fl), alpha), mat_scale(pic, ONE-alpha)), fn)

def lemmas(R, dim, deg):
    """affine grid fields v_i = a + C x_i are reproduced exactly"""
    S = ObjVal('Simulation', ''); S.fs = [sym('f'+AX[a], nonneg=True) for a in range(dim)]
    c0 = [sym('a%d' % a) for a in range(dim)]; C = [[sym('C%d%d' % (a, b)) for b in range(dim)] for a in range(dim)]
    D = Fraction(1, 4) if deg == 2 else Fraction(1, 3)
    for case in cases(dim, deg):
        h = case_hyps(S, case)
        W = {o: weight_spec(S, deg, case, o) for o in offs(dim)}
        vi = {o: [c0[a] + sum((C[a][b]*P(o[b]) for b in range(dim)), ZERO) for a in range(dim)] for o in W}
        for a in range(dim):
            vp = c0[a] + sum((C[a][b]*S.fs[b] for b in range(dim)), ZERO)
            R.eqp('affine field reproduced at the particle', h, sum((W[o][0]*vi[o][a] for o in W), ZERO), vp, 'lemma')
            for b in range(dim):
                R.eqp('velocity gradient of an affine field is exact', h, sum((W[o][1][b]*vi[o][a] for o in W), ZERO), C[a][b], 'lemma')
                R.eqp('affine matrix of an affine field is C*D', h, sum((W[o][0]*vi[o][a]*(P(o[b])-S.fs[b]) for o in W), ZERO), C[a][b].scale(D), 'lemma')
HARNESS = {'driver': 'h_transfer.cpp', 'builds': [(2, 2), (3, 2), (2, 3)], 'builds_thorough': [(3, 3), (2, 1)], 'flags': ('-DPROP=4',), 'n': 4000, 'time': 15}
