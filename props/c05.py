"""C05: MUSL: re-projected grid velocities carry the updated particle momentum; deformation uses them."""
from .transfer import *
from vcg.prover import *
from .c04 import blend, plast
FILES = {'musl', 'deformation_update'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    t = [('MUSL %dD deg %d' % (d, s), musl, (progs[(d, 2)], s)) for d in (2, 3) for s in (2, 3)]
    t += [('deformationUpdate %dD deg %d' % (d, s), defu, (progs[(d, 2)], s)) for d in (2, 3) for s in (2, 3)]
    return t
ASSUME = ['nodal masses are those of the particle-to-grid transfer of the same step (C02)', 'plasticity by contract', 'particles lie inside the grid (C06)', 'in periodic mode the particle set is the one extended by the copies (C17)']

def musl(R, prog, deg):
    fn = 'Simulation::MUSL'; R.fn(fn)
    dim = prog.dim; fr = sym('flip_ratio')
    for i, (X, S) in enumerate(explore_fn(prog, fn, {'Simulation::PBCAddParticles': lambda X, th, a, n: None, 'Simulation::PBCDelParticles': lambda X, th, a, n: None})):
        if vacuity(R, 'MUSL path %d' % i, X.pc) == 'unsat': continue
        v0 = pv0(S, 'v', X); fl = pv0(S, 'flip', X); pic = pv0(S, 'pic', X); v1 = pv(S, 'v', X)
        blend(R, X, fn, v1, v0, fl, pic, fr)
        B = pv0(S, 'Bmat', X); D = sym('apicDinverse'); pm = S.f['particle_mass']
        mass = node_val(X, S, S.f['grid'].f['mass']); v = node_val(X, S, S.f['grid'].f['v'])
        dec = lambda f: discharge(X.pc, f, 2000)[0] == 'discharged'
        if dec(tm.gt(mass, 0)):
            for h, nm in regimes(X):
                for a in range(dim):
                    def spec(o):
                        t = v1.e[a]
                        if nm != 'PIC-FLIP': t = t + sum((B[a, b]*rel(S, o, b)*D for b in range(dim)), ZERO)
                        return pm*w_atom(S, o)*t
                    check_nodal(R, X, S, fn, '%s: re-projected nodal momentum %s' % (nm, AX[a]), mass*v.e[a], spec, deg, hyps=h)
        else:
            R.prove('only nodes without mass are treated as empty', X.pc, tm.le(mass, 0), fn)
            R.eqm('empty node has zero velocity', X.pc, v, mat_zero(dim, 1), fn)
        frame_ok(R, S, X, fn, ('v',), ('v',))
        for kind, nm, f, n in X.obs:
            if kind == 'div': R.prove(nm, X.pc[:n], f, fn)

def defu(R, prog, deg):
    fn = 'Simulation::deformationUpdate'; R.fn(fn)
    dim = prog.dim
    for i, (X, S) in enumerate(explore_fn(prog, fn, {'Simulation::plasticity': plast})):
        if vacuity(R, 'deformationUpdate path %d' % i, X.pc) == 'unsat': continue
        grad = stencil_sum(S, S.pre['grid'].f['v'], lambda o, v: Mat(dim, dim, [v.e[a]*gw_atom(S, o, b) for a in range(dim) for b in range(dim)]), X)
        F0 = pv0(S, 'F', X)
        spec = mat_add(F0, mat_scale(mat_mul(grad, F0), S.f['dt']))
        if hasattr(X, 'plast'): X.plast = [X.resolve(x) for x in X.plast]
        R.fact('return mapping is called', hasattr(X, 'plast'), fn)
        if hasattr(X, 'plast'):
            R.eqp('return mapping acts on this particle', X.pc, X.plast[0], S.p, fn)
            for k in range(dim*dim):
                spl_poly_equal(R, 'trial deformation = (I + dt grad v) F [%d]' % k, fn, S, deg, X.plast[1].e[k], spec.e[k])
                spl_poly_equal(R, 'stored deformation is the trial deformation [%d]' % k, fn, S, deg, X.plast[2].e[k], spec.e[k])
        frame_ok(R, S, X, fn, ('F', 'delta_gamma'), ())
HARNESS = {'driver': 'h_transfer.cpp', 'builds': [(2, 2), (3, 2), (2, 3)], 'builds_thorough': [(3, 3), (2, 1)], 'flags': ('-DPROP=5',), 'n': 4000, 'time': 15}
