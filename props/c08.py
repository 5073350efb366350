"""C08: no penetration / no slip at terrain and plates."""
from .contact import *
FILES = {'boundary_collision', 'explicit_euler_update', 'headers'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier): return contact_tasks(progs, terrain, plates)
ASSUME = ['boundary condition is one of the three enumerators, plate type valid for the dimension, friction coefficients >= 0', 'terrain normals are unit vectors (decided in C10)']
HARNESS = dict(driver='h_contact.cpp', flags=('-DPROP=8',), builds=[(2, 2), (3, 2)], n=60000, time=8)

def common(R, X, S):
    for x in X.tested:
        for a in range(X.prog.dim): R.eqp('the obstacle is tested at the end-of-step position of the node', X.pc, x.e[a], X.Xi.e[a], FN)
    for kind, nm, g, n in X.obs:
        if kind in ('inv', 'bounds', 'dom', 'div', 'init'): R.prove(nm, X.pc, g, FN)
    frame_ok(R, S, X, FN)
    for k, v in X.obpre.items(): R.fact('frame: obstacle %s unchanged' % k, X.ob.f[k] is v or X.ob.f[k] == v, FN)

def terrain(R, prog, k):
    dim = prog.dim
    for X, S in contact_paths(R, prog, 'objects', k):
        common(R, X, S)
        ins = tm.fkey(('b', 'inside')) in X.pcset; out = tm.fkey(NOT(('b', 'inside'))) in X.pcset
        R.fact('the obstacle test decides', ins or out, FN, status='unknown')
        if out: R.eqm('outside: velocity unchanged', X.pc, X.v, X.w, FN); continue
        wn = mat_dot(X.w, X.n); vn = mat_dot(X.v, X.n)
        if k == 'NoSlip': R.eqm('no-slip: the node sticks', X.pc, X.v, mat_zero(dim, 1), FN)
        elif k == 'SlipStick': R.eqp('constrained slip: no normal velocity', X.pc, vn, ZERO, FN)
        else:
            R.prove('free slip: a node moving into the obstacle loses its normal velocity', X.pc+[tm.lt(wn, 0)], tm.eq(vn, ZERO), FN)
            for a in range(dim): R.prove('free slip: a separating node is left alone', X.pc+[tm.ge(wn, 0)], tm.eq(X.v.e[a], X.w.e[a]), FN)

def plates(R, prog, k, t):
    dim = prog.dim
    for X, S in contact_paths(R, prog, 'plates', k, t):
        common(R, X, S)
        ax, sg = plate_axis(prog, t)
        J = plate_inside(prog, X, t)
        vo = X.vo
        wr = [X.w.e[a]-vo[a] for a in range(dim)]; vr = [X.v.e[a]-vo[a] for a in range(dim)]
        wn = wr[ax].scale(sg); vn = vr[ax].scale(sg)
        nm = '%s plate: ' % t
        for a in range(dim): R.prove(nm+'outside: velocity unchanged', X.pc, OR(J, tm.eq(X.v.e[a], X.w.e[a])), FN)
        hJ = X.pc+[J]
        if smt.check_unsat([x for x in hJ if not nonlinear(x)], [], 2000)[0] == 'unsat': continue
        if k == 'NoSlip':
            for a in range(dim): R.prove(nm+'no-slip: the node moves with the plate', hJ, tm.eq(vr[a], ZERO), FN)
        elif k == 'SlipStick': R.prove(nm+'constrained slip: no normal velocity relative to the plate', hJ, tm.eq(vn, ZERO), FN)
        else:
            R.prove(nm+'free slip: an approaching node loses its relative normal velocity', hJ+[tm.lt(wn, 0)], tm.eq(vn, ZERO), FN)
            for a in range(dim): R.prove(nm+'free slip: a separating node is left alone', hJ+[tm.ge(wn, 0)], tm.eq(vr[a], wr[a]), FN)
