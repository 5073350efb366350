"""C09: Coulomb friction at obstacles, and the material-induced friction coefficient of a node."""
from .contact import *
from .c08 import common
FILES = {'boundary_collision', 'explicit_euler_update', 'headers', 'p2g'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    return [('nodal friction %dD deg %d' % (d, s), nodal, (progs[(d, 2)], s)) for d in (3, 2) for s in (2, 3, 1)] + contact_tasks(progs, terrain, plates, ('SlipStick', 'SlipFree'))
ASSUME = ['boundary condition is one of the three enumerators, plate type valid for the dimension, friction coefficients >= 0', 'terrain normals are unit vectors (decided in C10)',
          'a constrained-slip plate that a node moves away from: only the bounds of the friction are specified']
HARNESS = dict(driver='h_contact.cpp', flags=('-DPROP=9',), builds=[(2, 2), (3, 2)], n=60000, time=10)

def law(R, X, S, k, plate, nm, hyp=()):
    if X.prog.dim == 2:
        for e in (1, -1): law1(R, X, S, k, plate, nm, list(hyp)+[tm.eq(sym('tau'), P(e))])
    else: law1(R, X, S, k, plate, nm, hyp)

def law1(R, X, S, k, plate, nm, hyp):
    dim = X.prog.dim; pc = X.pc+list(hyp)
    mu = X.nodemu if X.mibf else X.ob.f['friction']
    dn, ts = X.dn, X.ts
    v = [X.v.e[a]-X.vo[a] for a in range(dim)]
    vn = sum((v[a]*X.n.e[a] for a in range(dim)), ZERO)
    vt = [v[a]-vn*X.n.e[a] for a in range(dim)]
    app = tm.lt(dn, 0)
    stick = tm.le(ts, -(mu*dn)); slide = tm.gt(ts, -(mu*dn))
    red = ts+mu*dn
    for a in range(dim):
        R.prove(nm+'pressed on, tangential speed below friction times normal speed: sticks', pc+[app, stick], tm.eq(vt[a], ZERO), FN)
        R.prove(nm+'pressed on, sliding: tangential speed reduced by friction times normal speed, same direction', pc+[app, slide], tm.eq(vt[a], red*X.tau[a]), FN)
        if k == 'SlipFree': R.prove(nm+'separating: no friction', pc+[tm.ge(dn, 0)], tm.eq(vt[a], ts*X.tau[a]), FN)
        elif not plate: R.prove(nm+'separating from constrained terrain: no friction', pc+[tm.ge(dn, 0)], tm.eq(vt[a], ts*X.tau[a]), FN)
    if plate and k == 'SlipStick':
        s = sum((vt[a]*X.tau[a] for a in range(dim)), ZERO)
        R.prove(nm+'friction never reverses the sliding direction', pc, tm.ge(s, ZERO), FN)
        R.prove(nm+'friction never accelerates', pc, tm.le(s, ts), FN)
        for a in range(dim): R.prove(nm+'friction keeps the sliding direction', pc, tm.eq(vt[a], s*X.tau[a]), FN)

def terrain(R, prog, k):
    for X, S in contact_paths(R, prog, 'objects', k):
        common(R, X, S)
        if tm.fkey(NOT(('b', 'inside'))) in X.pcset: continue
        law(R, X, S, k, False, 'terrain: ')

def plates(R, prog, k, t):
    for X, S in contact_paths(R, prog, 'plates', k, t):
        common(R, X, S)
        J = plate_inside(prog, X, t)
        if smt.check_unsat([x for x in X.pc+[J] if not nonlinear(x)], [], 2000)[0] == 'unsat': continue
        law(R, X, S, k, True, '%s plate: ' % t, [J])

def nodal(R, prog, deg):
    fn = 'Simulation::P2G'; R.fn(fn)
    n = 0
    for i, (X, S) in enumerate(explore_fn(prog, fn, zero_grid=True)):
        if tm.fkey(('b', 'use_mibf')) not in X.pcset: continue
        if vacuity(R, 'P2G path %d' % i, X.pc) == 'unsat': continue
        mass = node_val(X, S, S.f['grid'].f['mass'])
        if discharge(X.pc, tm.gt(mass, 0), 3000)[0] != 'discharged': continue
        n += 1
        fr = node_val(X, S, S.f['grid'].f['friction'])
        check_nodal(R, X, S, fn, 'nodal friction coefficient is the mass-weighted mean of the particles', mass*fr, lambda o: S.f['particle_mass']*w_atom(S, o)*pv0(S, 'muI', X), deg)
    if not n: raise Unsupported('no path with material-induced friction')
