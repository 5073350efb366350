"""C20: constants derived from the user's input, refusal of unusable set-ups, initial state, parameters left alone."""
from .transfer import *
from .setup import *
from vcg.prover import *
from .c07 import reach_writes
ALL = {'p2g', 'g2p', 'musl', 'deformation_update', 'position_update', 'explicit_euler_update', 'plasticity', 'boundary_collision', 'simulation', 'pbc', 'update_dt', 'remesh', 'save_data', 'headers'}
# parameters a user sets (public data of the simulation), without the ones a run is meant to change
PARAMS = ('n_threads', 'end_frame', 'is_initialized', 'save_sim', 'reduce_verbose', 'pbc', 'change_particle_positions', 'gravity_special', 'save_grid', 'use_mibf', 'use_musl', 'grid_reference_point',
          'min_dt', 'fps', 'cfl', 'cfl_elastic', 'flip_ratio', 'rho', 'gravity_time', 'Lx', 'Ly', 'Lz', 'particle_mass', 'particle_volume', 'dx', 'elastic_model', 'plastic_model', 'hardening_law',
          'use_pradhana', 'E', 'nu', 'stress_tolerance', 'xi', 'q_max', 'q_min', 'p_min', 'M', 'q_cohesion', 'visc_exponent', 'visc_time', 'use_duvaut_lions_formulation', 'beta', 'p0', 'rho_s', 'grain_diameter',
          'I_ref', 'mu_1', 'mu_2', 'q_prefac')
def programs(tier): return {(2, 2): ALL, (3, 2): ALL, (2, 3): {'simulation'}, (3, 3): {'simulation'}}
def tasks(progs, tier):
    t = []
    for k, pr in progs.items():
        t.append(('start of a run %dD degree %d' % k, start, (pr,)))
        if k[1] == 2: t += [('new particles %dD' % k[0], fresh_particles, (pr,)), ('parameters %dD' % k[0], params, (pr,)), ('refusal %dD' % k[0], refuse, (pr,))]
    return t
ASSUME = ['dx, E, rho, fps, q_prefac, grain diameter and grain density are positive, 0 <= nu < 1/2', 'linear splines: the affine constant is unspecified']
HARNESS = dict(driver='h_setup.cpp', builds=[(2, 2), (3, 2)], builds_thorough=[(2, 3), (3, 3)], flags=(), n=3000, time=8)
ENUM = {'elastic_model': 2, 'plastic_model': 10, 'hardening_law': 5}

def el(X, v, i): return X.vec_get(TempLV(v), i, check=False)

def user(X, S):
    f = S.f
    for nm in ('I_ref', 'mu_1', 'mu_2', 'M'): f[nm] = sym(nm)
    for nm, n in ENUM.items():
        f[nm] = sym(nm, 'I', nonneg=True); X.assume(tm.lt(f[nm], n))
    for nm in ('is_initialized', 'use_mibf', 'save_sim'): f[nm] = ('b', nm)
    f['exit'] = sym('exit', 'I', nonneg=True)
    f['gravity'] = Mat(X.prog.dim, 1, [sym('gravity.%d' % a) for a in range(X.prog.dim)])
    for nm in PARAMS:
        if nm not in f and nm not in ('Lz', 'grid_reference_point', 'pbc', 'change_particle_positions', 'gravity_special', 'save_grid', 'use_musl', 'reduce_verbose', 'use_pradhana', 'use_duvaut_lions_formulation', 'n_threads'): f[nm] = sym(nm)
    S.parts = f['particles'].copy()

def start(R, prog):
    fn = 'Simulation::simulate'; R.fn(fn, 'Simulation::calculateBulkModulus')
    dim = prog.dim; DI = {2: 4, 3: 3}[prog.spline]
    for i, (X, S) in enumerate(simulate_prefix(prog, R, user)):
        f, pre, pc = S.f, S.pre, X.pc
        g = lambda n: X.rd(f[n])
        E, nu, rho, dx, q = (pre[n] for n in ('E', 'nu', 'rho', 'dx', 'q_prefac'))
        R.eqp('shear modulus', pc, g('mu')*2*(1+nu), E, fn)
        R.eqp('first Lame constant', pc, g('lambda')*(1+nu)*(1-2*nu), nu*E, fn)
        R.eqp('bulk modulus of the dimension', pc, g('K'), g('lambda')+g('mu')*P(Fraction(2, dim)), fn)
        R.prove('elastic wave speed', pc, AND(tm.eq(g('wave_speed')**2*rho, E), tm.ge(g('wave_speed'), 0)), fn)
        R.eqp('inverse cell size', pc, g('one_over_dx')*dx, ONE, fn)
        R.eqp('inverse cell size squared', pc, g('one_over_dx_square')*dx**2, ONE, fn)
        R.eqp('inverse inertia constant of the affine transfer', pc, g('apicDinverse')*dx**2, P(DI), fn)
        R.eqp('strain conversion', pc, g('d_prefac')*q, ONE, fn)
        R.eqp('elastic stress conversion', pc, g('e_mu_prefac'), 2*q*g('mu'), fn)
        R.eqp('plastic stress conversion', pc, g('f_mu_prefac'), 2*q**2*g('mu'), fn)
        R.prove('mu(I) constant', pc, AND(tm.eq(g('fac_Q')**2*pre['grain_diameter']**2*pre['rho_s'], pre['I_ref']**2), tm.ge(g('fac_Q')*pre['I_ref'], 0)), fn)
        # who may start
        R.prove('started only when initialised', pc, ('b', 'is_initialized'), fn)
        R.prove('started only when not stopped', pc, tm.eq(pre['exit'], ZERO), fn)
        R.prove('started only with compatible models', pc, OR(tm.eq(pre['elastic_model'], ZERO), tm.eq(pre['plastic_model'], ZERO)), fn)
        # particles: as given, except the friction value
        for nm in VP:
            if nm == 'muI': continue
            a = el(X, f['particles'].f[nm], S.p); b = el(X, S.parts.f[nm], S.p)
            R.eqp('number of entries of %s' % nm, pc, f['particles'].f[nm].n, S.parts.f[nm].n, fn)
            for u, v in zip(*[(x.e if isinstance(x, Mat) else [x]) for x in (X.rd(a), X.rd(b))]): R.eqp('initial %s as given' % nm, pc, u, v, fn)
        m = X.rd(el(X, f['particles'].f['muI'], S.p)); m0 = X.rd(el(X, S.parts.f['muI'], S.p)); mi = ('b', 'use_mibf'); mui = OR(tm.eq(pre['plastic_model'], P(8)), tm.eq(pre['plastic_model'], P(9)))
        R.eqp('number of entries of muI', pc, f['particles'].f['muI'].n, S.parts.f['muI'].n, fn)
        R.prove('initial internal friction, mu(I) models', pc+[mi, mui], tm.eq(m, pre['mu_1']), fn)
        R.prove('initial internal friction, other models', pc+[mi, NOT(mui)], tm.eq(m, pre['M']), fn)
        for nm in PARAMS+('Np',):
            if nm in pre and isinstance(pre[nm], Poly): R.eqp('parameter %s kept' % nm, pc, g(nm), pre[nm], fn)
            elif nm in pre and not isinstance(pre[nm], Mat): R.fact('parameter %s kept' % nm, f[nm] is pre[nm] or f[nm] == pre[nm], fn, status='unknown')
        for a in range(dim): R.eqp('gravity as given', pc, g('gravity').e[a], pre['gravity'].e[a], fn)

def refuse(R, prog):
    """returns before the first step happen only for the stated reasons, leave the particles alone and write nothing"""
    fn = 'Simulation::simulate'; R.fn(fn)
    simulate_prefix(prog, R, user)
    for X, S in R.early:
        f, pre, pc = S.f, S.pre, X.pc
        no = OR(NOT(('b', 'is_initialized')), tm.ne(pre['exit'], ZERO), AND(tm.ne(pre['elastic_model'], ZERO), tm.ne(pre['plastic_model'], ZERO)))
        wrote = [e for e in X.events if e[0] == 'call' and str(e[1]).startswith('save')]
        R.prove('a usable set-up is run (unless no frame is requested)', pc, OR(no, tm.eq(pre['end_frame'], ZERO)), fn)
        if wrote: R.prove('a refused run writes nothing', pc, NOT(no), fn)
        else: R.fact('a refused run writes nothing', True, fn)
        for nm in VP:
            if nm == 'muI': continue
            for u, v in zip(*[(x.e if isinstance(x, Mat) else [x]) for x in (X.rd(el(X, f['particles'].f[nm], S.p)), X.rd(el(X, S.parts.f[nm], S.p)))]): R.eqp('refused: %s untouched' % nm, pc, u, v, fn)

def fresh_particles(R, prog):
    fn = 'Particles::Particles'; R.fn(fn)
    cfg = base_cfg(prog)
    def setup(X):
        n = sym('n', 'I', nonneg=True); X.n = n; X.i = sym('i', 'I', nonneg=True); X.gens[n.key()] = X.i; X.assume(tm.lt(X.i, n))
        return X.construct_vals('Particles', [n])
    for X, o, st in explore(prog, cfg, setup):
        if st != 'ok': continue
        for nm in VP:
            v = o.f[nm]
            R.eqp('%s: one entry per particle' % nm, X.pc, v.n, X.n, fn)
            e = X.rd(el(X, v, X.i))
            if isinstance(e, Mat):
                for r in range(e.r):
                    for c in range(e.c): R.eqp('initial %s' % nm, X.pc, e[r, c], ONE if nm == 'F' and r == c else ZERO, fn)
            else: R.eqp('initial %s' % nm, X.pc, e, ZERO, fn)

def params(R, prog):
    fn = 'Simulation::simulate'
    R.fn(fn)
    ok = reach_writes(prog, fn)
    if not ok: raise Unsupported('no writes found')
    for nm in PARAMS:
        w = sorted(set(x[1] for x in ok if x[0] == nm and x[2] == 'Simulation'))
        R.fact('frame: a run does not change %s' % nm, not w, fn, detail='written in '+', '.join(w), status='unknown')
