"""Contract of the set-up part of simulate(): the state in which the first step starts."""
from .transfer import *
from vcg.prover import *

def mentions_call(n, name):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        if x.get('kind') == 'MemberExpr' and x.get('name') == name: return True
        if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == name: return True
        st.extend(x.get('inner', ()))
    return False

class Reached(Exception):
    def __init__(self, S): self.S = S

NOPS = ('Simulation::saveInfo', 'Simulation::saveParticleData', 'Simulation::saveGridData', 'Simulation::saveTiming', 'Simulation::saveAvgData', 'debug', 'Simulation::createDirectory')

def sim_cfg(prog):
    cfg = base_cfg(prog)
    for q in NOPS: cfg.contracts[q] = lambda X, th, a, n: X.events.append(('call', n.get('name')))
    return cfg

def raw_sim(X, prog):
    """every field unconstrained except: dx, E, rho, fps > 0, 0 <= nu < 1/2, arrays of length Np"""
    dim = prog.dim
    S = ObjVal('Simulation', '')
    f = S.f
    f['dim'] = P(dim)
    for nm in ('dx', 'E', 'rho', 'fps', 'particle_mass', 'particle_volume', 'min_dt', 'q_prefac', 'grain_diameter', 'rho_s', 'cfl', 'cfl_elastic'): f[nm] = sym(nm, pos=True)
    f['nu'] = sym('nu', nonneg=True); X.assume(tm.lt(f['nu'], P(Fraction(1, 2))))
    f['frame'] = sym('frame', 'I', nonneg=True); f['end_frame'] = sym('end_frame', 'I', nonneg=True)
    Np = sym('Np', 'I', pos=True); f['Np'] = Np
    p = sym('p', 'I', nonneg=True); X.gens[Np.key()] = p; X.assume(tm.lt(p, Np)); S.p = p
    f['particles'] = mk_particles(X, Np, dim)
    return S

def simulate_prefix(prog, R, extra=None):
    """list of (X, S): states at the first call of advanceStep, plus .returns for paths that return earlier"""
    cfg = sim_cfg(prog)
    def adv(X, th, a, n): raise Reached(th)
    cfg.contracts['Simulation::advanceStep'] = adv
    def lh(X, C, cond, inc, body, n):
        if not mentions_call(body, 'advanceStep'): return False
        f = X.cond_of(C, cond)
        if X.decide(f):
            X.ex(Ctx(C.tu, {}, C.this, C), body)
            raise Unsupported('time loop body does not call advanceStep first')
        return True
    cfg.loop_handler = lh
    early = []
    def setup(X):
        S = raw_sim(X, prog); X.S = S
        if extra: extra(X, S)
        S.pre = dict(S.f)
        try:
            X.call_named('Simulation::simulate', S, [])
        except Reached as r:
            S.reached = True
            return S
        S.reached = False
        return S
    ps = explore(prog, cfg, setup)
    out = []
    early = []
    for X, S, st in ps:
        if st != 'ok': continue
        (out if S.reached else early).append((X, S))
    if not out: raise Unsupported('no path of simulate() reaches the first step')
    R.early = early
    for i, (X, S) in enumerate(out): vacuity(R, 'simulate set-up path %d' % i, X.pc)
    return out
