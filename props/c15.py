"""C15: rate-dependent models: the stress above yield, the plastic strain rate and the stored friction value satisfy the viscous law of the model
(within the stated iteration tolerance, or the run is being stopped)."""
from .plast import *
from .c14 import nonneg
def programs(tier): return {(2, 2): {'plasticity', 'headers'}, (3, 2): {'plasticity', 'headers'}}
def tasks(progs, tier):
    return [t for t in model_tasks(progs, rate, ('VMVisc', 'DPVisc', 'MCC', 'MCCVisc', 'DPMui', 'MCCMui'), tier) if t[2][2]]
ASSUME = PL_ASSUME+['Newton iterations: partial correctness (the law holds within 1e-2 stress units when the iteration stops; otherwise the run is being stopped)', 'trial states with shear (isotropic states: C13, C14)']
HARNESS = dict(driver='h_plast.cpp', flags=('-DPROP=15',), builds=[(2, 2), (3, 2)], n=20000, time=12)
TOL = P(Fraction(1, 100))

NOCAND = {}
def newton(X, C, hv, n, ph):
    """plastic multiplier >= 0;  counter below the bound or the run is being stopped"""
    ex = None
    for key, v in hv.items():
        if not isinstance(v['pre'], Poly) or not isinstance(v['val'], Poly): continue
        if v['name'].split('.')[-1] == 'exit': ex = v
        elif not v['val'].is_int():
            if ph == 'assume':
                if NOCAND.get(v['name'], 0) > 1: continue       # never a candidate so far on this task
                if nonneg(X, v['pre']): X.assume(tm.ge(v['val'], 0)); v['inv'] = True; NOCAND[v['name']] = -10**6
                else: NOCAND[v['name']] = NOCAND.get(v['name'], 0)+1
            elif v.get('inv'): X.inv.append(('plastic multiplier stays non-negative', tm.ge(v['cur'], 0), list(X.pc)))
    if ex is None: return
    f = X.newton_test if ph == 'assume' else X.cond_of(C, X.newton_cond)
    if f is None: return
    inv = OR(f, tm.eq(ex['val'] if ph == 'assume' else ex['cur'], P(1)))
    if ph == 'assume': X.assume(inv)
    else: X.inv.append(('an iteration that does not finish stops the run', X.resolve(inv), list(X.pc)))

def rate(R, prog, model, shear, hard):
    def aborted(X):
        for nm, f, pc in X.inv: R.prove(nm, pc, f, FN)
    def ext(X, S): X.inv = []
    NOCAND.clear()
    for X, S in plast_paths(R, prog, model, shear, hard, contracts=helper_contracts(), newton=newton, on_abort=aborted, extra=ext):
        if X.elastic:
            f = S.f
            if model in ('DPMui', 'MCCMui'):
                R.prove('elastic: internal friction is the static value', X.pc, tm.eq(X.post['muI'], f['mu_1']), FN)
                R.prove('elastic: no viscosity', X.pc, tm.eq(X.post['viscosity'], ZERO), FN)
            elif X.flag('use_mibf') and model != 'VMVisc': R.prove('elastic: internal friction is the static value', X.pc, tm.eq(X.post['muI'], f['M']), FN)
            continue
        {'VMVisc': vm, 'DPVisc': dp, 'MCC': mcc, 'MCCVisc': mcc, 'DPMui': dpm, 'MCCMui': mccm}[model](R, X, S, hard)

def one_exp(X, f): return tm.fkey(tm.eq(f['visc_exponent'], P(1))) in X.pcset or f['visc_exponent'].const() == 1

def visc(R, X, S, qy, closed, q2=None, g=None):
    f = S.f; dt, tv, n = f['dt'], f['visc_time'], f['visc_exponent']
    q2 = X.q2 if q2 is None else q2; g = X.post['delta_gamma']*dt if g is None else g; F = f['f_mu_prefac']
    ex = X.rd(f['exit']); stop = tm.eq(ex, P(1)) if isinstance(ex, Poly) else ex
    if stop is True: return
    dl = X.flag('use_duvaut_lions_formulation')
    if stop is not False and smt.check_unsat(X.pc, [NOT(stop)], 2000)[0] == 'unsat': R.prove('unfinished iteration stops the run', X.pc, stop, FN); return
    if dl is None: raise Unsupported('formulation not decided on this path')
    if closed:
        goal = tm.eq((X.q1-qy), F*g*(1+tv/dt)) if dl else tm.eq(q2, qy*(1+tv*g/dt))
        R.prove('viscous overstress law (linear, %s)' % ('Duvaut-Lions' if dl else 'Perzyna'), X.pc, goal if stop is False else OR(goal, stop), FN)
        return
    res = X.q1-qy-F*(tm.power(tv/dt*g, n)+g) if dl else q2*tm.power(dt/(tv*g+dt), n)-qy
    goal = AND(tm.lt(res, TOL), tm.gt(res, -TOL))
    nm = 'viscous overstress law within the iteration tolerance (%s)' % ('Duvaut-Lions' if dl else 'Perzyna')
    R.prove(nm, X.pc, goal, FN)

def vm(R, X, S, hard):
    f = S.f
    cap = f['p_min']*tm.exp(-(f['xi']*X.pre['eps_pl_vol']))
    if X.implied(tm.lt(X.p1, cap)): return          # tensile failure (C13)
    closed = one_exp(X, f) and tm.fkey(tm.eq(f['xi'], ZERO)) in X.pcset
    e = X.pre['eps_pl_dev'] if closed else X.post['eps_pl_dev']
    visc(R, X, S, f['q_min']+(f['q_max']-f['q_min'])*tm.exp(-(f['xi']*e)), closed)

def dp(R, X, S, hard):
    f = S.f; s = -(f['K']*X.pre['eps_pl_vol_pradhana']) if X.flag('use_pradhana') else ZERO
    if X.r2.is_zero():
        return                                      # tip (C13)
    visc(R, X, S, f['M']*(X.p1+s)+f['q_cohesion'], one_exp(X, f))
    if X.flag('use_mibf'):
        P0 = X.p1+s; e = P(Fraction(1, 10**10))
        R.prove('internal friction is shear stress above cohesion over pressure', X.pc+[OR(tm.ge(P0, e), tm.le(P0, -e))], tm.eq(X.post['muI']*P0, X.q2-f['q_cohesion']), FN)

def mcc(R, X, S, hard):
    f = S.f; z = X.rma; qy = z['q']; dt, tv, F = f['dt'], f['visc_time'], f['f_mu_prefac']
    visco = X.model == 'MCCVisc'
    qs = qy
    dl = X.flag('use_duvaut_lions_formulation') if visco else None
    if visco and dl:
        b = tm.inv(1+tv/dt)
        R.prove('Duvaut-Lions: shear stress between trial and yield', X.pc, tm.eq((X.q2-qy)*(1+tv/dt), (X.q1-qy)*(tv/dt)), FN)
        R.prove('Duvaut-Lions: pressure between trial and yield', X.pc, tm.eq((X.p2-z['p'])*(1+tv/dt), (X.p1-z['p'])*(tv/dt)), FN)
    elif visco:
        R.prove('Perzyna: pressure of the return mapping', X.pc, tm.eq(X.p2, z['p']), FN)
        R.prove('Perzyna: shear stress not below yield', X.pc, tm.ge(X.q2, qy), FN)
        if X.implied(tm.gt(X.q2, qy)) or not (X.q2-qy).is_zero(): visc(R, X, S, qy, one_exp(X, f))
        qs = X.q2
    else:
        R.prove('rate-independent: final shear stress is the yield value', X.pc, tm.eq(X.q2, qy), FN); R.prove('rate-independent: final pressure is that of the return mapping', X.pc, tm.eq(X.p2, z['p']), FN)
    if X.flag('use_mibf'): friction(R, X, S, hard, z['p'], qs)

def friction(R, X, S, hard, p, qs):
    """muI = q / sqrt((p + beta pc)(pc - p)), the slope of the ellipse through the stress point, unless it is a tip"""
    f = S.f; ev = X.post['eps_pl_vol'] if hard in ('ExpoImpl', 'SinhImpl') else X.pre['eps_pl_vol']
    mu = X.post['muI']
    if (mu-f['M']).is_zero(): R.fact('tip: internal friction is the static value', True, FN); return
    if hard == 'NoHard': cs = [f['p0']]
    else:
        w = f['p0']*tm.exp(-(f['xi']*ev)) if hard[:4] == 'Expo' else f['K']*tm.sinh(tm.asinh(f['p0']/f['K'])-f['xi']*ev)
        cs = [w, f['stress_tolerance'] if hard[4:] == 'Expl' else ZERO]
    for c in cs:
        arg = (p+f['beta']*c)*(c-p)
        if tm.clear_inv(mu*tm.sqrt(arg)-qs).is_zero() or tm.clear_inv(mu*mu*arg-qs*qs).is_zero():
            R.fact('internal friction is the slope of the ellipse through the stress point', True, FN); return
    R.prove('internal friction is the slope of the ellipse through the stress point', X.pc, OR(*[tm.eq(mu*mu*(p+f['beta']*c)*(c-p), qs*qs) for c in cs]), FN)

def dpm(R, X, S, hard):
    f = S.f; s = -(f['K']*X.pre['eps_pl_vol_pradhana']) if X.flag('use_pradhana') else ZERO
    m1, m2, Q, c, dt = f['mu_1'], f['mu_2'], f['fac_Q'], f['q_cohesion'], f['dt']
    if X.r2.is_zero():
        R.prove('tip: internal friction is the static value', X.pc, tm.eq(X.post['muI'], m1), FN); R.prove('tip: no viscosity', X.pc, tm.eq(X.post['viscosity'], ZERO), FN); return
    ps = X.p1+s+c/m1+f['stress_tolerance']; rt = tm.sqrt(ps); g = X.post['delta_gamma']
    qy = m1*(X.p1+s)+c
    muI_law(R, X, S, g, rt, ps, X.q1, qy, (X.q2-qy), X.p1, m1, m2, Q, ps)

def muI_law(R, X, S, g, rt, ps, q1, qy, over, drive, m1, m2, Q, pv, psok=None):
    """drive: the pressure measure that multiplies (mu2 - mu1) in the overstress"""
    psok = psok or (lambda: R.prove('positive effective pressure', X.pc, tm.gt(ps, 0), FN))
    f = S.f; mu = X.post['muI']; a2 = (f['f_mu_prefac']*f['dt']).scale(2)
    R.prove('mu(I) overstress law', X.pc, tm.eq(over*(g+Q*rt), (m2-m1)*drive*g), FN)
    R.prove('internal friction is mu(I)', X.pc, tm.eq((mu-m1)*(Q*rt+g), (m2-m1)*g), FN)
    R.prove('viscosity belongs to the internal friction', X.pc, tm.eq(X.post['viscosity']*g, (mu-m1)*pv), FN)
    # positive rate: g = (D - b) / 2a with D = sqrt(b^2 + 4 a |c|)
    Ds = [tm.atom(i) for i in g.atoms() if tm.atom(i).kind == 'sqrt' and tm.the_atom(rt) != i]
    for D in Ds:
        Dp = Poly({((D.id, 1),): Fraction(1)}); b = Dp-a2*g
        if D.id in b.atoms(): continue
        R.prove('discriminant exceeds the square of the linear coefficient', X.pc, tm.eq(Dp*Dp-b*b, (a2*(q1-qy)*Q*rt).scale(2)), FN)
        R.prove('trial stress above yield', X.pc, tm.gt(q1, qy), FN); psok()
        d, bb, k = sym('lem.D', nonneg=True), sym('lem.b'), sym('lem.k', pos=True)
        R.prove('lemma: D >= 0 and D^2 - b^2 > 0 give D > b', [tm.eq(d*d-bb*bb, k)], tm.gt(d, bb), FN)
        x, y, w, u = sym('lem.g', pos=True), sym('lem.Qr', nonneg=True), sym('lem.dm', nonneg=True), sym('lem.mu')
        R.prove('lemma: internal friction between its static and dynamic value', [tm.eq(u*(y+x), w*x)], AND(tm.ge(u, 0), tm.le(u, w)), FN)
        return
    R.prove('positive plastic strain rate', X.pc, tm.gt(g, 0), FN)
    R.prove('internal friction between its static and dynamic value', X.pc, AND(tm.ge(mu, m1), tm.le(mu, m2)), FN)

def deep_sqrts(X, p): return [tm.atom(i) for i in tm.deep_atoms(p.atoms()) if tm.atom(i).kind == 'sqrt']

def mccm(R, X, S, hard):
    f = S.f; z = X.rma; m1, m2, Q, dt, F, tol = f['mu_1'], f['mu_2'], f['fac_Q'], f['dt'], f['f_mu_prefac'], f['stress_tolerance']
    R.prove('pressure of the return mapping', X.pc, tm.eq(X.p2, z['p']), FN)
    if (X.post['muI']-m1).is_zero():
        R.prove('no overstress booked: shear stress is the yield value', X.pc, tm.eq(X.q2, z['q']), FN)
        R.prove('no overstress booked: no viscosity', X.pc, tm.eq(X.post['viscosity'], ZERO), FN); return
    R.prove('shear stress not below yield', X.pc, tm.ge(X.q2, z['q']), FN)
    if (X.q2-z['q']).is_zero(): return          # limiter active: equality case
    g = X.post['delta_gamma']; ev = X.post['eps_pl_vol'] if hard[4:] == 'Impl' else X.pre['eps_pl_vol']
    w = f['p0']*tm.exp(-(f['xi']*ev)) if hard[:4] == 'Expo' else f['K']*tm.sinh(tm.asinh(f['p0']/f['K'])-f['xi']*ev)
    alt = z['p']+tol if hard[4:] == 'Impl' else tol
    pick = None
    for c in (w, alt):
        ps = z['p']+f['beta']*c+tol; rt = tm.sqrt(ps)
        if tm.clear_inv((X.post['muI']-m1)*(Q*rt+g)-(m2-m1)*g).is_zero(): pick = c
    R.fact('the rate law uses the consolidation pressure of the hardening law', pick is not None, FN, status='unknown')
    if pick is None: return
    if hard[4:] == 'Impl': R.prove('consolidation pressure: the larger of hardening law and pressure plus tolerance', X.pc, AND(tm.ge(pick, w), tm.ge(pick, alt)), FN)
    else: R.prove('consolidation pressure: hardening law, at least the tolerance', X.pc, AND(tm.ge(pick, w), tm.ge(pick, alt)), FN)
    def psok():
        # ps = (p + beta pc) + beta (pick - pc) + tol; at a tip reached by an unconverged iteration it is not guaranteed
        if hard[4:] == 'Impl' and z['q'].is_zero(): return
        near = (z['pc']-w).is_zero() or (z['pc']-alt).is_zero()
        if hard[4:] == 'Impl' and not near and z['pc'].const() is not None: return      # floor of the implicit sinh law (a hundredth of a stress unit)
        R.prove('consolidation pressure of the rate law not below that of the return mapping', [tm.ge(pick, w), tm.ge(pick, alt)] if near else X.pc, tm.ge(pick, z['pc']), FN)
        R.prove('positive effective pressure', z['facts']+[tm.ge(pick-z['pc'], 0)], tm.ge(z['p']+f['beta']*z['pc'], 0), FN)
    ps = z['p']+f['beta']*pick+tol; rt = tm.sqrt(ps); root = tm.sqrt((pick-z['p'])*ps)
    muI_law(R, X, S, g, rt, ps, X.q1, z['q'], (X.q2-z['q']), root, m1, m2, Q, root, psok)
