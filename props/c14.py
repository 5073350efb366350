"""C14: bookkeeping of the return mapping: the plastic strains and the plastic strain rate that are stored account exactly for the elastic strain lost."""
from .plast import *
def programs(tier): return {(2, 2): {'plasticity', 'headers'}, (3, 2): {'plasticity', 'headers'}}
def tasks(progs, tier): return model_tasks(progs, book, MODELS, tier)
ASSUME = PL_ASSUME+['rate: Drucker-Prager mu(I) left of its tip stores the strain instead of the rate (marked in the source), not specified', 'Newton iterations: partial correctness, invariant delta_gamma >= 0']
HARNESS = dict(driver='h_plast.cpp', flags=('-DPROP=14',), builds=[(2, 2), (3, 2)], n=20000, time=12)
NEWTON = ('VMVisc', 'DPVisc', 'MCCVisc')
MAY = {'F', 'tau', 'eps_pl_dev', 'eps_pl_vol', 'eps_pl_vol_pradhana', 'delta_gamma', 'muI', 'viscosity'}

def nonneg(X, e):
    g = tm.ge(e, 0)
    if g is True or g is not False and X.implied(g): return True
    if g is False: return False
    if any(isinstance(h, tuple) and h[0] in ('le', 'lt') and pos_multiple(g[1], h[1]) for h in X.pc): return True
    return smt.check_unsat(X.pc, [NOT(g)], 250)[0] == 'unsat'

def newton(bad):
    def h(X, C, hv, n, ph):
        """inductive facts: every real loop variable that starts non-negative and stays so"""
        for key, v in hv.items():
            if v['name'] in bad or not isinstance(v['pre'], Poly) or not isinstance(v['val'], Poly) or v['val'].is_int(): continue
            if ph == 'assume':
                if nonneg(X, v['pre']): X.assume(tm.ge(v['val'], 0)); v['inv'] = True
            elif v.get('inv'): X.inv = getattr(X, 'inv', [])+[(v['name'], tm.ge(v['cur'], 0), list(X.pc))]
    return h

def book(R, prog, model, shear, hard):
    bad = set()
    for attempt in range(5):
        n0 = len(R.res)
        if once(R, prog, model, shear, hard, bad): return
        del R.res[n0:]
    raise Unsupported('no invariant for the iteration')

def once(R, prog, model, shear, hard, bad):
    inv = []
    def aborted(X):
        for nm, f, pc in getattr(X, 'inv', []): inv.append((nm, f, pc))
    for X, S in plast_paths(R, prog, model, shear, hard, contracts=helper_contracts(), newton=newton(bad) if model in NEWTON else None, on_abort=aborted):
        one(R, X, S, model, shear, hard)
    for nm, f, pc in inv:
        if discharge(pc, f, 3000)[0] != 'discharged': bad.add(nm); return False
    for nm, f, pc in inv: R.fact('plastic multiplier stays non-negative in the iteration', True, FN)
    return True

def one(R, X, S, model, shear, hard):
    f = S.f; dim = f['dim']; pre, post = X.pre, X.post
    dr, dv = X.r-X.r2, X.t-X.t2
    frame_ok_p(R, X, S, MAY)
    for a in range(len(X.dev2)): R.prove('the deviatoric strain keeps its direction [%d]' % a, X.pc, tm.eq(X.dev2[a], X.r2*X.n[a]), FN)
    skip_dev = False
    if model == 'MCCMui' and not X.elastic:
        # sheared only if the trial shear stress exceeds the yield value by the tolerance; below it no plastic shear is booked
        skip_dev = X.implied(tm.le(X.q1, X.rma['q']+f['stress_tolerance'])) if hasattr(X, 'rma') else False
    if not shear and model in ('MCC', 'MCCVisc', 'MCCMui'): skip_dev = True      # isotropic trial: no direction; only the volume part is specified
    R.prove('plastic volume strain books the lost elastic volume strain', X.pc, tm.eq(post['eps_pl_vol']-pre['eps_pl_vol'], dv), FN)
    if not skip_dev:
        R.prove('plastic shear strain books the lost elastic shear strain', X.pc, tm.eq(post['eps_pl_dev']-pre['eps_pl_dev'], dr), FN)
        if X.elastic: R.prove('no plastic strain rate is produced by an elastic step', X.pc, OR(tm.eq(post['delta_gamma'], pre['delta_gamma']), tm.eq(post['delta_gamma'], ZERO)), FN)
        elif not (model == 'DPMui' and X.r2.is_zero()): R.prove('plastic strain rate is the booked strain per time', X.pc, tm.eq(post['delta_gamma']*f['dt'], f['d_prefac']*dr), FN)
    if model not in ('MCC', 'MCCVisc', 'MCCMui') and not X.elastic:
        hy = X.pc
        if model == 'DPSoft': hy = X.pc+mono(X)
        ex = X.rd(f['exit'])
        if not (isinstance(ex, Poly) and ex.const() == 1): R.prove('plastic shear strain never decreases', hy, tm.ge(dr, 0), FN)
    if X.elastic: R.prove('an elastic step is not counted', X.pc, tm.eq(X.cnt, sym('cnt', 'I', nonneg=True)), FN)

def mono(X):
    from .c13 import monotone
    return monotone(X)
