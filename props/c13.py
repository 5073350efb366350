"""C13: after the return mapping the stress is inside the yield surface; states inside it are not altered."""
from .plast import *
def programs(tier): return {(2, 2): {'plasticity', 'headers'}, (3, 2): {'plasticity', 'headers'}}
def tasks(progs, tier): return model_tasks(progs, adm, MODELS[1:], tier)
ASSUME = PL_ASSUME+['viscous models: only that admissible states stay unaltered and the yield surface is not undershot is decided here (rates: C15)']
HARNESS = dict(driver='h_plast.cpp', flags=('-DPROP=13',), builds=[(2, 2), (3, 2)], n=20000, time=12)
T10 = P(Fraction(1, 10**10))

def unaltered(R, X, S, hyp, nm='admissible trial state is not altered'):
    """under the additional hypotheses the path must be the elastic one"""
    if smt.check_unsat(X.pc+hyp, [], 500)[0] == 'unsat': return
    ok = X.elastic
    if not ok: R.prove(nm, X.pc+hyp, False, FN); return
    R.fact(nm, True, FN)
    for q in ('eps_pl_dev', 'eps_pl_vol'): R.prove(nm+' (%s)' % q, X.pc+hyp, tm.eq(X.post[q], X.pre[q]), FN)
    R.prove(nm+' (not counted as plastic)', X.pc+hyp, tm.eq(X.cnt, sym('cnt', 'I', nonneg=True)), FN)

def adm(R, prog, model, shear, hard):
    for X, S in plast_paths(R, prog, model, shear, hard, contracts=helper_contracts()):
        f = S.f; K, M, c = f['K'], f['M'], f['q_cohesion']
        p1, q1, p2, q2 = X.p1, X.q1, X.p2, X.q2
        s = -(K*X.pre['eps_pl_vol_pradhana']) if X.flag('use_pradhana') else ZERO
        ex = tm.exp(-(f['xi']*X.pre['eps_pl_dev']))
        if model in ('VM', 'DP', 'DPSoft', 'MCC') and not X.elastic: R.prove('the return does not reverse the shear direction', X.pc, tm.ge(q2, 0), FN)
        if model == 'VM':
            unaltered(R, X, S, [tm.le(q1, f['q_max'])])
            R.prove('shear stress within the strength', X.pc, tm.le(q2, f['q_max']), FN)
            R.prove('overstressed state returns onto the yield surface', X.pc+[tm.gt(q1, f['q_max'])], AND(tm.eq(q2, f['q_max']), tm.eq(p2, p1)), FN)
        elif model == 'DP':
            unaltered(R, X, S, [tm.le(q1, M*p1+c), tm.ge(M*p1+c, T10)])
            R.prove('stress within the Drucker-Prager cone', X.pc, tm.le(q2, M*p2+c), FN)
            R.prove('right of the tip: return at constant pressure onto the cone', X.pc+[tm.ge(M*p1+c, T10), tm.gt(q1, M*p1+c)], AND(tm.eq(p2, p1), tm.eq(q2, M*p1+c)), FN)
            R.prove('left of the tip: return to the tip', X.pc+[tm.lt(M*p1+c, 0)], AND(tm.eq(M*p2+c, ZERO), tm.eq(q2, ZERO)), FN)
        elif model == 'DPSoft':
            tip = -(c/M*ex)
            unaltered(R, X, S, [tm.le(q1, M*(p1+s-tip)), tm.gt(p1+s, tip)])
            # before exp is abstracted: softening moves the tip towards zero
            hy = X.pc+monotone(X)
            R.prove('stress within the cone of the state before the step', hy, OR(tm.le(q2, M*(p2+s-tip)), tm.eq(q2, ZERO)), FN)
            R.prove('left of the tip: return to the tip', X.pc+[tm.lt(p1+s, tip)], AND(tm.eq(p2, tip), tm.eq(q2, ZERO)), FN)
        elif model in ('MCC', 'MCCVisc', 'MCCMui'):
            R.fact('the return mapping helper is called once', hasattr(X, 'trialpc'), FN, status='unknown')
            if not hasattr(X, 'trialpc'): continue
            Mm = f['mu_1'] if model == 'MCCMui' else M
            pc = X.trialpc
            helper_args(R, X, S, model, hard)
            unaltered(R, X, S, [tm.le(Mm*Mm*(p1-pc)*(p1+f['beta']*pc)+q1*q1, 0)])
            if model == 'MCC' and not X.elastic:
                z = X.rma
                g = AND((tm.eq if shear else tm.le)(q2*q2, M*M*(z['pc']-p2)*(p2+f['beta']*z['pc'])), tm.ge(q2, 0), tm.ge(p2, -(f['beta']*z['pc'])), tm.le(p2, z['pc']))
                if z['law'] is not None and not z['q'].is_zero():     # the ellipse belongs to the plastic volume strain that is stored
                    ev2 = X.post['eps_pl_vol']
                    w = f['p0']*tm.exp(-(f['xi']*ev2)) if hard == 'ExpoImpl' else K*tm.sinh(tm.asinh(f['p0']/K)-f['xi']*ev2)
                    c0 = P(Fraction(1, 100))
                    R.prove('consolidation pressure of the final ellipse follows the hardening law', X.pc, tm.eq(z['pc'], w) if hard == 'ExpoImpl' else OR(tm.eq(z['pc'], w), AND(tm.eq(z['pc'], c0), tm.le(w, c0))), FN)
                nm = 'overstressed state returns onto the Cam-clay ellipse'
                R.prove(nm, z['facts'] if all(smt.check_unsat(z['facts'], [NOT(x)], 2000)[0] == 'unsat' for x in g[1:]) else X.pc, g, FN)
            if model == 'MCC' and X.elastic: R.prove('a state left alone is inside the ellipse', X.pc, tm.le(M*M*(p1-pc)*(p1+f['beta']*pc)+q1*q1, 0), FN)
        elif model == 'VMVisc':
            qy = f['q_min']+(f['q_max']-f['q_min'])*ex
            cap = f['p_min']*tm.exp(-(f['xi']*X.pre['eps_pl_vol']))
            unaltered(R, X, S, [tm.le(q1, qy), tm.ge(p1, cap)])
            R.prove('tensile failure: stress-free', X.pc+[tm.lt(p1, cap)], AND(tm.eq(p2, ZERO), tm.eq(q2, ZERO)), FN)
            if X.elastic: R.prove('a state left alone is admissible', X.pc, AND(tm.le(q1, qy), tm.ge(p1, cap)), FN)
        elif model == 'DPVisc':
            unaltered(R, X, S, [tm.le(q1, M*(p1+s)+c), tm.gt(M*(p1+s)+c, 0)])
            R.prove('left of the tip: return to the tip', X.pc+[tm.lt(M*(p1+s)+c, 0)], AND(tm.eq(M*p2+c, ZERO), tm.eq(q2, ZERO)), FN)
            if X.elastic: R.prove('a state left alone is admissible', X.pc+[tm.ne(M*(p1+s)+c, ZERO)], tm.le(q1, M*(p1+s)+c), FN)
        elif model == 'DPMui':
            m1 = f['mu_1']; tol = f['stress_tolerance']
            unaltered(R, X, S, [tm.le(q1, m1*(p1+s)+c), tm.gt(m1*(p1+s)+c, 0)])
            R.prove('left of the tip: return to the tip', X.pc+[tm.lt(m1*(p1+s)+c, 0)], AND(tm.eq(m1*p2+c, ZERO), tm.eq(q2, ZERO)), FN)
            if X.elastic: R.prove('a state left alone is admissible', X.pc+[tm.ne(m1*(p1+s)+c, ZERO)], tm.le(q1, m1*(p1+s)+c+tol), FN)

def helper_args(R, X, S, model, hard):
    """the helper is asked about the trial stress, with the slope and the consolidation pressure of the state before the step"""
    f = S.f; a = X.rmacall; ev = X.pre['eps_pl_vol']; K = f['K']
    Mm = f['mu_1'] if model == 'MCCMui' else f['M']
    R.prove('trial pressure handed to the return mapping', X.pc, tm.eq(a[0], X.p1), FN)
    R.prove('trial shear stress handed to the return mapping', X.pc, tm.eq(a[1], X.q1), FN)
    R.prove('slope of the critical state line', X.pc, tm.eq(a[3], Mm), FN)
    R.prove('cohesion parameter', X.pc, tm.eq(a[5], f['beta']), FN)
    tol = f['stress_tolerance']
    if hard == 'NoHard': R.prove('consolidation pressure (no hardening)', X.pc, tm.eq(a[4], f['p0']), FN)
    elif hard == 'ExpoExpl':
        w = f['p0']*tm.exp(-(f['xi']*ev)); R.prove('consolidation pressure (exponential hardening)', X.pc, OR(tm.eq(a[4], w), AND(tm.eq(a[4], tol), tm.le(w, tol))), FN)
    elif hard == 'SinhExpl':
        w = K*tm.sinh(tm.asinh(f['p0']/K)-f['xi']*ev); R.prove('consolidation pressure (sinh hardening)', X.pc, OR(tm.eq(a[4], w), AND(tm.eq(a[4], tol), tm.le(w, tol))), FN)
    else:
        R.prove('initial consolidation pressure', X.pc, tm.eq(a[4], f['p0']), FN); R.prove('bulk modulus', X.pc, tm.eq(a[7], K), FN)
        R.prove('hardening factor', X.pc, tm.eq(a[8], f['xi']), FN); R.prove('plastic volumetric strain', X.pc, tm.eq(a[-1], ev), FN)
    if hard in ('ExpoImpl', 'SinhImpl'): R.prove('shear modulus', X.pc, tm.eq(a[6], f['mu']), FN)
    else: R.prove('bulk modulus', X.pc, tm.eq(a[7], K), FN)

def monotone(X):
    """monotonicity of exp between every two exponentials of the path: a <= b => exp a <= exp b (instances of a lemma)"""
    ids = set()
    for h in X.pc: ids |= tm.deep_atoms(tm.f_atoms(h))
    for q in list(X.post.values())+[X.p2, X.q2]: ids |= tm.deep_atoms(q.atoms())
    es = [tm.atom(i) for i in ids if tm.atom(i).kind == 'exp']
    es = [a for a in es if any(tm.atom(i).name == 'xi' for i in tm.deep_atoms(a.args[0].atoms()))]
    out = []
    for a in es:
        for b in es:
            if a is not b: out.append(OR(tm.gt(a.args[0], b.args[0]), tm.le(tm.exp(a.args[0]), tm.exp(b.args[0]))))
    return out
