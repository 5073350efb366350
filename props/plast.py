"""One call of plasticity(p, count, Fe_trial) for an arbitrary particle and trial state.  The trial is written
Fe_trial = U diag(exp h) V^T with h = (t/dim) 1 + r n, n a unit deviatoric vector (r > 0) or r = 0: a change of variables."""
from .transfer import *
from .setup import *
from vcg.prover import *
FN = 'Simulation::plasticity'
RAW = ('eps_pl_dev', 'eps_pl_vol', 'eps_pl_vol_pradhana', 'delta_gamma', 'viscosity', 'muI')
MODELS = ('NoPlasticity', 'VM', 'DP', 'DPSoft', 'MCC', 'VMVisc', 'DPVisc', 'MCCVisc', 'DPMui', 'MCCMui')

def unit_dev(dim):
    if dim == 2:
        n = sym('n.0'); tm.set_sqrule(n, P(Fraction(1, 2))); return [n, -n]
    a, b = sym('n.0'), sym('n.1'); tm.set_sqrule(b, P(Fraction(1, 2))-a*a-a*b); return [a, b, -a-b]

POSC = ('M', 'mu_1', 'p0', 'visc_exponent', 'fac_Q', 'stress_tolerance')
NONNEG = ('q_max', 'q_min', 'q_cohesion', 'xi', 'visc_time', 'beta', 'mu_2')
CONSTS = POSC + NONNEG + ('p_min', 'lambda', 'mu', 'K', 'dt', 'q_prefac', 'd_prefac', 'e_mu_prefac', 'f_mu_prefac')

def plast_paths(R, prog, model, shear, hard=None, elastic='Hencky', extra=None, newton=None, contracts=None, flags=None, safety=False, on_abort=None, monitor=None):
    """yields paths: X.h (trial Hencky strain), X.h2 (final), X.t,X.r,X.n, X.t2,X.r2 ... X.pre / X.post: particle scalars"""
    dim = prog.dim; R.fn(FN)
    cfg = base_cfg(prog); cfg.merge_all = False
    cfg.contracts['debug'] = lambda X, th, a, n: None
    cfg.newton = newton
    for k, v in (contracts or {}).items(): cfg.contracts[k] = v
    t = sym('t'); r = sym('r', pos=True) if shear else ZERO
    n = unit_dev(dim) if shear else [ZERO]*dim
    h = [t.scale(Fraction(1, dim))+r*n[a] for a in range(dim)]
    U = Mat(dim, dim, [sym('U%d%d' % (i, j)) for i in range(dim) for j in range(dim)])
    V = Mat(dim, dim, [sym('V%d%d' % (i, j)) for i in range(dim) for j in range(dim)])
    FT = Mat(dim, dim, [sym('Ft%d%d' % (i, j)) for i in range(dim) for j in range(dim)])
    def setup(X):
        S = mk_sim(X, dim, grid=False); X.S = S; f = S.f
        X.svdtab[FT.key()] = SVD(U, Mat(dim, 1, [tm.exp(x) for x in h]), V)
        f['plastic_model'] = P(prog.enums[('PlasticModel', model)]); f['elastic_model'] = P(prog.enums[('ElasticModel', elastic)])
        if hard: f['hardening_law'] = P(prog.enums[('HardeningLaw', hard)])
        for nm in POSC: f[nm] = sym(nm, pos=True)
        for nm in NONNEG: f[nm] = sym(nm, nonneg=True)
        f['p_min'] = sym('p_min')
        mu = sym('mu', pos=True); lam = sym('lambda', nonneg=True); qp = sym('q_prefac', pos=True)
        f['mu'] = mu; f['lambda'] = lam; f['q_prefac'] = qp; f['dt'] = sym('dt', pos=True)
        f['K'] = lam+mu.scale(Fraction(2, dim)); f['d_prefac'] = tm.inv(qp); f['e_mu_prefac'] = (qp*mu).scale(2); f['f_mu_prefac'] = (qp*qp*mu).scale(2)
        f['exit'] = ZERO; f['dim'] = P(dim)
        if CUT and model == 'MCCVisc' and hard == 'SinhImpl' and not flags: f['use_mibf'] = False      # quick tier (thorough: both)
        for k, v in (flags or {}).items(): f[k] = v
        X.assume(tm.ge(f['q_max'], f['q_min'])); X.assume(tm.ge(f['mu_2'], f['mu_1']))
        for x in h: X.assume(tm.ge(tm.exp(x), P(Fraction(1, 10000))))
        Q = f['particles']
        px = Q.f['F']; Q.f['F'] = VecVal(px.n, px.et, px.base, ((S.p, FT.copy()),))
        X.pre = {}
        for nm in RAW:
            v = sym('q.'+nm) if nm not in ('eps_pl_dev', 'muI') else sym('q.'+nm, nonneg=True)
            px = Q.f[nm]; Q.f[nm] = VecVal(px.n, px.et, px.base, ((S.p, v),)); X.pre[nm] = v
        if extra: extra(X, S)
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in f.items()}
        fr = {'cnt': sym('cnt', 'I', nonneg=True)}
        ft = {'F': FT.copy()}
        if monitor: monitor(X, S, fr)
        X.call_named(FN, S, [S.p, VarLV(fr, 'cnt'), VarLV(ft, 'F')])
        if monitor: X.mon.finish()
        X.cnt = fr['cnt']; return S
    k = 0
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st == 'abort' and on_abort: on_abort(X)
        if monitor:
            if st == 'ok': k += 1; yield X, S
            continue
        if st != 'ok' or vacuity(R, '%s path %d' % (model, i), X.pc, 300 if i < 30 else 60) == 'unsat': continue
        k += 1
        X.t, X.r, X.n, X.h, X.U, X.V, X.FT = t, r, n, h, U, V, FT
        X.shear = shear; X.model = model
        for kind, nm, fo, nn in X.obs:
            if safety or kind in ('init', 'bounds', 'index'): R.prove(nm, X.pc[:nn], fo, FN)
        g = lambda nm: X.rd(X.vec_get(TempLV(S.f['particles'].f[nm]), S.p, check=False))
        X.post = {nm: g(nm) for nm in RAW}
        X.F2 = g('F'); X.tau2 = g('tau')
        X.h2 = final_strain(X, dim)
        X.t2 = sum(X.h2, ZERO); X.dev2 = [x-X.t2.scale(Fraction(1, dim)) for x in X.h2]
        X.r2 = sum((X.dev2[a]*n[a] for a in range(dim)), ZERO) if shear else ZERO
        f = S.f
        X.p1 = -(f['K']*t); X.q1 = f['e_mu_prefac']*r
        X.p2 = -(f['K']*X.t2); X.q2 = f['e_mu_prefac']*X.r2
        X.elastic = X.F2.key() == FT.key()
        X.flag = lambda nm: True if tm.fkey(('b', nm)) in X.pcset else False if tm.fkey(NOT(('b', nm))) in X.pcset else None
        yield X, S
    if not k: raise Unsupported('no feasible path of plasticity for '+model)

def final_strain(X, dim):
    """h' with F' = U diag(exp h') V^T (read off the coefficients; F' = Fe_trial gives h' = h)"""
    F = X.F2; U, V = X.U, X.V
    if F.key() == X.FT.key(): return list(X.h)
    out = []
    for k in range(dim):
        ua, va = tm.the_atom(U[0, k]), tm.the_atom(V[0, k])
        c = ZERO
        for m, co in F[0, 0].d.items():
            d = dict(m)
            if d.get(ua) == 1 and d.get(va) == 1:
                rest = tuple((a, e) for a, e in m if a not in (ua, va)); c = c+Poly({rest: co})
        if c.is_zero(): raise Unsupported('final deformation is not U diag V^T')
        out.append(tm.log(c))
    for i in range(dim):
        for j in range(dim):
            w = sum((U[i, k]*tm.exp(out[k])*V[j, k] for k in range(dim)), ZERO)
            if not (F[i, j]-w).is_zero(): raise Unsupported('final deformation is not U diag V^T')
    return out

def frame_ok_p(R, X, S, may):
    """only the listed particle arrays, only at this particle; no simulation member except exit"""
    f, pre = S.f, S.pre
    for nm, v in f.items():
        if nm in ('particles', 'exit') or nm not in pre: continue
        w = pre[nm]
        if v is w: continue
        R.fact('simulation member %s unchanged' % nm, isinstance(v, Poly) and isinstance(w, Poly) and (v-w).is_zero() or v == w, FN)
    P0, P1 = pre['particles'].f, f['particles'].f
    for nm, v in P1.items():
        w = P0.get(nm)
        if v is w or w is None: continue
        if not isinstance(v, VecVal): R.fact('particle data %s unchanged' % nm, False, FN); continue
        same = v.n is w.n or (v.n-w.n).is_zero()
        R.fact('number of %s entries unchanged' % nm, same, FN)
        others = [j for j, _ in list(v.over)+list(getattr(v, 'adds', ()) or ()) if not (j-S.p).is_zero()]
        R.fact('%s of other particles untouched' % nm, not others and v.base == w.base, FN)
        R.fact('%s may be changed by the return mapping' % nm, nm in may or X.rd(X.vec_get(TempLV(v), S.p, check=False)).key() == X.rd(X.vec_get(TempLV(w), S.p, check=False)).key(), FN)

def quotient(p, K):
    """p/K, exactly if K divides p as a polynomial linear in one of the atoms of K"""
    for m, co in K.d.items():
        if len(m) != 1 or m[0][1] != 1: continue
        a = m[0][0]; c = ZERO
        for pm, pc in p.d.items():
            d = dict(pm)
            if d.get(a): c = c+Poly({tuple((x, e-(x == a)) for x, e in pm if x != a or e > 1): pc/co})
        if (p-c*K).is_zero(): return c
    return p/K

def helper_contracts():
    """contracts of the MCC return-mapping helpers (proved in C16)"""
    val = lambda X, v: X.rd(v.get(X) if isinstance(v, LV) else v)
    def back(X, a, pc=None, law=None):
        p2 = X.fresh('rma.p'); M, beta = val(X, a[3]), val(X, a[5])
        if law is not None:
            # on the ellipse of the hardened consolidation pressure, or at a tip (no shear stress)
            if X.decide(tm.boolvar('rma.tip')): pc = X.fresh('rma.pc'); X.assume(tm.gt(pc, 0)); q2 = ZERO
            else: pc = law(p2); q2 = X.fresh('rma.q')
        else: q2 = X.fresh('rma.q')
        facts = [tm.ge(p2, -(beta*pc)), tm.le(p2, pc), tm.ge(q2, 0), tm.eq(q2*q2, M*M*(pc-p2)*(beta*pc+p2))]
        for fa in facts: X.assume(fa)
        X.rma = dict(p=p2, q=q2, pc=pc, M=M, beta=beta, facts=[f for f in facts if f is not True], law=law)
        a[0].set(X, p2); a[1].set(X, q2)
    def expl(X, th, a, n):
        p, q, M, pc, beta = [val(X, a[i]) for i in (0, 1, 3, 4, 5)]
        X.trialpc = pc; X.rmacall = [val(X, v) for v in a]
        X.oblige('pre', 'return mapping called with a positive consolidation pressure', tm.gt(pc, 0))
        X.oblige('pre', 'return mapping called with a non-negative cohesion parameter', tm.ge(beta, 0))
        if not X.decide(tm.gt(M*M*(p-pc)*(p+beta*pc)+q*q, 0)): return False
        back(X, a, pc); return True
    def impl(kind):
        def h(X, th, a, n):
            p, q, M, p00, beta, K = [val(X, a[i]) for i in (0, 1, 3, 4, 5, 7)]
            xi = val(X, a[8]); epv = val(X, a[-1])
            def law(e):
                if kind == 'exp': return p00*tm.exp(-(xi*e))
                w = K*tm.sinh(tm.asinh(p00/K)-xi*e)
                return w if X.decide(tm.lt(P(Fraction(1, 100)), w)) else P(Fraction(1, 100))
            pt = law(epv)
            X.trialpc = pt; X.rmacall = [val(X, v) for v in a]; X.haslaw = True
            if not X.decide(tm.gt(M*M*(p-pt)*(p+beta*pt)+q*q, 0)): return False
            back(X, a, law=lambda p2: law(epv+p2/K-quotient(p, K)))
            return True
        return h
    return {'MCCRMAExplicit': expl, 'MCCRMAExplicitOnevar': expl, 'MCCRMAImplicitExponential': impl('exp'), 'MCCRMAImplicitExponentialOnevar': impl('exp'), 'MCCRMAImplicitSinhOnevar': impl('sinh')}

HARD = {'MCC': ('NoHard', 'ExpoExpl', 'SinhExpl', 'ExpoImpl', 'SinhImpl'), 'MCCVisc': ('NoHard', 'ExpoExpl', 'SinhExpl', 'ExpoImpl', 'SinhImpl'), 'MCCMui': ('ExpoExpl', 'SinhExpl', 'ExpoImpl', 'SinhImpl')}
CUT = False
def model_tasks(progs, fn, models=MODELS, tier='quick', dims=(3, 2)):
    global CUT
    CUT = tier == 'quick'; t = []
    for d in dims:
        for m in models:
            for hd in HARD.get(m, (None,)):
                for sh in (True, False):
                    if tier == 'quick' and m == 'MCCVisc' and hd in ('SinhExpl', 'SinhImpl') and (d == 2 or not sh): continue     # same code text as 3D; thorough tier runs it
                    t.append(('%s%s %s %dD' % (m, ' '+hd if hd else '', 'shear' if sh else 'no shear', d), fn, (progs[(d, 2)], m, sh, hd)))
    t.sort(key=lambda x: -('Sinh' in x[0])-2*('MCCVisc' in x[0])-3*('DPVisc' in x[0]))
    return t
PL_ASSUME = ['Eigen\'s SVD returns F = U diag(s) V^T with the singular values; all singular values of the trial deformation are at least 1e-4 (the clamp of the code is inactive)',
  'elastic constants mu > 0, lambda >= 0; K, d, e and f prefactors as derived in the set-up (C20); dt > 0; strengths and exponents positive, q_min <= q_max, mu_1 <= mu_2',
  'MCC return-mapping helpers by their contracts (C16)', 'exp, log, pow, sinh, asinh are the mathematical functions']
