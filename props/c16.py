"""C16: the Cam-clay return-mapping helpers.  A trial stress inside the ellipse is left alone; any other is moved onto the ellipse of the
consolidation pressure that belongs to the plastic volume change made (hardening laws), or to one of its tips."""
import os
from .plast import *
def programs(tier): return {(2, 2): {'plasticity', 'headers'}, (3, 2): {'plasticity', 'headers'}}
HELPERS = {'MCCRMAExplicit': ('fixed', 0, ('M', 'p0', 'beta', 'mu', 'K', 'f_mu_prefac')), 'MCCRMAExplicitOnevar': ('fixed', 0, ('M', 'p0', 'beta', 'mu', 'K')),
  'MCCRMAImplicitExponentialOnevar': ('exp', 0, ('M', 'p0', 'beta', 'mu', 'K', 'xi', 'epv')), 'MCCRMAImplicitSinhOnevar': ('sinh', Fraction(1, 100), ('M', 'p0', 'beta', 'mu', 'K', 'xi', 'epv'))}
ASSUME = ['M, p0, mu, K, f_mu_prefac > 0; beta, xi >= 0', 'the Newton iteration is abstracted by its invariant (pressure and consolidation pressure stay consistent); its convergence is not decided',
  'divisions by a zero derivative inside the iteration are not excluded (convergence)', 'the step limiter returns an arbitrary number and changes nothing but the side flag (read off its body)']
HARNESS = dict(driver='h_mcc.cpp', builds=[(2, 2)], n=60000, time=12)
LIM = ('limited_search_exponential', 'limited_search_sinh')
def tasks(progs, tier): return [('%s %s%s' % (h, c, ' '+b if b else ''), helper, (progs[(2, 2)], h, c, b)) for h in HELPERS for c in ('cohesive', 'cohesionless') for b in (('above', 'floor') if HELPERS[h][1] else ('',))]+[('step limiters', limiter, (progs[(2, 2)],))]

def law(kind, lo, p0, K, xi, epv, X=None):
    if kind == 'fixed': return p0
    v = p0*tm.exp(-(xi*epv)) if kind == 'exp' else K*tm.sinh(tm.asinh(p0/K)-xi*epv)
    if not lo: return v
    return X.decide_max(P(lo), v) if X is not None else v

def helper(R, prog, name, coh, branch):
    tm.SINH_SQ = False
    kind, lo, argn = HELPERS[name]; R.fn(name)
    bad = set()
    for attempt in range(4):
        if run(R, prog, name, kind, lo, argn, coh, bad, branch): return
    raise Unsupported('no inductive relation between pressure and consolidation pressure found in '+name)

def run(R, prog, name, kind, lo, argn, coh, bad, branch):
    cfg = base_cfg(prog); cfg.merge_all = False; cfg.newton_fork = True; cfg.nl_decide = False
    cfg.contracts['debug'] = lambda X, th, a, n: None
    for l in LIM:
        cfg.contracts[l] = lambda X, th, a, n: (a[-1].set(X, X.fresh('right', 'I')), X.fresh('epv'))[1]
    p, q = sym('p'), sym('q', nonneg=True)
    v = {k: sym(k, pos=True) for k in ('M', 'p0', 'mu', 'K', 'f_mu_prefac')}
    v['xi'] = sym('xi', nonneg=True); v['epv'] = sym('epv'); v['beta'] = sym('beta', nonneg=True) if coh == 'cohesive' else ZERO
    st = {}
    def newton(X, C, hv, n, ph):
        if kind == 'fixed': return
        pc = X.pctrial
        prs, cons = [], []
        for key, h in hv.items():
            pre = h['pre']
            if not isinstance(pre, Poly) or h['val'].is_int(): continue
            for s in (pc, tm.ONE if hasattr(tm, 'ONE') else P(1)):
                if (pre*s-p).is_zero() or tm.clear_inv(pre*s-p).is_zero(): prs.append((h, s))
                if tm.clear_inv(pre*s-pc).is_zero(): cons.append((h, s))
        for a, s in prs[:1]:
            for b, s2 in cons:
                if (a['name'], b['name']) in bad: continue
                get = lambda h: h['val'] if ph == 'assume' else h['cur']
                e = v['epv']+(get(a)*s-p)/v['K']
                L = v['p0']*tm.exp(-(v['xi']*e)) if kind == 'exp' else v['K']*tm.sinh(tm.asinh(v['p0']/v['K'])-v['xi']*e)
                w = get(b)*s2
                if ph == 'assume':      # the invariant fixes the consolidation pressure: it replaces the havocked value
                    if lo and not X.decide(tm.lt(P(lo), L)): L = P(lo)
                    X.subs[tm.the_atom(b['val'])] = L/s2
                else:
                    f = OR(AND(tm.eq(w, L), tm.ge(L, P(lo))), AND(tm.eq(w, P(lo)), tm.le(L, P(lo)))) if lo else tm.eq(w, L)
                    X.inv_checks = X.inv_checks+[((a['name'], b['name']), f, list(X.pc))]
    cfg.newton = newton
    def setup(X):
        X.assume(tm.ge(q, 0)); X.subs = {}; X.inv_checks = []
        pt = v['p0'] if kind == 'fixed' else v['p0']*tm.exp(-(v['xi']*v['epv'])) if kind == 'exp' else v['K']*tm.sinh(tm.asinh(v['p0']/v['K'])-v['xi']*v['epv'])
        if lo:
            if branch == 'above':
                at = tm.atom(tm.the_atom(tm.sinh(tm.asinh(v['p0']/v['K'])-v['xi']*v['epv']))); at.pos = at.nonneg = True     # this task only: K sinh(..) > 0.01
                X.assume(tm.lt(P(lo), pt))
            else: X.assume(tm.le(pt, P(lo))); pt = P(lo)
        X.pctrial = pt
        fr = {'p': p, 'q': q, 'exit': ZERO}
        X.ret = X.call_named(name, None, [VarLV(fr, 'p'), VarLV(fr, 'q'), VarLV(fr, 'exit')]+[v[a] for a in argn])
        X.p2, X.q2, X.ex2 = X.rd(fr['p']), X.rd(fr['q']), X.rd(fr['exit']); return X
    out = []
    for i, (X, S, status) in enumerate(explore(prog, cfg, setup)):
        if X.inv_checks:
            for j, (key, f, pc) in enumerate(X.inv_checks):
                f, pc = tm.fsubst(f, X.subs), [tm.fsubst(h, X.subs) for h in pc]; X.inv_checks[j] = (key, f, pc)
                if os.environ.get('VDEBUG') and not ringcheck(f, pc): print('BAD', key, tm.f_str(f)[:300])
                if not ringcheck(f, pc): bad.add(key); return False
        if status == 'ok' and X.subs:
            X.pc = [tm.fsubst(h, X.subs) for h in X.pc]; X.obs = [(kd, nm, tm.fsubst(fo, X.subs), nn) for kd, nm, fo, nn in X.obs]
            X.p2, X.q2, X.ex2 = [tm.subst(z, X.subs) for z in (X.p2, X.q2, X.ex2)]
        out.append((i, X, status))
    M, be = v['M'], v['beta']; k = 0; seen = {}
    for i, X, status in out:
        if X.inv_checks:
            for key, f, pc in X.inv_checks: R.fact('pressure and consolidation pressure stay consistent in the iteration', True, name)
        if status != 'ok': continue
        rk = repr(X.ret)[:20]
        if len(seen.get(rk, ())) < 4:
            vc = vacuity(R, '%s path %d' % (name, i), X.pc, 300); seen.setdefault(rk, []).append(vc)
            if vc == 'unsat': continue
        k += 1
        for kd, nm, fo, nn in X.obs:
            if kd in ('init', 'bounds') or kd == 'dom' and 'sqrt' in nm: R.prove(nm, X.pc[:nn], fo, name)
        pc = X.pctrial; y = M*M*(p-pc)*(p+be*pc)+q*q
        r = X.ret if isinstance(X.ret, bool) else None
        if r is None:
            rp = X.ret
            r = True if X.implied(tm.ne(rp, ZERO)) else False if X.implied(tm.eq(rp, ZERO)) else None
        if r is None: raise Unsupported('result of %s not decided' % name)
        if not r:
            R.prove('only a trial stress inside the ellipse is left alone', X.pc, tm.le(y, 0), name)
            R.prove('pressure left alone', X.pc, tm.eq(X.p2, p), name); R.prove('shear stress left alone', X.pc, tm.eq(X.q2, q), name)
            R.prove('no exit request', X.pc, tm.eq(X.ex2, ZERO), name); continue
        R.prove('a trial stress inside the ellipse is left alone', X.pc, tm.gt(y, 0), name)
        R.prove('non-negative shear stress', X.pc, tm.ge(X.q2, 0), name)
        if kind == 'fixed':
            R.prove('pressure within the ellipse', X.pc, AND(tm.ge(X.p2, -(be*pc)), tm.le(X.p2, pc)), name)
            onell(R, name, X, X.p2, X.q2, pc, M, be, 'on the ellipse')
        else:
            e = v['epv']+(X.p2-p)/v['K']
            L = v['p0']*tm.exp(-(v['xi']*e)) if kind == 'exp' else v['K']*tm.sinh(tm.asinh(v['p0']/v['K'])-v['xi']*e)
            Q2 = X.q2*X.q2
            ip = tm.inv(pc)      # bounds in units of the trial consolidation pressure
            cand = [L] + ([P(lo)] if lo else [])
            gs = [AND(tm.eq(Q2, M*M*(c-X.p2)*(be*c+X.p2)), tm.ge(X.p2*ip, -(be*c*ip)), tm.le(X.p2*ip, c*ip), *( [tm.ge(L, P(lo))] if lo and c is L else [tm.le(L, P(lo))] if lo else [])) for c in cand]
            nm = 'on the ellipse of the hardened consolidation pressure, or at a tip'
            if X.q2.is_zero(): R.fact(nm, True, name); continue
            for g in gs:
                if ringcheck(g, X.pc): R.prove(nm, X.pc, g, name); break
            else: R.prove(nm, X.pc, OR(tm.eq(X.q2, ZERO), *gs), name, tmo=6000)
    if not k: raise Unsupported('no feasible path of '+name)
    return True

def ringcheck(f, pc):
    ks = set(tm.fkey(h) for h in pc if not isinstance(h, bool))
    def ok(g):
        if g is True: return True
        if g is False: return False
        if g[0] == 'eq' and tm.clear_inv(g[1]).is_zero() or tm.fkey(g) in ks: return True
        if g[0] == 'le' and tm.fkey(('lt', g[1])) in ks: return True
        if g[0] in ('le', 'lt') and any(isinstance(h, tuple) and (h[0] == g[0] or h[0] == 'lt') and h[0] in ('le', 'lt') and pos_multiple(g[1], h[1]) for h in pc): return True
        return g[0] == 'or' and any(ok(x) for x in g[1:]) or g[0] == 'and' and all(ok(x) for x in g[1:])
    return ok(f)

def onell(R, name, X, p2, q2, pc, M, be, nm):
    R.prove(nm, X.pc, tm.eq(q2*q2, M*M*(pc-p2)*(be*pc+p2)), name)

def limiter(R, prog):
    """the step limiters have no effect besides their side flag: parameters by value, one reference parameter, no globals written"""
    from vcg.interp import scan_assigned
    for l in LIM:
        tu, node = prog.find(l); R.fn(l)
        ps = [c for c in node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        refs = [c['name'] for c in ps if '&' in c['type']['qualType'] or '*' in c['type']['qualType']]
        R.fact('only the side flag is passed by reference', len(refs) == 1 and refs[0] == ps[-1]['name'], l, str(refs))
        glob = []
        def walk(n, loc):
            if isinstance(n, dict):
                if n.get('kind') in ('VarDecl', 'ParmVarDecl'): loc.add(n.get('id'))
                if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'VarDecl' and n['referencedDecl'].get('id') not in loc: glob.append(n['referencedDecl'].get('name'))
                for c in n.get('inner', ()): walk(c, loc)
        walk(node, set())
        R.fact('no global variable used', not glob, l, str(glob))
