"""C01: the interpolation kernel is the B-spline of its degree; weights sum to one, reproduce linear
fields, gradient weights are the derivative; the APIC inertia constant is the inverse second moment."""
from .transfer import *
from vcg import frontend
from vcg.prover import *

TITLE = 'kernel'
DEGS = (1, 2, 3)

def programs(tier):
    return {(2, s): {'headers', 'simulation'} for s in DEGS}

def tasks(progs, tier):
    t = []
    for s in DEGS:
        t.append(('kernel deg %d' % s, kernel, (progs[(2, s)], s)))
        t.append(('moments deg %d' % s, moments, (s,)))
        if s > 1: t.append(('apic constant deg %d' % s, apic, (progs[(2, s)], s)))
    return t

def kernel(R, prog, deg):
    cfg = Config()
    u = sym('u')
    for fn in ('N', 'dNdu'):
        R.fn(fn)
        ps = explore(prog, cfg, lambda X: X.call_named(fn, None, [u]))
        R.fact('%s has executions' % fn, len(ps) > 0, fn)
        pc_all = []
        for i, (X, r, st) in enumerate(ps):
            if st != 'ok' or not isinstance(r, Poly): raise Unsupported('%s does not return a number' % fn)
            vacuity(R, '%s path %d' % (fn, i), X.pc)
            pc_all.append(AND(*X.pc) if X.pc else True)
            for kind, nm, f, n in X.obs:
                R.prove('%s: %s' % (fn, nm), X.pc[:n], f, fn)
            spec = bspline(deg, None)
            for (lo, hi, co) in spec + [(None, spec[0][0], [Fraction(0)]), (spec[-1][1], None, [Fraction(0)])]:
                h = list(X.pc)
                # closed pieces: the spline is continuous, so both one-sided polynomials agree at knots (N, and dN for deg>=2)
                closed = not (fn == 'dNdu' and deg == 1)
                if lo is not None: h.append(tm.ge(u, P(lo)) if closed else tm.gt(u, P(lo)))
                if hi is not None: h.append(tm.le(u, P(hi)) if closed else tm.lt(u, P(hi)))
                if fn == 'N': v = sum((u**i*co[i] for i in range(len(co))), ZERO)
                else: v = sum((u**(i-1)*(co[i]*i) for i in range(1, len(co))), ZERO)
                close(R, '%s(u) = B-spline on [%s,%s]' % (fn, lo, hi), h, r, v, fn)
        R.prove('%s: every argument is covered' % fn, [], OR(*pc_all) if pc_all else False, fn)

EPS = Fraction(1, 10**14)
def close(R, name, h, a, b, fn):
    """|a-b| <= 1e-14: literals such as 0.1666...6 are not the rational 1/6"""
    d = a-b
    if d.is_zero(): return R.prove(name, h, True, fn)
    u = sym('u')
    R.prove(name, h + [tm.ge(u, P(-3)), tm.le(u, P(3))], AND(tm.le(d, P(EPS)), tm.ge(d, P(-EPS))), fn)
    if all(tm.deep_atoms(h2[1].atoms()) is not None for h2 in h if h2 is not True):
        R.prove(name + ' (far)', h + [OR(tm.lt(u, P(-3)), tm.gt(u, P(3)))], AND(tm.le(d, P(EPS)), tm.ge(d, P(-EPS))), fn)

class _S: pass

def moments(R, deg):
    """lemmas over the kernel contract: 1D sums over the four stencil nodes; tensor products follow"""
    S = _S(); f = sym('fx', nonneg=True); S.fs = [f]
    for case in cases(1, deg):
        h = case_hyps(S, case)
        W = {}; G = {}
        for o in (-1, 0, 1, 2):
            w, g = weight_spec(S, deg, case, (o,)); W[o] = w; G[o] = g[0]
            R.prove('weight >= 0', h, tm.ge(w, 0), 'lemma'); R.prove('weight <= 1', h, tm.le(w, 1), 'lemma')
        for o in (-4, -3, -2, 3, 4, 5):
            w, g = weight_spec(S, deg, case, (o,))
            R.eqp('support inside the four-node stencil', h, w, ZERO, 'lemma')
            R.eqp('gradient support inside the four-node stencil', h, g[0], ZERO, 'lemma')
        R.eqp('sum of weights = 1', h, sum(W.values(), ZERO), ONE, 'lemma')
        R.eqp('weights reproduce position', h, sum((W[o]*(P(o)-f) for o in W), ZERO), ZERO, 'lemma')
        R.eqp('sum of gradient weights = 0', h, sum(G.values(), ZERO), ZERO, 'lemma')
        R.eqp('gradient of a linear field is exact', h, sum((G[o]*(P(o)-f) for o in G), ZERO), ONE, 'lemma')
        if deg > 1:
            m2 = sum((W[o]*(P(o)-f)*(P(o)-f) for o in W), ZERO)
            R.eqp('second moment is constant', h, m2, P(Fraction(1, 4) if deg == 2 else Fraction(1, 3)), 'lemma')
            R.eqp('weighted gradients: sum dN*(xi-xp)^2 = 0', h, sum((G[o]*(P(o)-f)*(P(o)-f) for o in G), ZERO), ZERO, 'lemma')

def apic(R, prog, deg):
    """simulate() stores the inverse of the second moment before the first step"""
    from .setup import simulate_prefix
    R.fn('Simulation::simulate')
    for X, S in simulate_prefix(prog, R):
        d = X.rd(S.f['apicDinverse']); dx = S.f['dx']
        R.eqp('apicDinverse * second moment = 1', X.pc, d*dx*dx, P(4 if deg == 2 else 3), 'Simulation::simulate')
        R.eqp('one_over_dx = 1/dx', X.pc, X.rd(S.f['one_over_dx'])*dx, ONE, 'Simulation::simulate')
HARNESS = {'driver': 'h_c01.cpp', 'builds': [(2, 1), (2, 2), (2, 3)], 'n': 20000, 'time': 10}
