"""Symbolic pre-states of Simulation used by the contracts (the data-structure
invariant INV of DESIGN.md): array lengths agree, grid coordinates are an arithmetic
progression with spacing dx, cached reciprocals are the reciprocals."""
from fractions import Fraction
from . import term as tm
from .term import Poly, P, ZERO, ONE, A, sym
from .interp import *

AX = 'xyz'

def spline_contract(name):
    def h(X, this, args, n):
        u = args[0].get(X) if isinstance(args[0], LV) else args[0]
        return A('spl', u, name=name)
    return h

def base_cfg(prog):
    cfg = Config()
    cfg.contracts['N'] = spline_contract('N')
    cfg.contracts['dNdu'] = spline_contract('dN')
    Ny = sym('Ny', 'I', pos=True); Nz = sym('Nz', 'I', pos=True)
    if prog.dim == 2: cfg.strides = {mono(Ny): 1}
    else: cfg.strides = {mono(Nz): 1, mono(Ny*Nz): 2}
    return cfg

def mono(p):
    (m, c), = p.d.items(); return m

VP = {'x': 'V', 'v': 'V', 'pic': 'V', 'flip': 'V', 'eps_pl_dev': 'S', 'eps_pl_vol': 'S', 'eps_pl_vol_pradhana': 'S', 'delta_gamma': 'S', 'viscosity': 'S', 'muI': 'S', 'F': 'M', 'Bmat': 'M', 'tau': 'M'}

def etype(k, d):
    return {'V': 'Eigen::Matrix<double, %d, 1>' % d, 'S': 'double', 'M': 'Eigen::Matrix<double, %d, %d>' % (d, d)}[k]

def mk_particles(X, n, dim, name='particles'):
    o = ObjVal('Particles', name)
    for f, k in VP.items():
        o.f[f] = VecVal(n, etype(k, dim), ('sym', '%s.%s' % (name, f)))
    return o

def mk_sim(X, dim, grid=True, particle_cell=True, zero_grid=False, lo=1, min_n=4):
    S = ObjVal('Simulation', '')
    f = S.f
    f['dim'] = P(dim)
    dx = sym('dx', pos=True); f['dx'] = dx
    f['one_over_dx'] = ONE/dx; f['one_over_dx_square'] = ONE/dx/dx
    Np = sym('Np', 'I', pos=True); f['Np'] = Np
    for nm in ('dt', 'particle_mass', 'particle_volume', 'rho'): f[nm] = sym(nm, pos=True)
    f['n_threads'] = sym('n_threads', 'I', pos=True)
    p = sym('p', 'I', nonneg=True); X.gens[Np.key()] = p; X.assume(tm.lt(p, Np))
    f['particles'] = mk_particles(X, Np, dim)
    S.p = p
    if grid:
        G = ObjVal('Grid', 'grid'); f['grid'] = G
        Ns = []
        for a in range(dim):
            N_ = sym('N'+AX[a], 'I', pos=True); Ns.append(N_); f['N'+AX[a]] = N_
            X.assume(tm.ge(N_, min_n))
            xc = sym('grid.%sc' % AX[a]); G.f[AX[a]+'c'] = xc
            G.f[AX[a]] = VecVal(N_, 'double', ('fn', (lambda xc: lambda i: xc + i*dx)(xc)))
            gs = sym('g'+'ijk'[a], 'I', nonneg=True); X.gens[N_.key()] = gs; X.assume(tm.lt(gs, N_))
        nodes = ONE
        for N_ in Ns: nodes = nodes*N_
        f['grid_nodes'] = nodes
        S.Ns = Ns; S.nodes = nodes
        l = sym('l', 'I', nonneg=True); X.gens[nodes.key()] = l; X.assume(tm.lt(l, nodes))
        S.l = l
        for nm, k in (('v', 'V'), ('flip', 'V'), ('force', 'V'), ('mass', 'S'), ('friction', 'S')):
            if zero_grid:
                z = ZERO if k == 'S' else mat_zero(dim, 1)
                G.f[nm] = VecVal(nodes, etype(k, dim), ('fill', z))
            else: G.f[nm] = VecVal(nodes, etype(k, dim), ('sym', 'grid.'+nm))
        if particle_cell:
            ms = []; fs = []; ent = []
            for a in range(dim):
                m = sym('m'+AX[a], 'I', nonneg=True); fr = sym('f'+AX[a], nonneg=True)
                X.assume(tm.lt(fr, 1)); X.assume(tm.ge(m, lo)); X.assume(tm.le(m, Ns[a]-3))
                ms.append(m); fs.append(fr)
                ent.append(G.f[AX[a]+'c'] + dx*(m+fr))
            S.ms = ms; S.fs = fs
            px = f['particles'].f['x']
            f['particles'].f['x'] = VecVal(px.n, px.et, px.base, ((p, Mat(dim, 1, ent)),))
            S.xp = ent
    return S

def ind(S, idx):
    """row-major node index"""
    r = idx[0]
    for a in range(1, len(idx)): r = r*S.Ns[a] + idx[a]
    return r

# ------------------------------------------------------------------ B-splines (specification)
def bspline(deg, u_lo):
    """cardinal B-spline of the degree as list of (lo, hi, poly coefs low->high) on u"""
    F = Fraction
    if deg == 1: return [(F(-1), F(0), [F(1), F(1)]), (F(0), F(1), [F(1), F(-1)])]
    if deg == 2: return [(F(-3, 2), F(-1, 2), [F(9, 8), F(3, 2), F(1, 2)]), (F(-1, 2), F(1, 2), [F(3, 4), F(0), F(-1)]), (F(1, 2), F(3, 2), [F(9, 8), F(-3, 2), F(1, 2)])]
    return [(F(-2), F(-1), [F(4, 3), F(2), F(1), F(1, 6)]), (F(-1), F(0), [F(2, 3), F(0), F(-1), F(-1, 2)]),
            (F(0), F(1), [F(2, 3), F(0), F(-1), F(1, 2)]), (F(1), F(2), [F(4, 3), F(-2), F(1), F(-1, 6)])]

def pieces(deg):
    """sub-intervals of the cell fraction [0,1) on which every N(f+c) is one polynomial"""
    return [(Fraction(0), Fraction(1, 2)), (Fraction(1, 2), Fraction(1))] if deg == 2 else [(Fraction(0), Fraction(1))]

def spl_poly(deg, name, u, lo, hi):
    """value of N / dN at u = f + c for f in [lo, hi): c rational"""
    mid_shift = None
    return None

def expand_splines(p, deg, fs, case):
    """replace spl atoms by polynomials; fs: fraction symbols, case[a]=(lo,hi) interval of fs[a].
    Returns None if some argument is not fraction + constant."""
    fid = {tm.the_atom(f): a for a, f in enumerate(fs)}
    smap = {}
    for a in tm.deep_atoms(p.atoms()):
        at = tm._atoms[a]
        if at.kind != 'spl': continue
        u = at.args[0]
        ax = None; sg = 1; c = Fraction(0)
        for m, k in u.d.items():
            if m == (): c = k
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in fid and k in (1, -1) and ax is None: ax = fid[m[0][0]]; sg = int(k)
            else: return None
        if ax is None: return None
        lo, hi = case[ax]
        mid = sg*(lo+hi)/2 + c
        val = ZERO
        for (a0, b0, co) in bspline(deg, None):
            if a0 <= mid < b0:
                if at.name == 'N': val = sum((u**i*co[i] for i in range(len(co))), ZERO)
                else: val = sum((u**(i-1)*(co[i]*i) for i in range(1, len(co))), ZERO)
        smap[a] = val
    return tm.subst(p, smap)
