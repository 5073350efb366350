"""C12: the stored stress is the isotropic elastic law of the stored elastic deformation."""
from .plast import *
def programs(tier): return {(2, 2): {'plasticity', 'headers'}, (3, 2): {'plasticity', 'headers'}}
def tasks(progs, tier): return model_tasks(progs, law, MODELS, tier)+[('neo-Hookean %dD' % d, neo, (progs[(d, 2)],)) for d in (2, 3)]
ASSUME = PL_ASSUME
HARNESS = dict(driver='h_plast.cpp', flags=('-DPROP=12',), builds=[(2, 2), (3, 2)], n=20000, time=12)
def law(R, prog, model, shear, hard):
    dim = prog.dim
    for X, S in plast_paths(R, prog, model, shear, hard, contracts=helper_contracts()):
        f = S.f
        pr = [f['lambda']*X.t2+(f['mu']*X.h2[k]).scale(2) for k in range(dim)]
        for i in range(dim):
            for j in range(dim):
                R.prove('Kirchhoff stress is the Hencky law of the stored deformation', X.pc, tm.eq(X.tau2[i, j], sum((X.U[i, k]*pr[k]*X.U[j, k] for k in range(dim)), ZERO)), FN)
        if model == 'NoPlasticity': R.fact('without plasticity the trial deformation is stored', X.elastic, FN)

def neo(R, prog):
    """F is an arbitrary matrix with positive determinant"""
    dim = prog.dim
    for X, S in plast_paths(R, prog, 'NoPlasticity', True, elastic='NeoHookean'):
        F = X.FT; f = S.f
        if not X.elastic: R.fact('without plasticity the trial deformation is stored', False, FN); continue
        det = F[0, 0]*F[1, 1]-F[0, 1]*F[1, 0] if dim == 2 else sum((F[0, j]*(F[1, (j+1) % 3]*F[2, (j+2) % 3]-F[1, (j+2) % 3]*F[2, (j+1) % 3]) for j in range(3)), ZERO)
        for i in range(dim):
            for j in range(dim):
                b = sum((F[i, k]*F[j, k] for k in range(dim)), ZERO)-(1 if i == j else 0)
                w = f['mu']*b+(f['lambda']*tm.log(det) if i == j else ZERO)
                R.prove('Kirchhoff stress is the neo-Hookean law of the stored deformation', X.pc+[tm.gt(det, 0)], tm.eq(X.tau2[i, j], w), FN)
