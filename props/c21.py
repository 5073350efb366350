"""C21: the output files contain the current state: columns of the particle and grid files, info file, averages."""
from .transfer import *
from .setup import *
from vcg.prover import *
FILES = {'save_data', 'simulation'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    t = []
    for d in (2, 3):
        pr = progs[(d, 2)]
        t += [('particle file %dD' % d, particles, (pr,)), ('grid file %dD' % d, gridfile, (pr,)), ('info file %dD' % d, info, (pr,)), ('averages %dD' % d, averages, (pr,)), ('average files %dD' % d, avgfiles, (pr,))]
    return t
ASSUME = ['contract of tinyply: a file holds, for every column group added, the first count*names scalars of the given type found at the given address when it is written',
          'contract of std::ofstream/std::string/std::to_string', 'vectors of fixed-size Eigen types are contiguous scalars', 'PLY encoding (third-party code) is not part of the check']
HARNESS = dict(driver='h_save.cpp', builds=[(2, 2), (3, 2)], flags=(), n=3000, time=8)
class Col: pass

def cfg_(prog, fn):
    cfg = own_cfg(base_cfg(prog)); cfg.streams = True; cfg.merge_all = False
    def add(X, th, a, n):
        a = [x.get(X) if isinstance(x, LV) else x for x in a]
        if len(a) < 5 or not isinstance(a[0], StrVal) or not isinstance(a[1], VecVal) or a[1].base[0] != 'list' or not isinstance(a[4], IterVal): raise Unsupported('column description')
        c = Col(); c.elem = a[0].parts; c.names = [s.parts for s in a[1].base[1]]; c.type = a[2]; c.count = a[3]; c.it = a[4]
        th.__dict__.setdefault('cols', []).append(c)
    def write(X, th, a, n):
        st = a[0].get(X) if isinstance(a[0], LV) else a[0]
        for c in th.__dict__.get('cols', ()): c.vec = c.it.lv.get(X); c.pos = X.rd(c.it.pos)
        X.writes.append((st, list(th.__dict__.get('cols', ()))))
    cfg.contracts['PlyFile::add_properties_to_element'] = add; cfg.contracts['PlyFile::write'] = write
    return cfg

def run(prog, fn, args, pre=None, nopair=False, **kw):
    cfg = cfg_(prog, fn); cfg.no_pairing = nopair
    def setup(X):
        S = mk_sim(X, prog.dim, **kw); X.S = S; X.writes = []
        S.f['frame'] = sym('frame', 'I', nonneg=True); S.f['q_prefac'] = sym('q_prefac', pos=True)
        for nm in ('plastic_model',):
            S.f[nm] = sym(nm, 'I', nonneg=True); X.assume(tm.lt(S.f[nm], 10))
        if pre: pre(X, S)
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, args(X) if args else [])
        return S
    out = [(X, S) for X, S, st in explore(prog, cfg, setup) if st == 'ok']
    if not out: raise Unsupported('no path')
    return out

def table(R, X, fn, cols, rows, dim):
    """name -> function(row) giving the written scalar; obligations: type, element, extent"""
    out = {}
    for c in cols:
        R.fact('element of the column group', c.elem == ['vertex'], fn, str(c.elem))
        v = c.vec; k = len(c.names)
        if not isinstance(v, VecVal): raise Unsupported('column data')
        x = X.vec_get(TempLV(v), X.row, check=False)
        w = len(x.e) if isinstance(x, Mat) else 1
        R.prove('columns are double precision', X.pc, tm.eq(X.rd(c.type), P(8)), fn)
        R.eqp('one row per entry', X.pc, c.count, rows, fn)
        R.fact('as many names as scalars per entry', k == w, fn, '%s: %d scalars' % (c.names, w))
        R.prove('column data within the array', X.pc, AND(tm.eq(c.pos, ZERO), tm.le(c.count, v.n)), fn)
        for i, nm in enumerate(c.names):
            nm = nm[0] if nm and isinstance(nm[0], str) else ''
            R.fact('column names are distinct', nm not in out and nm != '', fn, nm)
            out[nm] = x.e[i] if isinstance(x, Mat) and i < w else x if not isinstance(x, Mat) else None
    return out

def path_is(R, X, fn, st, lit, tail, extra):
    if not isinstance(st, Stream) or not isinstance(st.path, StrVal):
        if isinstance(st, Stream) and st.path is None: R.fact('file opened', False, fn); return
        raise Unsupported('file name')
    want = StrVal([('string', 'directory'), ('string', 'sim_name'), lit] + ([('string', 'extra')] if extra else []) + tail).parts
    got = st.path.parts
    ok = len(got) == len(want) and all((a == b) if not isinstance(a, Poly) and not isinstance(b, Poly) else isinstance(a, Poly) and isinstance(b, Poly) and (a-b).is_zero() for a, b in zip(got, want))
    R.fact('file name', ok, fn, '%s expected %s' % (got, want))

AX = 'xyz'
def particles(R, prog):
    fn = 'Simulation::saveParticleData'; R.fn(fn, 'selfDoubleDot')
    dim = prog.dim
    def pre(X, S): X.row = S.p
    for X, S in run(prog, fn, lambda X: [Opaque('extra')], pre, grid=False):
        pc = X.pc; f = S.pre
        for kind, nm, g_, n_ in X.obs: R.prove('%s: %s' % (kind, nm), X.pc[:n_], g_, fn)
        if len(X.writes) != 1: R.fact('the file is written once', False, fn, str(len(X.writes))); continue
        st, cols = X.writes[0]
        path_is(R, X, fn, st, '/particles_f', [f['frame'], '.ply'], True)
        t = table(R, X, fn, cols, f['Np'], dim)
        want = {}
        for a in range(dim): want[AX[a]] = pv0(S, 'x', X).e[a]; want['v'+AX[a]] = pv0(S, 'v', X).e[a]
        F = pv0(S, 'F', X); tau = pv0(S, 'tau', X)
        tr = sum((tau[i, i] for i in range(dim)), ZERO); p = -tr*P(Fraction(1, dim))
        want['p'] = p; want['Je'] = det(F)
        q2 = sum(((tau[i, j]+(p if i == j else ZERO))**2 for i in range(dim) for j in range(dim)), ZERO)
        m = f['plastic_model']; pl = tm.ne(m, ZERO); mui = OR(tm.eq(m, P(8)), tm.eq(m, P(9))); mib = OR(mui, AND(OR(tm.eq(m, P(6)), tm.eq(m, P(7))), ('b', 'use_mibf')))
        opt = {'eps_pl_vol': pl, 'eps_pl_dev': pl, 'delta_gamma': pl, 'muI': mib, 'viscosity': mui}
        for nm, w in want.items():
            if nm not in t: R.fact('column %s present' % nm, False, fn); continue
            R.eqp('column %s' % nm, pc, t[nm], w, fn)
        if 'q' not in t: R.fact('column q present', False, fn)
        else: R.prove('column q', pc, AND(tm.eq(t['q']**2, f['q_prefac']**2*q2), tm.ge(t['q'], 0)), fn)
        for nm, c in opt.items():
            if nm in t: R.eqp('column %s' % nm, pc, t[nm], pv0(S, nm, X), fn); R.prove('column %s only for its models' % nm, pc, c, fn)
            else: R.prove('column %s present for its models' % nm, pc, NOT(c), fn)
        R.fact('no other columns', set(t) <= set(want) | set(opt) | {'q'}, fn, str(sorted(t)), status='unknown')
        txt = [e[1] for e in X.events if e[0] == 'stream' and e[1] is not st]
        lw = [s for s in txt if s.items]
        ok = len(lw) == 1 and isinstance(lw[0].path, StrVal) and lw[0].path.parts[-1:] == ['/last_written.txt']
        R.fact('the last written frame is recorded', ok and [x.parts if isinstance(x, StrVal) else x for x in lw[0].items][:1] == [[f['frame']]], fn, str(lw), status='unknown')
        frame_ok(R, S, X, fn)

def det(F):
    if F.r == 2: return F[0, 0]*F[1, 1]-F[0, 1]*F[1, 0]
    return sum(((1 if s else -1)*F[0, a]*F[1, b]*F[2, c] for a, b, c, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, 0), (1, 0, 2, 0), (2, 1, 0, 0))), ZERO)

def gridfile(R, prog):
    fn = 'Simulation::saveGridData'; R.fn(fn, 'Simulation::ind')
    dim = prog.dim
    for X, S in run(prog, fn, lambda X: [Opaque('extra')]):
        ijk = [X.gens[N.key()] for N in S.Ns]; X.row = ind(S, ijk)
        pc = X.pc; f = S.pre
        for kind, nm, g_, n_ in X.obs: R.prove('%s: %s' % (kind, nm), X.pc[:n_], g_, fn)
        if len(X.writes) != 1: R.fact('the file is written once', False, fn, str(len(X.writes))); continue
        st, cols = X.writes[0]
        path_is(R, X, fn, st, '/grid_f', [f['frame'], '.ply'], True)
        t = table(R, X, fn, cols, f['grid_nodes'], dim)
        g = f['grid']; at = lambda nm, i: X.vec_get(TempLV(g.f[nm]), i, check=False)
        want = {'mass': at('mass', X.row)}
        v = at('v', X.row)
        for a in range(dim): want[AX[a]] = at(AX[a], ijk[a]); want['v'+AX[a]] = v.e[a]
        mi = ('b', 'use_mibf')
        for nm, w in want.items():
            if nm not in t: R.fact('column %s present' % nm, False, fn); continue
            R.eqp('column %s' % nm, pc, t[nm], w, fn)
        if 'friction' in t: R.eqp('column friction', pc, t['friction'], at('friction', X.row), fn); R.prove('column friction only with material-induced friction', pc, mi, fn)
        else: R.prove('column friction present with material-induced friction', pc, NOT(mi), fn)
        frame_ok(R, S, X, fn)

def info(R, prog):
    fn = 'Simulation::saveInfo'; R.fn(fn)
    for X, S in run(prog, fn, None, lambda X, S: [S.f.setdefault(n, sym(n)) for n in ('fps', 'end_frame')], grid=False):
        sts = [e[1] for e in X.events if e[0] == 'stream']
        if len(sts) != 1: raise Unsupported('number of files')
        path_is(R, X, fn, sts[0], '/info.txt', [], False)
        vals = [x for x in sts[0].items if isinstance(x, Poly)]
        seps = [x.parts for x in sts[0].items if isinstance(x, StrVal)]
        want = [S.pre[n] for n in ('end_frame', 'fps', 'dx', 'Np', 'particle_volume')]
        R.fact('five lines', len(vals) == 5 and all(s == ['\n'] for s in seps) and len(seps) == 5, fn, str(sts[0].items), status='unknown')
        for a, b, nm in zip(vals, want, ('number of frames', 'frame rate', 'cell size', 'number of particles', 'particle volume')): R.eqp('info file: '+nm, X.pc, a, b, fn)
        frame_ok(R, S, X, fn)

def averages(R, prog):
    """volume averages: Cauchy stress sum(tau)/sum(J), Kirchhoff stress sum(J tau)/sum(J), mean volume ratio sum(J)/Np, with J = det(F) exp(plastic volume strain)"""
    fn = 'Simulation::computeAvgData'; R.fn(fn)
    dim = prog.dim
    def args(X):
        X.res = {}
        out = []
        for k in ('cauchy', 'kirchh'):
            X.res[k] = Mat(dim, dim, [sym('%s0.%d' % (k, i)) for i in range(dim*dim)]); out.append(VarLV(X.res, k))
        X.res['J'] = sym('J0'); out.append(VarLV(X.res, 'J'))
        return out
    for X, S in run(prog, fn, args, grid=False, nopair=True):
        pc = X.pc
        sums = []
        for e in X.events:
            if e[0] == 'loop':
                if not (e[1]['bound']-S.pre['Np']).is_zero(): continue
                for nm, v in e[1]['vars'].items():
                    if v.get('kind') == 'sum': sums.append((X.resolve(v['delta']), v['out']+(v['pre'] if isinstance(v['pre'], Poly) else ZERO)))
        F = pv0(S, 'F', X); tau = pv0(S, 'tau', X); J = det(F)*A('exp', pv0(S, 'eps_pl_vol', X))
        def total(d):
            for x, s in sums:
                if tm.clear_inv(x-d).is_zero(): return s
            raise Unsupported('no accumulated sum of the expected quantity')
        sJ = total(J); hy = pc+[tm.gt(sJ, 0)]
        for i in range(dim):
            for j in range(dim):
                R.eqp('mean Cauchy stress', hy, X.rd(X.res['cauchy'])[i, j]*sJ, total(tau[i, j]), fn)
                R.eqp('mean Kirchhoff stress', hy, X.rd(X.res['kirchh'])[i, j]*sJ, total(tau[i, j]*J), fn)
        R.eqp('mean volume ratio', hy, X.rd(X.res['J'])*S.pre['Np'], sJ, fn)
        frame_ok(R, S, X, fn)

def avgfiles(R, prog):
    """the averages, as computed (contract of computeAvgData), are written row by row to the files of the current frame"""
    fn = 'Simulation::saveAvgData'; R.fn(fn)
    dim = prog.dim; m = {k: Mat(dim, dim, [sym('%s.%d' % (k, i)) for i in range(dim*dim)]) for k in ('cauchy', 'kirchh')}; J = sym('Javg')
    def pre(X, S):
        def c(X, th, a, n): a[0].set(X, m['cauchy'].copy()); a[1].set(X, m['kirchh'].copy()); a[2].set(X, J)
        X.cfg.contracts['Simulation::computeAvgData'] = c
    for X, S in run(prog, fn, None, pre, grid=False):
        f = S.pre; sts = {tuple(e[1].path.parts[2:3]): e[1] for e in X.events if e[0] == 'stream' and isinstance(e[1].path, StrVal)}
        for lit, vals in (('/avg_cauchy_frame_', m['cauchy'].e), ('/avg_kirchh_frame_', m['kirchh'].e), ('/avg_J_frame_', [J])):
            st = sts.get((lit,))
            if st is None: raise Unsupported('file '+lit)
            path_is(R, X, fn, st, lit, [f['frame'], '.csv'], False)
            got = [X.resolve(x) for x in st.items if isinstance(x, Poly)]
            R.fact('number of entries', len(got) == len(vals), fn, '%s: %d' % (lit, len(got)))
            for a, b in zip(got, vals): R.eqp('entry of '+lit, X.pc, a, b, fn)
        frame_ok(R, S, X, fn)
