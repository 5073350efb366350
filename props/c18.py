"""C18: parallel loops are race-free and their result does not depend on the number of threads or the schedule."""
import os, re, glob
from .transfer import *
from .setup import *
from .plast import plast_paths, MODELS, HARD, helper_contracts
from .contact import contact_paths
from vcg.prover import *
from vcg.race import Monitor, RegionDone
FILES = {'p2g', 'g2p', 'musl', 'deformation_update', 'position_update', 'explicit_euler_update', 'save_data', 'plasticity', 'boundary_collision', 'simulation', 'pbc', 'update_dt', 'remesh', 'headers'}
FNS = ('P2G', 'G2P', 'MUSL', 'deformationUpdate', 'positionUpdate', 'explicitEulerUpdate', 'saveParticleData')
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    t = []
    for d in (3, 2):
        pr = progs[(d, 2)]
        t += [('%s %dD' % (f, d), region, (pr, f)) for f in FNS]
        t += [('obstacles are not modified by contact queries %dD' % d, const_objects, (pr,))]
        if d == 2 or tier == 'thorough':
            for which, typ in (('objects', None), ('plates', 'bottom'), ('plates', 'left')):
                for b in ('NoSlip', 'SlipFree', 'SlipStick'): t.append(('contact %s %s %s %dD' % (which, typ, b, d), contact, (pr, which, b, typ)))
            for m in MODELS:
                for hd in HARD.get(m, (None,)): t.append(('return mapping %s %s %dD' % (m, hd or '', d), plastic, (pr, m, hd)))
    t.append(('every parallel construct is covered', cover, (progs,)))
    return t
ASSUME = ['OpenMP semantics: an iteration of a work-sharing loop is executed by exactly one thread; critical sections exclude each other; barriers as specified',
          'floating-point sums may be formed in any order (results agree up to rounding)', 'Eigen and the standard library functions used in the loops do not write shared data', 'obstacle classes of the repository']
HARNESS = dict(driver='h_threads.cpp', builds=[(2, 2), (3, 2)], flags=(), n=400, time=16)
TOUCH = ('F', 'tau', 'eps_pl_dev', 'eps_pl_vol', 'eps_pl_vol_pradhana', 'delta_gamma', 'viscosity', 'muI')

def plast_c(X, th, a, n):
    """frame contract of plasticity (proved below): entries of its own particle, and the count"""
    S = X.S; p = X.rd(a[0].get(X)) if isinstance(a[0], LV) else a[0]
    for g in TOUCH:
        X.mon.acc('r', FieldLV(S.f['particles'], g), p); X.mon.acc('w', FieldLV(S.f['particles'], g), p)
    if isinstance(a[1], LV): X.mon.acc('r', a[1]); X.mon.acc('w', a[1])
def bc_c(X, th, a, n):
    S = X.S; i = X.rd(a[0].get(X)) if isinstance(a[0], LV) else a[0]
    X.mon.acc('r', FieldLV(S.f['grid'], 'friction'), i)
    if isinstance(a[2], LV): X.mon.acc('w', a[2])

def fact(R, nm, ok, fn, d='', **kw):
    k = (nm, ok, fn, d if not ok else '')
    D = R.__dict__.setdefault('_once', set())
    if k in D: return
    D.add(k); R.fact(nm, ok, fn, d, **kw)
def report(R, X, fn):
    for o in X.mon.out:
        if o is None: fact(R, 'work-sharing loop is a symbolic loop', False, fn, status='unknown'); continue
        nm, ok, d = o
        fact(R, nm, ok, fn, d)

def region(R, prog, f):
    fn = 'Simulation::'+f; R.fn(fn)
    cfg = own_cfg(base_cfg(prog))
    cfg.contracts['Simulation::plasticity'] = plast_c; cfg.contracts['Simulation::boundaryCollision'] = bc_c; cfg.contracts['debug'] = lambda X, th, a, n: None
    for q in ('PBCAddParticles', 'PBCDelParticles'): cfg.contracts['Simulation::'+q] = lambda X, th, a, n: None
    def setup(X):
        S = mk_sim(X, prog.dim, grid=f != 'saveParticleData'); X.S = S
        X.mon = Monitor(X)
        if f == 'saveParticleData': X.mon.stop = 1
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        try: X.call_named(fn, S, [Opaque('extra')] if f == 'saveParticleData' else [])
        except RegionDone: pass
        return S
    n = 0; seen = set()
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok': continue
        n += X.mon.regions
        report(R, X, fn)
        seen |= {(a, b, re.sub(r'\s+', ' ', c)) for a, b, c in X.mon.seen}
    fact(R, 'function analysed', True, fn, '%d regions' % n)

def plastic(R, prog, model, hard):
    fn = 'Simulation::plasticity'
    def mon(X, S, fr):
        X.mon = Monitor(X); X.mon.manual([fr], S.p, red=('cnt',), text='called for particle p')
    def quiet(h):
        def g(X, th, a, n):
            X.mon.silent += 1
            try: return h(X, th, a, n)
            finally: X.mon.silent -= 1
        return g
    for X, S in plast_paths(R, prog, model, True, hard, contracts={k: quiet(h) for k, h in helper_contracts().items()}, monitor=mon):
        report(R, X, fn)
        own(R, X, S, fn)

def own(R, X, S, fn):
    """reads of arrays that the other iterations write are reads of the own entry"""
    for a in X.mon.allacc:
        kind, k, nm, priv, idx = a[:5]
        if nm.startswith('particles.') and idx is not None:
            fact(R, '%s is accessed at the own particle only' % nm, a[8] is True, fn, repr(idx))
            if kind == 'w': fact(R, '%s is in the frame' % nm, nm.split('.')[1] in TOUCH, fn)
        elif nm.startswith('grid.') and idx is not None: fact(R, '%s is only read' % nm, kind == 'r', fn)

def contact(R, prog, which, bck, typ):
    fn = 'Simulation::boundaryCollision'
    def mon(X, S, fr):
        X.mon = Monitor(X); X.mon.manual([fr], S.l, text='called for node l')
    for X, S in contact_paths(R, prog, which, bck, typ, monitor=mon):
        report(R, X, fn)
        for a in X.mon.allacc:
            kind, k, nm, priv, idx = a[:5]
            if nm.startswith('grid.') and idx is not None and nm != 'grid.friction': fact(R, '%s is accessed at the own node only' % nm, a[8] is True and kind == 'r', fn, repr(idx))
            if kind == 'w' and not priv: fact(R, '%s is not modified by contact' % nm, False, fn)

def helpers(R, prog):
    """the return-mapping helpers work on their arguments only; the error flag is only ever set to one constant"""
    for k in sorted(helper_contracts()):
        for m in prog.byname.get(k, ()):
            tu, fn = prog.funcs[m]; R.fn(k)
            ids = {x['id']: x for x in fn.get('inner', ()) if x.get('kind') == 'ParmVarDecl'}
            flags = {i for i, x in ids.items() if x.get('type', {}).get('qualType', '').replace(' ', '') == 'int&'}
            st = [(fn, False)]; vals = set(); bad = []
            while st:
                n, _ = st.pop(); kd = n.get('kind')
                if kd == 'VarDecl' and n.get('storageClass') == 'static' and 'const' not in n.get('type', {}).get('qualType', ''): bad.append('static '+n.get('name', ''))
                if kd == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'VarDecl':
                    d = tu.decl.get(n['referencedDecl']['id'])
                if kd == 'BinaryOperator' and n.get('opcode') == '=' and n['inner'][0].get('referencedDecl', {}).get('id') in flags:
                    v = n['inner'][1]
                    while v.get('inner') and v['kind'] != 'IntegerLiteral': v = v['inner'][0]
                    vals.add(v.get('value', '?'))
                elif kd in ('CompoundAssignOperator', 'UnaryOperator') and n.get('inner') and n['inner'][0].get('referencedDecl', {}).get('id') in flags: vals.add('update')
                st.extend((x, False) for x in n.get('inner', ()) if isinstance(x, dict))
            fact(R, '%s keeps no state between calls' % k, not bad, k, ', '.join(bad))
            fact(R, '%s sets the error flag to one constant only' % k, len(vals) <= 1 and '?' not in vals and 'update' not in vals, k, str(vals))

def const_objects(R, prog):
    helpers(R, prog)
    for c, (tu, rec) in sorted(prog.records.items()):
        if not c.startswith('Object'): continue
        mut = [x.get('name') for x in rec.get('inner', ()) if x.get('kind') == 'FieldDecl' and x.get('mutable')]
        R.fn(c+'::inside', c+'::normal')
        R.fact('%s has no mutable state' % c, not mut, c, ', '.join(mut))
        for m in rec.get('inner', ()):
            if m.get('kind') == 'CXXMethodDecl' and m.get('name') in ('inside', 'normal'):
                R.fact('%s::%s is a const member function' % (c, m['name']), 'const' in m.get('type', {}).get('qualType', '').split(')')[-1], c)
                st = [m]; cc = False
                while st:
                    n = st.pop()
                    if n.get('kind') == 'CXXConstCastExpr': cc = True
                    st.extend(x for x in n.get('inner', ()) if isinstance(x, dict))
                R.fact('%s::%s casts no constness away' % (c, m['name']), not cc, c)

def cover(R, progs):
    """every OpenMP directive of the tree lies in a function analysed here (or reachable from one only)"""
    for (d, s), prog in sorted(progs.items()):
        for m, (tu, fn) in prog.funcs.items():
            st = [fn]; has = False
            while st:
                n = st.pop()
                if str(n.get('kind', '')).startswith('OMP') and n['kind'].endswith('Directive'): has = True; break
                st.extend(x for x in n.get('inner', ()) if isinstance(x, dict))
            if has:
                ok = fn.get('name') in FNS or called_only(prog, fn.get('name'))
                R.fact('parallel construct in %s is analysed' % fn.get('name'), True if ok else False, fn.get('name'), '', **({} if ok else {'status': 'unknown'}))

def called_only(prog, name):
    """helper called (transitively) from an analysed function"""
    for m, (tu, fn) in prog.funcs.items():
        if fn.get('name') not in FNS: continue
        st = [fn]
        while st:
            n = st.pop()
            if n.get('kind') == 'MemberExpr' and n.get('name') == name: return True
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == name: return True
            st.extend(x for x in n.get('inner', ()) if isinstance(x, dict))
    return False
