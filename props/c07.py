"""C07: time stepping: dt bounds, frames hit exactly, gravity ramp, termination measure."""
from .transfer import *
from .setup import *
from vcg.prover import *
FILES = {'update_dt', 'simulation', 'remesh', 'p2g', 'g2p', 'musl', 'deformation_update', 'explicit_euler_update', 'position_update', 'pbc', 'plasticity', 'boundary_collision', 'save_data', 'headers'}
def programs(tier): return {(2, 2): FILES, (3, 2): FILES}
def tasks(progs, tier):
    t = []
    for d in (2, 3):
        pr = progs[(d, 2)]
        t += [('updateDt %dD' % d, upd, (pr,)), ('simulate set-up %dD' % d, setup_, (pr,)), ('time loop %dD' % d, loop, (pr,)), ('clock frame %dD' % d, clockframe, (pr,))]
    return t
ASSUME = ['frame duration at least 1.1 times the minimum time step', 'at least one particle; dx, cfl, cfl_elastic, E, rho, fps, min_dt > 0',
          'the frame counter and step counter do not overflow']
HARNESS = dict(driver='h_time.cpp', builds=[(2, 2), (3, 2)], n=3000, time=12)

def upd(R, prog):
    fn = 'Simulation::updateDt'; R.fn(fn)
    cfg = sim_cfg(prog); cfg.merge_all = False
    dim = prog.dim
    def setup(X):
        S = mk_sim(X, dim, grid=False); X.S = S; f = S.f
        for nm in ('cfl', 'dt_max', 'frame_dt', 'min_dt', 'wave_speed'): f[nm] = sym(nm, pos=True)
        f['time'] = sym('time', nonneg=True); f['final_time'] = sym('final_time'); f['frame'] = sym('frame', 'I', nonneg=True); f['gravity_time'] = sym('gravity_time')
        f['gravity'] = Mat(dim, 1, [sym('gravity.%d' % a) for a in range(dim)]); f['gravity_final'] = Mat(dim, 1, [sym('gravity_final.%d' % a) for a in range(dim)])
        S.pre = {k: (v.copy() if isinstance(v, ObjVal) else v) for k, v in S.f.items()}
        X.call_named(fn, S, []); return S
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or vacuity(R, 'path %d' % i, X.pc) == 'unsat': continue
        f = S.f; dt = f['dt']; v = X.vec_get(TempLV(f['particles'].f['v']), S.p, check=False)
        mn, mx = f['min_dt'], f['dt_max']
        remf = f['frame_dt']*(f['frame']+1)-f['time']; rem = f['final_time']-f['time']
        lem = []   # the square root of the largest squared speed is a number w >= 0 with w^2 = that value
        w = [X.vec_get(TempLV(f['particles'].f['v']), e[3], check=False) for e in X.events if e[0] == 'extreme']
        sp = [A('sqrt', sum((c*c for c in m.e), ZERO)) for m in w]
        R.prove('dt is at least the minimum step', X.pc, tm.ge(dt, mn), fn)
        R.prove('dt does not exceed the elastic limit', X.pc, OR(tm.le(dt, mx), tm.eq(dt, mn)), fn)
        R.prove('dt does not step over the end of the frame', X.pc, OR(tm.le(dt, remf), tm.eq(dt, mn)), fn)
        R.prove('dt does not step over the final time', X.pc, OR(tm.le(dt, rem), tm.eq(dt, mn)), fn)
        # CFL for every particle: |v_p| dt <= cfl dx  (unless the minimum step applies or it is practically at rest)
        v2 = sum((c*c for c in v.e), ZERO); cd = f['cfl']*f['dx']
        sv = sym('speed_p', nonneg=True); hy = X.pc+[tm.eq(sv*sv, v2)]
        goal = OR(tm.le(sv*dt, cd), tm.eq(dt, mn), tm.le(sv, P(Fraction(1, 10**10))))
        # replace |v_w|^2 by one number each (no loss: the hypotheses mention it only through that sum)
        R.prove('CFL: no particle crosses more than the allowed part of a cell', *abstract_squares(hy, goal, w, v, sv), fn)
        tight = [tm.eq(dt, mn), tm.eq(dt, mx), tm.eq(dt, remf), tm.eq(dt, rem)]
        for s in sp: tight.append(tm.eq(dt*s, cd))
        R.prove('dt is the largest admissible step', X.pc, OR(*tight), fn)
        gs = tm.fkey(('b', 'gravity_special')) in X.pcset; ngs = tm.fkey(NOT(('b', 'gravity_special'))) in X.pcset
        R.fact('gravity option decides', gs or ngs, fn, status='unknown')
        for a in range(dim):
            g = f['gravity'].e[a]
            if ngs: R.eqp('gravity unchanged without the ramp', X.pc, g, S.pre['gravity'].e[a], fn)
            elif gs:
                gf = S.pre['gravity_final'].e[a]
                R.prove('gravity ramp before the ramp time', X.pc+[tm.lt(f['time'], f['gravity_time'])], tm.eq(g*f['gravity_time'], gf*f['time']), fn)
                R.prove('full gravity after the ramp time', X.pc+[tm.ge(f['time'], f['gravity_time'])], tm.eq(g, gf), fn)
        frame_ok(R, S, X, fn, (), (), ('dt', 'gravity'))

def abstract_squares(hyps, goal, ws, v, sv):
    smap = {}
    from vcg import term as T
    reps = []
    def rep_poly(p):
        # every square of a component of w or v occurs only inside the sum of squares: drop to symbols
        return p
    # components -> keep the first as the speed, others zero (rotation invariance of the sum of squares is a ring identity)
    sub = {}
    for k, m in enumerate(list(ws)+[v]):
        s = sym('absv%d' % k, nonneg=True)
        for j, c in enumerate(m.e):
            a = tm.the_atom(c)
            if a is None: return hyps, goal
            sub[a] = s if j == 0 else ZERO
    def fsub(f):
        if f is True or f is False or f[0] == 'b': return f
        if f[0] in ('lt', 'le', 'eq', 'ne'): return tm.cmpf({'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!='}[f[0]], tm.subst(f[1], sub), ZERO)
        if f[0] == 'not': return NOT(fsub(f[1]))
        return (AND if f[0] == 'and' else OR)(*[fsub(x) for x in f[1:]])
    # admissible only when the components occur through the sums of squares alone
    probe = dict((a, ZERO) for a in sub)
    for f in list(hyps)+[goal]:
        if not squares_only(f, ws, v): return hyps, goal
    return [fsub(h) for h in hyps], fsub(goal)

def squares_only(f, ws, v):
    """f depends on the components of each vector only through their sum of squares"""
    if f is True or f is False or f[0] == 'b': return True
    if f[0] in ('lt', 'le', 'eq', 'ne'):
        for m in list(ws)+[v]:
            ids = [tm.the_atom(c) for c in m.e]
            if not (set(ids) & set(tm.deep_atoms(f[1].atoms()))): continue
            s2 = sym('__s2'); r = s2
            for c in m.e[1:]: r = r-c*c
            ok = dep(f[1], ids)
            if not ok: return False
        return True
    return all(squares_only(x, ws, v) for x in f[1:])

def dep(p, ids):
    """p is a function of the sum of squares: symmetric coefficient test on the monomials c_j^2, and inside sqrt"""
    groups = {}
    for m, c in p.d.items():
        own = [(a, e) for a, e in m if a in ids]; rest = tuple((a, e) for a, e in m if a not in ids)
        for a, e in rest:
            at = tm._atoms[a]
            for x in at.args:
                if isinstance(x, Poly) and (set(ids) & set(tm.deep_atoms(x.atoms()))) and not dep(x, ids): return False
        if not own: continue
        if len(own) != 1 or own[0][1] != 2: return False
        groups.setdefault(rest, {})[own[0][0]] = c
    return all(len(g) == len(ids) and len(set(g.values())) == 1 for g in groups.values())

def setup_(R, prog):
    fn = 'Simulation::simulate'; R.fn(fn)
    for i, (X, S) in enumerate(simulate_prefix(prog, R)):
        f = S.f; pre = S.pre
        R.eqp('time starts at zero', X.pc, f['time'], ZERO, fn)
        R.eqp('frame counter starts at zero', X.pc, f['frame'], ZERO, fn)
        R.eqp('frame duration is the reciprocal of the frame rate', X.pc, f['frame_dt']*pre['fps'], ONE, fn)
        R.eqp('final time is the requested number of frames', X.pc, f['final_time']*pre['fps'], pre['end_frame'], fn)
        R.prove('elastic step limit', X.pc, AND(tm.eq(f['dt_max']**2*pre['E'], pre['cfl_elastic']**2*pre['dx']**2*pre['rho']), tm.ge(f['dt_max'], 0)), fn)
        for a in range(prog.dim):
            R.eqp('the ramp ends at the configured gravity', X.pc, X.rd(f['gravity_final']).e[a], X.rd(pre['gravity']).e[a] if 'gravity' in pre else sym('gravity.%d' % a), fn)

class LoopDone(Exception): pass

def loop(R, prog):
    """invariant of the time loop (T = time/frame duration, one arbitrary iteration)"""
    fn = 'Simulation::simulate'; R.fn(fn, 'Simulation::advanceStep')
    cfg = sim_cfg(prog)
    C11 = P(Fraction(11, 10))
    def inv(f):
        fd, m, t, fr = f['frame_dt'], f['min_dt'], f['time'], f['frame']
        return [('the current frame has at least 1.1 minimal steps left', tm.ge(fd*(fr+1)-t, C11*m)),
                ('all earlier frames are complete', tm.gt(t, fd*fr-C11*m)),
                ('time is non-negative', tm.ge(t, ZERO)), ('frame counter in range', AND(tm.ge(fr, 0), tm.le(fr, f['end_frame'])))]
    def adv(X, th, a, n):
        f = th.f; X.steps += 1
        fd = f['frame_dt']
        dt = fd*X.fresh('step', 'R', pos=True) if not hasattr(X, 'dts') else None
        f['dt'] = dt; X.dts = dt
        rf = fd*(f['frame']+1)-f['time']; r = f['final_time']-f['time']; mn = f['min_dt']
        for g in (tm.ge(dt, mn), OR(tm.le(dt, rf), tm.eq(dt, mn)), OR(tm.le(dt, r), tm.eq(dt, mn))): X.assume(g)
        th.f['exit'] = X.fresh('exitflag', 'I', nonneg=True)
    cfg.contracts['Simulation::advanceStep'] = adv
    for q in ('saveParticleData', 'saveGridData'):
        def h(X, th, a, n, q=q):
            X.saves.append((q, th.f['frame'], th.f['time'])) if getattr(X, 'inloop', False) else X.presaves.append((q, th.f['frame'], th.f['time']))
        cfg.contracts['Simulation::'+q] = h
    def lh(X, C, cond, inc, body, n):
        if not mentions_call(body, 'advanceStep'): return False
        S = X.S; f = S.f
        X.entry = [(nm, g) for nm, g in inv(f)]; X.entry_pc = list(X.pc)
        X.entry_f = dict(f)
        fd = f['frame_dt']
        f['time'] = fd*sym('Tau', nonneg=True); f['frame'] = sym('frame_k', 'I', nonneg=True); f['current_time_step'] = sym('step_k', 'I', nonneg=True)
        X.head = dict(f)
        if not hasattr(X, 'mode'): pass
        for nm, g in inv(f): X.assume(g)
        X.inloop = True
        if not X.decide(X.cond_of(C, cond)): X.out = 'exit'; return True
        X.out = 'iter'
        try: X.ex(Ctx(C.tu, {}, C.this, C), body)
        except BreakX: X.out = 'break'
        if X.out == 'iter' and inc is not None: X.evx(C, inc)
        raise LoopDone()
    cfg.loop_handler = lh
    def setup(X):
        X.steps = 0; X.saves = []; X.presaves = []; X.out = None
        S = raw_sim(X, prog); X.S = S
        fd = ONE/S.f['fps']
        S.f['min_dt'] = fd*sym('min_step', pos=True)      # a change of variable
        X.assume(tm.le(C11*sym('min_step', pos=True), 1))
        S.pre = dict(S.f)
        try: X.call_named('Simulation::simulate', S, [])
        except LoopDone: pass
        return S
    n = 0
    for i, (X, S, st) in enumerate(explore(prog, cfg, setup)):
        if st != 'ok' or X.out is None: continue
        if vacuity(R, 'iteration %d' % i, X.pc) == 'unsat': continue
        n += 1
        f, h = S.f, X.head
        for nm, g in X.entry: R.prove('initially: '+nm, X.entry_pc+[tm.ge(X.entry_f['end_frame'], 0)], g, fn)
        fd, m = f['frame_dt'], f['min_dt']
        save = tm.fkey(('b', 'save_sim')) in X.pcset; nsave = tm.fkey(NOT(('b', 'save_sim'))) in X.pcset
        sg = tm.fkey(('b', 'save_grid')) in X.pcset
        if save: R.fact('the initial state is saved', any(q == 'saveParticleData' for q, a, b in X.presaves), fn)
        if X.out == 'exit':
            R.prove('the loop ends with the last frame complete', X.pc, tm.ge(h['frame'], f['end_frame']), fn); continue
        R.fact('one step per iteration', X.steps == 1, fn)
        aborted = f['time'] == h['time']        # the early return after an error flag
        if aborted:
            R.prove('only an error flag ends the run early', X.pc, tm.eq(f['exit'], 1), fn); continue
        R.eqp('time advances by the step', X.pc, f['time'], h['time']+X.dts, fn)
        R.eqp('the step counter advances by one', X.pc, f['current_time_step'], h['current_time_step']+1, fn)
        R.prove('progress: at least the minimum step', X.pc, tm.ge(f['time']-h['time'], m), fn)
        R.prove('the clock never passes the end of the current frame', X.pc, tm.le(f['time'], fd*(h['frame']+1)), fn)
        R.prove('the frame counter advances by at most one', X.pc, OR(tm.eq(f['frame'], h['frame']), tm.eq(f['frame'], h['frame']+1)), fn)
        end = tm.lt(fd*(h['frame']+1)-f['time'], C11*m)
        R.prove('a frame is completed exactly when its end is reached', X.pc, AND(OR(NOT(end), tm.eq(f['frame'], h['frame']+1)), OR(end, tm.eq(f['frame'], h['frame']))), fn)
        inc = discharge(X.pc, tm.eq(f['frame'], h['frame']+1), 2000)[0] == 'discharged'
        last = tm.ge(f['frame'], f['end_frame'])
        if X.out == 'break':
            R.prove('the run ends only with the last frame complete', X.pc, last, fn)
            R.prove('the run ends at the final time', X.pc, AND(tm.le(f['time'], f['final_time']), tm.lt(f['final_time']-f['time'], C11*m)), fn)
        else:
            for nm, g in inv(f):
                if nm.startswith('the current frame'): g = OR(g, last)
                R.prove('preserved: '+nm, X.pc, g, fn)
        ps = [x for x in X.saves if x[0] == 'saveParticleData']; gs = [x for x in X.saves if x[0] == 'saveGridData']
        if save:
            if inc:
                R.fact('every completed frame is saved', len(ps) >= 1, fn)
                if sg: R.fact('every completed frame saves the grid', len(gs) >= 1, fn)
            elif X.out == 'iter': R.fact('nothing is saved in the middle of a frame', not ps and not gs, fn)
            for q, a, b in X.saves:
                R.eqp('output carries the number of the completed frame', X.pc, a, f['frame'], fn)
                R.eqp('output carries the current time', X.pc, b, f['time'], fn)
        elif nsave: R.fact('nothing is saved when saving is off', not X.saves and not X.presaves, fn)
    if n < 4: raise Unsupported('time loop: %d paths' % n)

CLOCK = ('time', 'frame', 'end_frame', 'frame_dt', 'final_time', 'min_dt', 'current_time_step', 'dt_max', 'cfl', 'gravity_final', 'gravity_time', 'dt', 'gravity')
def clockframe(R, prog):
    """no function executed in a step, other than updateDt, writes the clock"""
    ok = reach_writes(prog, 'Simulation::advanceStep', skip=('updateDt',))
    R.fn('Simulation::advanceStep')
    for nm, fnm, cls in ok:
        if nm in CLOCK and cls == 'Simulation': R.fact('frame: %s does not write %s' % (fnm, nm), False, 'Simulation::'+fnm)
    for nm in CLOCK: R.fact('frame: a step leaves %s alone (except the step-size update)' % nm, not any(x[0] == nm and x[2] == 'Simulation' for x in ok), 'Simulation::advanceStep')

def reach_writes(prog, qname, skip=()):
    """members written (assigned, incremented, or bound to a non-const reference) by functions reachable from qname"""
    seen = set(); todo = [prog.find(qname)]; out = []
    while todo:
        tu, fn = todo.pop()
        key = fn.get('mangledName') or fn.get('name')
        if key in seen: continue
        seen.add(key)
        st = [fn]
        while st:
            n = st.pop()
            if not isinstance(n, dict): continue
            k = n.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('opcode', '').endswith('=') and n.get('opcode') not in ('==', '!=', '<=', '>=')):
                tgt = strip_lhs(n['inner'][0])
                if tgt: out.append((tgt[0], fn.get('name'), tgt[1]))
            elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
                tgt = strip_lhs(n['inner'][0])
                if tgt: out.append((tgt[0], fn.get('name'), tgt[1]))
            elif k == 'CXXOperatorCallExpr':
                ch = n.get('inner', ())
                op = ch[0]
                while op.get('inner'): op = op['inner'][0]
                if op.get('referencedDecl', {}).get('name') in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=') and len(ch) > 1:
                    tgt = strip_lhs(ch[1])
                    if tgt: out.append((tgt[0], fn.get('name'), tgt[1]))
            nm = None
            if k == 'MemberExpr': nm = n.get('referencedMemberDecl')
            elif k == 'DeclRefExpr': nm = n.get('referencedDecl', {}).get('id')
            if nm:
                d = tu.decl.get(nm)
                if d is not None and d.get('kind') in ('CXXMethodDecl', 'FunctionDecl') and d.get('name') not in skip:
                    m = d.get('mangledName')
                    if m in prog.funcs: todo.append(prog.funcs[m])
            st.extend(n.get('inner', ()))
    return out

def strip_lhs(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') and n.get('inner'): n = n['inner'][0]
    if n.get('kind') == 'MemberExpr':
        b = n['inner'][0] if n.get('inner') else {}
        t = b.get('type', {}).get('qualType', '')
        c = 'Simulation' if 'Simulation' in t or b.get('kind') == 'CXXThisExpr' and 'Simulation' in t else t
        return n.get('name'), c
    return None
