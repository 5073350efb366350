"""Ownership monitor for OpenMP regions.  While a function is interpreted (one generic iteration per loop) every access to a
location that exists outside the parallel region is recorded; at the end of the region the race-freedom conditions are stated:
 - outside critical sections a shared scalar is written only if it is a reduction/private variable of the construct;
 - a shared array is written only at the element owned by the iteration of a work-sharing loop, and every other access to that
   array in the same phase (between barriers) is to the same element;
 - inside critical sections shared data is only updated by adding terms linear in thread-private accumulators, and is not
   accessed outside critical sections in the same phase;
 - thread-private accumulators are filled by work-sharing loops only (otherwise the result depends on the number of threads)."""
import re, os, glob
from . import term as tm

class Region: pass
class RegionDone(Exception): pass

def pragma_text(prog_dir, tu, n):
    b = n['range']['begin']; e = n['range']['end']
    o, o2 = b.get('offset'), e.get('offset')
    if o is None: return None
    cand = [os.path.join(prog_dir, 'src', 'simulation', tu.name+'.cpp')] + sorted(glob.glob(os.path.join(prog_dir, 'src', '**', '*.hpp'), recursive=True)) + sorted(glob.glob(os.path.join(prog_dir, 'src', 'simulation', '*.cpp')))
    for f in cand:
        try: s = open(f, 'rb').read()
        except OSError: continue
        if s[o:o+1] == b'#' and re.match(rb'#\s*pragma\s+omp', s[o:o+40]):
            t = s[o:].decode('utf8', 'replace')
            out = ''
            for ln in t.split('\n'):
                if ln.rstrip().endswith('\\'): out += ln.rstrip()[:-1]+' '; continue
                out += ln; break
            return re.sub(r'//.*', '', out)
    return None

def clauses(t):
    c = {'reduction': {}, 'private': set(), 'nowait': bool(re.search(r'\bnowait\b', t)), 'collapse': None}
    for m in re.finditer(r'\breduction\s*\(\s*([^:()]+?)\s*:\s*([^()]*)\)', t):
        for v in m.group(2).split(','): c['reduction'][v.strip()] = m.group(1).strip()
    for m in re.finditer(r'\b(private|firstprivate|lastprivate)\s*\(([^()]*)\)', t):
        for v in m.group(2).split(','): c['private'].add(v.strip())
    m = re.search(r'\bcollapse\s*\(\s*(\w+)\s*\)', t)
    if m: c['collapse'] = m.group(1)
    return c

class Monitor:
    def __init__(self, X):
        self.X = X; self.stop = 0; self.seen = []; self.region = None; self.silent = 0; self.out = []; self.regions = 0
    # ------------------------------------------------------------ structure
    def enter(self, C, kind, text):
        """returns a token for leave(); raises ValueError for constructs outside the rules"""
        cl = clauses(text)
        r = self.region
        self.seen.append((C.tu.name if C is not None else '', kind, text.strip()))
        if kind in ('OMPParallelDirective', 'OMPParallelForDirective'):
            if r is not None: raise ValueError('nested parallel region')
            r = self.region = Region(); self.regions += 1
            r.frames = {}; f = C
            while f is not None: r.frames[id(f.frame)] = f.frame; f = f.parent
            r.made = {}; r.acc = []; r.phase = 0; r.ws = None; r.crit = 0; r.red = {}; r.priv = set(); r.text = text.strip(); r.wsn = 0
            r.declared = set()
        if kind in ('OMPParallelForDirective', 'OMPForDirective'):
            if r is None: raise ValueError('work-sharing loop outside a parallel region')
            if r.ws is not None: raise ValueError('nested work-sharing loop')
            r.wsn += 1
            r.ws = {'id': r.wsn, 'depth': len(self.X.loopctx), 'n': 1 if cl['collapse'] is None else 2, 'var': None, 'nowait': cl['nowait'] or kind == 'OMPParallelForDirective'}
        elif kind in ('OMPCriticalDirective', 'OMPAtomicDirective'):
            if r is not None: r.crit += 1
        elif kind == 'OMPBarrierDirective':
            if r is not None: r.phase += 1
        elif kind != 'OMPParallelDirective': raise ValueError(kind)
        if r is not None:
            for v, op in cl['reduction'].items(): r.red[v] = (op, kind)
            r.priv |= cl['private']
        return kind
    def leave(self, kind):
        r = self.region
        if r is None: return
        if kind in ('OMPCriticalDirective', 'OMPAtomicDirective'): r.crit -= 1
        if kind in ('OMPForDirective', 'OMPParallelForDirective'):
            if r.ws['var'] is None and not r.ws.get('empty'): r.ws_bad = True
            nw = r.ws['nowait']; r.ws = None
            if not nw: r.phase += 1
        if kind in ('OMPParallelDirective', 'OMPParallelForDirective'):
            self.region = None; self.judge(r)
            if self.stop and self.regions >= self.stop: raise RegionDone()
    def manual(self, frames, var, red=(), text=''):
        """a function called from a work-sharing loop: its frame condition"""
        r = self.region = Region(); self.regions += 1
        r.frames = {id(f): f for f in frames}; r.made = {}; r.acc = []; r.phase = 0; r.crit = 0; r.red = {v: ('+', 'ws') for v in red}; r.priv = set(); r.text = text; r.wsn = 1
        r.ws = {'id': 1, 'depth': -1, 'n': 1, 'var': var, 'nowait': True}
    def finish(self):
        r = self.region; self.region = None
        if r is not None: self.judge(r)
    def loop(self, g):
        r = self.region
        if r is not None and r.ws is not None and len(self.X.loopctx) == r.ws['depth'] and r.ws['var'] is None: r.ws['var'] = g
    def made(self, o):
        if self.region is not None: self.region.made[id(o)] = o
    # ------------------------------------------------------------ accesses
    def key(self, lv):
        """(key, name, private?) of the root variable"""
        t = type(lv).__name__
        if t == 'FieldLV':
            r = self.region
            return ('f', id(lv.o), lv.k), ((lv.o.name+'.') if lv.o.name else '')+lv.k, id(lv.o) in r.made
        if t == 'VarLV':
            nm = self.X.__dict__.get('frame_names', {}).get(lv.k, str(lv.k))
            return ('v', id(lv.d), lv.k), nm, id(lv.d) not in self.region.frames
        if t == 'ElemLV': return self.key(lv.vlv)
        return None, None, True
    def acc(self, kind, lv, idx=None, delta=None, val=None):
        r = self.region
        if r is None or self.silent: return
        k, nm, priv = self.key(lv)
        if k is None: return
        if kind == 'r' and idx is None and type(lv).__name__ in ('FieldLV', 'VarLV'):
            v = (lv.o.f if type(lv).__name__ == 'FieldLV' else lv.d).get(lv.k)
            if type(v).__name__ in ('VecVal', 'ObjVal'): return
        ws = r.ws
        own = None
        if idx is not None and ws is not None and ws['var'] is not None:
            if ws['n'] == 1: own = self.X.own_index(idx, ws['var'])
            else:
                f = self.X.cfg.__dict__.get('own_index'); own = bool(f and f(self.X, idx))
        r.acc.append((kind, k, nm, priv, idx, r.phase, ws['id'] if ws else None, r.crit > 0, own, delta, bool(ws and ws['var'] is None), val))
    # ------------------------------------------------------------ verdict
    def linear_private(self, d):
        """every term contains exactly one thread-private accumulated sum, to the first power"""
        comps = d.e if hasattr(d, 'e') else [d]
        for p in comps:
            if not isinstance(p, tm.Poly): return False
            for m, c in p.d.items():
                n = 0
                for a, e in m:
                    at = tm._atoms[a]
                    nm = str(at.name)
                    b = nm if nm in self.X.scat else nm.rsplit('.', 1)[0]
                    if b in self.X.scat or 'after.' in nm or '%h' in nm:
                        n += e
                if n != 1: return False
        return True
    def judge(self, r):
        out = []
        tag = r.text; self.allacc = getattr(self, 'allacc', []) + r.acc
        by = {}
        for a in r.acc: by.setdefault((a[1], a[5]), []).append(a)
        # private accumulators read in critical sections
        merged = {a[1] for a in r.acc if a[3] and a[7] and a[0] == 'r'}
        for (k, ph), L in by.items():
            nm = L[0][2]; priv = L[0][3]
            W = [a for a in L if a[0] == 'w']
            short = nm.split('.')[-1]
            red = r.red.get(nm); 
            if red or nm in r.priv:
                if red:
                    bad = [a for a in W if a[6] is None and not a[7]]
                    out.append(('reduction variable %s is updated by work-sharing loops only' % nm, not bad, tag))
                continue
            if priv:
                if k in merged:
                    bad = [a for a in W if a[6] is None and not a[7] and not a[10]]
                    out.append(('thread-private accumulator %s is filled by work-sharing loops only' % nm, not bad, tag))
                continue
            if not W: continue
            wn = [a for a in W if not a[7]]; wc = [a for a in W if a[7]]
            if wn:
                bad = [a for a in wn if a[4] is None]
                if bad:
                    # an error flag: every writer stores the same constant and nobody reads it meanwhile
                    vs = [a[11].const() if isinstance(a[11], tm.Poly) else a[11] if isinstance(a[11], bool) else None for a in W]
                    flag = None not in vs and len(set(vs)) == 1 and not any(a[0] == 'r' for a in L)
                    out.append(('shared %s is written by one thread at a time, or only ever set to one constant' % nm, flag, tag)); continue
                bad = [a for a in wn if not a[8]]
                out.append(('shared %s is written only at the element of the iteration' % nm, not bad, tag + (' index %r' % (bad[0][4],) if bad else '')))
                if bad: continue
                i0 = wn[0][4]
                oth = [a for a in L if a[4] is None or not (a[4]-i0).is_zero()]
                oth = [a for a in oth if not (a[4] is None and a[0] == 'r')]
                out.append(('no other element of %s is accessed while it is written' % nm, not oth, tag + (' index %r' % (oth[0][4],) if oth else '')))
                out.append(('%s is not updated under mutual exclusion and without it in one phase' % nm, not any(a[7] for a in L), tag))
                if len(set(a[6] for a in L)) > 1: out.append(('%s is written in one work-sharing loop per phase' % nm, False, tag))
            if wc:
                out.append(('%s is accessed under mutual exclusion only' % nm, not any(not a[7] for a in L), tag))
                for a in wc:
                    out.append(('%s is merged by adding thread-private sums' % nm, a[9] is not None and self.linear_private(a[9]), tag + (' increment %r' % (a[9],))[:200]))
        if getattr(r, 'ws_bad', False): out.append(None)
        self.out += out
