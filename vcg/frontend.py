"""Front end: the AST of /repo's current sources, as clang sees them.

The tree /repo/src is copied to a scratch directory; the only textual change is
in tools.hpp (SPLINEDEG replaced by the degree under verification, any
'#define THREEDIM' removed in favour of -DTHREEDIM).  Third-party headers that are
not in the tree (tinyply, the Poisson sampler, omp.h) are replaced by stubs.
Each .cpp is wrapped in 'namespace VREPO {}' so that one filtered dump holds every
declaration of the repository and nothing else.
"""
import json, os, re, shutil, subprocess, tempfile, glob, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VREPO_DIR', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'

class FrontendError(Exception): pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vcg_')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def copy_tree(dst, spline=2):
    """mechanical extraction: copies /repo/src, sets SPLINEDEG, strips '#define THREEDIM'"""
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'), dirs_exist_ok=True)
    shutil.copytree(os.path.join(HERE, 'stubs', 'deps'), os.path.join(dst, 'deps'), dirs_exist_ok=True)
    for root, _, fs in os.walk(os.path.join(dst, 'src')):
        for f in fs:
            fn = os.path.join(root, f)
            if not f.endswith(('.hpp', '.h', '.cpp')): continue
            s = open(fn, errors='replace').read()
            s2 = re.sub(r'(?m)^([ \t]*#[ \t]*define[ \t]+SPLINEDEG[ \t]+)\d+', r'\g<1>%d' % spline, s)
            s2 = re.sub(r'(?m)^[ \t]*#[ \t]*define[ \t]+THREEDIM\b.*$', '// (THREEDIM set on the command line)', s2)
            if s2 != s: open(fn, 'w').write(s2)
    return dst

PRE = '''#include <bits/stdc++.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <assert.h>
#include <omp.h>
#include <Eigen/Core>
#include <Eigen/Dense>
'''

def _flags():
    return ['-std=c++17', '-fopenmp', '-w', '-I' + os.path.join(HERE, 'stubs', 'inc'), '-isystem', '/usr/include/eigen3', '-DSRC_DIR="x"']

_pch = {}
def pch():
    if 'p' not in _pch:
        d = scratch(); h = os.path.join(d, 'pre.hpp'); open(h, 'w').write(PRE)
        o = os.path.join(d, 'pre.pch')
        r = subprocess.run([CLANG] + _flags() + ['-x', 'c++-header', h, '-o', o], capture_output=True, text=True)
        if r.returncode: raise FrontendError('pch: ' + r.stderr[-2000:])
        _pch['p'] = o
    return _pch['p']

def _strip(n):
    """drop bulky location info we do not need, keep begin offset/line"""
    return n

class TU:
    def __init__(self, name, roots, tree):
        self.name = name; self.tree = tree
        self.decl = {}       # id -> node
        self.parent = {}     # decl id -> enclosing record name
        self._curfile = None
        for r in roots: self.index(r, ())
    def index(self, n, ctx):
        st = [(n, ctx)]
        while st:
            n, ctx = st.pop()
            if not isinstance(n, dict): continue
            k = n.get('kind')
            if k and k.endswith('Decl') and 'id' in n:
                if n['id'] not in self.decl or n.get('inner'):
                    self.decl[n['id']] = n
                n['_ctx'] = ctx
            c2 = ctx
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('name'):
                c2 = ctx + (n['name'],)
            for c in n.get('inner', ()):
                st.append((c, c2))

class Program:
    """all functions/classes of one variant (dim, spline)"""
    def __init__(self, dim, spline=2, only=None):
        self.dim = dim; self.spline = spline
        self.funcs = {}      # mangledName -> (TU, node with body)
        self.byname = {}     # 'Class::name' or 'name' -> [mangled]
        self.records = {}    # name -> node (complete)
        self.enums = {}      # enumconstant name (qualified Type::name) -> int
        self.enumtypes = {}
        self.errors = []
        self.tus = []
        self.load(only)
    def load(self, only):
        d = os.path.join(scratch(), 'd%d_s%d' % (self.dim, self.spline))
        self.dir = d
        if not os.path.isdir(d): copy_tree(d, self.spline)
        srcs = sorted(glob.glob(os.path.join(d, 'src', 'simulation', '*.cpp')))
        jobs = []; self.srcs = srcs; self.sought = set()
        for s in srcs:
            b = os.path.basename(s)[:-4]
            if only is not None and b not in only: continue
            jobs.append((b, 'namespace VREPO {\n#include "%s"\n}\n' % s))
        if only is None or 'headers' in only:
            hs = []
            for g in ('objects', 'sampling', 'plasticity_helpers'):
                for h in sorted(glob.glob(os.path.join(d, 'src', g, '*.hpp'))):
                    if 'vdb' in os.path.basename(h): continue
                    hs.append('#include "%s"' % h)
            t = 'namespace VREPO {\n#include "%s/src/simulation/simulation.hpp"\n%s\n' % (d, '\n'.join(hs))
            t += 'void vrepo_instantiate(Simulation& s){ regularSampleParticles(s); sampleParticles(s, T(1)); }\n}\n'
            jobs.append(('headers', t))
        if only is not None and 'vdb' in only:
            # samplers of level sets: the level-set class itself (OpenVDB) enters by its contract only
            hs = ['#include "%s"' % h for h in sorted(glob.glob(os.path.join(d, 'src', 'sampling', '*vdb*.hpp')))]
            t = 'namespace VREPO {\n#include "%s/src/simulation/simulation.hpp"\n#include "%s/src/objects/object_general.hpp"\n#define VDB_OBJ_H\nclass ObjectVdb : public ObjectGeneral { public: bool inside(const TV& X_in) const override; TV normal(const TV& X_in) const override; void bounds(TV& min_bbox, TV& max_bbox) const; };\n%s\n' % (d, d, '\n'.join(hs))
            t += 'void vrepo_instantiate_vdb(Simulation& s, ObjectVdb& o){ regularSampleParticlesFromVdb(s, o); sampleParticlesFromVdb(s, o, T(1)); }\n}\n'
            jobs.append(('vdb', t))
        self.parse(jobs)
    def load_defining(self, name):
        """parse, on demand, the translation unit that defines a function the loaded ones only declare"""
        if not name or name in self.sought: return
        self.sought.add(name)
        have = set(t.name for t in self.tus) | set(b for b, _ in self.errors)
        for s in self.srcs:
            b = os.path.basename(s)[:-4]
            if b in have: continue
            if re.search(r'\b%s\s*\([^;{]*\)\s*(const\s*)?\{' % re.escape(name), open(s).read()):
                self.parse([(b, 'namespace VREPO {\n#include "%s"\n}\n' % s)]); have.add(b)
    def parse(self, jobs):
        p = pch(); d = self.dir
        def run(job):
            b, txt = job
            fn = os.path.join(d, 'tu_%s.cpp' % b); open(fn, 'w').write(txt)
            cmd = [CLANG] + _flags() + (['-DTHREEDIM'] if self.dim == 3 else []) + ['-include-pch', p, '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=VREPO', fn]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: return b, None, r.stderr[-1500:]
            return b, r.stdout, None
        with ThreadPoolExecutor(8) as ex:
            for b, out, err in ex.map(run, jobs):
                if err is not None:
                    self.errors.append((b, err)); continue
                dec = json.JSONDecoder(); i = 0; roots = []; n = len(out)
                while True:
                    while i < n and out[i].isspace(): i += 1
                    if i >= n: break
                    o, i = dec.raw_decode(out, i)
                    roots.append(o)
                tu = TU(b, roots, d); self.tus.append(tu)
                self.collect(tu)
    def collect(self, tu):
        for did, n in tu.decl.items():
            k = n['kind']
            if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                body = any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ()) if isinstance(c, dict))
                if body:
                    m = n.get('mangledName') or n.get('name')
                    if m not in self.funcs:
                        self.funcs[m] = (tu, n)
                        q = self.qual(tu, n)
                        self.byname.setdefault(q, []).append(m)
            elif k == 'CXXRecordDecl' and n.get('completeDefinition') and n.get('name'):
                self.records.setdefault(n['name'], (tu, n))
            elif k == 'EnumDecl':
                v = 0
                for c in n.get('inner', ()):
                    if c.get('kind') == 'EnumConstantDecl':
                        for x in c.get('inner', ()):
                            if x.get('kind') == 'ConstantExpr' and 'value' in x: v = int(x['value'])
                        self.enums[(n.get('name'), c['name'])] = v
                        self.enums[c['name']] = v
                        c['_enumval'] = v
                        v += 1
                self.enumtypes[n.get('name')] = v
    def qual(self, tu, n):
        ctx = n.get('_ctx') or ()
        if not ctx and 'parentDeclContextId' in n:
            pd = tu.decl.get(n['parentDeclContextId'])
            if pd is not None and pd.get('name') and pd['kind'] == 'CXXRecordDecl': ctx = (pd['name'],)
        if not ctx and 'previousDecl' in n:
            pd = tu.decl.get(n['previousDecl'])
            if pd is not None: ctx = pd.get('_ctx') or ()
        return '::'.join(ctx + (n['name'],))
    def find(self, qname):
        ms = self.byname.get(qname)
        if not ms: raise FrontendError('function %s not found in the tree' % qname)
        return self.funcs[ms[0]]
