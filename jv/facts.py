"""Parses the translation units of /repo and merges their resolved syntax trees."""
from . import terms
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, time, shutil, fcntl, hashlib

ROOT = os.environ.get('JALI_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DUMP = os.path.join(VERIF, 'tool/bin/jalidump')

FLAGS = ['-std=c++11', '-DNDEBUG', '-DJali_HAVE_METIS', '-DJali_HAVE_ZOLTAN', '-DOMPI_SKIP_MPICXX'] + \
    ['-I%s/src/%s' % (ROOT, d) for d in ('mesh', 'mesh/mesh_simple', 'mesh/mesh_factory', 'geometry',
                                         'error_handling', 'statemanager')] + \
    ['-isystem', '/usr/include/trilinos', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
     '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']

GROUPS = {
    'mesh': ['src/mesh/Mesh.cc', 'src/mesh/MeshTile.cc', 'src/mesh/MeshSet.cc', 'src/mesh/block_partition.cc'],
    'simple': ['src/mesh/mesh_simple/Mesh_simple.cc'],
    'factory': ['src/mesh/mesh_factory/MeshFactory.cc'],
    'geometry': ['src/geometry/' + f for f in (
        'Geometry.cc', 'Region.cc', 'BoxRegion.cc', 'PlaneRegion.cc', 'PolygonRegion.cc', 'PointRegion.cc',
        'LogicalRegion.cc', 'LabeledSetRegion.cc', 'GeometricModel.cc', 'Domain.cc')],
    'error': ['src/error_handling/errors.cc', 'src/error_handling/exceptions.cc'],
    'state': ['src/statemanager/JaliState.cc', 'src/statemanager/JaliStateVector.cc'],
}
WITNESS = {'mesh_w': os.path.join(VERIF, 'witness/mesh_witness.cc'),
           'state_w': os.path.join(VERIF, 'witness/state_witness.cc')}


class AnalysisError(Exception):
    pass


class Broken(AnalysisError):
    """the source itself does what no correct source does (asks for an entity that does not exist, never ends)"""


def ensure_tool():
    if os.path.exists(DUMP): return
    os.makedirs(os.path.dirname(DUMP), exist_ok=True)
    with open(DUMP + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(DUMP):
            r = subprocess.run(['bash', os.path.join(VERIF, 'tool/build.sh'), DUMP], capture_output=True, text=True)
            if r.returncode: raise AnalysisError('cannot build the dumper: ' + r.stderr[-2000:])


class Facts:
    def __init__(self):
        self.funcs, self.classes, self.enums, self.globals, self.patterns = {}, {}, {}, {}, {}
        self.tus = []
        self.by_qn = {}
        self.decls = {}

    def add(self, j, tag):
        self.tus.append(j['tu'])
        for f in j['functions']:
            f['tu'] = tag
            if f['usr'] not in self.funcs: self.funcs[f['usr']] = f
        for c in j['classes']: self.classes.setdefault(c['t'], c)
        for e in j['enums']: self.enums.setdefault(e['qn'], e)
        for g in j['globals']:
            g['tu'] = tag
            k = (g['qn'], g['file'], g['line'])
            self.globals.setdefault(k, g)
        for p in j['patterns']: self.patterns.setdefault(p['usr'], p)

    def done(self):
        for f in self.funcs.values(): self.by_qn.setdefault(f['qn'], []).append(f)
        self.overridden = set()
        for f in self.funcs.values():
            for o in f.get('overrides', []): self.overridden.add(o)
        for c in self.classes.values():
            for m in c['methods']:
                self.decls[m['usr']] = (c, m)
                for o in m.get('overrides', []): self.overridden.add(o)
        self.class_by_qn = {}
        for c in self.classes.values(): self.class_by_qn.setdefault(c['qn'], c)
        for c in self.classes.values():
            for x in c['fields']:
                m = re.match(r'^[^\[]*\[(\d+)\]$', x['t'])
                if m:
                    for k in (c['qn'], c['t']): terms.ARRAYS[k + '::' + x['n']] = int(m.group(1))

    # lookups ------------------------------------------------------------------
    def fn(self, qn, **kw):
        l = self.fns(qn, **kw)
        if len(l) != 1: raise AnalysisError('anchor %s %s: %d definitions found' % (qn, kw, len(l)))
        return l[0]

    def fns(self, qn, nparams=None, targs=None, kind=None, has_param=None, const=None):
        out = []
        for f in self.by_qn.get(qn, []):
            if nparams is not None and len(f['params']) != nparams: continue
            if targs is not None and f.get('targs') != targs: continue
            if kind is not None and f['kind'] != kind: continue
            if has_param and not any(has_param in p['t'] for p in f['params']): continue
            if const is not None and bool(f.get('const')) != const: continue
            out.append(f)
        return out

    def cls(self, qn):
        c = self.class_by_qn.get(qn)
        if not c: raise AnalysisError('class %s not found' % qn)
        return c

    def enum(self, qn):
        e = self.enums.get(qn)
        if not e: raise AnalysisError('enum %s not found' % qn)
        return {x['n']: x['v'] for x in e['e']}

    def bases(self, cls):
        """transitive repo bases of a class type"""
        out = []
        c = self.classes.get(cls) or self.class_by_qn.get(cls)
        for b in (c or {}).get('bases', []):
            out.append(b)
            out += self.bases(b)
        return out

    def overrider(self, cls, usr):
        """the function a virtual call of usr on an object of exactly this class runs"""
        for c in [cls] + self.bases(cls):
            for m in (self.classes.get(c) or {}).get('methods', []):
                if m['usr'] == usr or usr in self.overrides_of(m): return self.funcs.get(m['usr'])
        return None

    def overrides_of(self, m, d=0):
        out = set(m.get('overrides', []))
        for u in list(out):
            x = self.decls.get(u)
            if x and d < 6: out |= self.overrides_of(x[1], d + 1)
        return out

    def is_a(self, cls, base):
        """None: class not known"""
        if cls not in self.classes: return None
        return cls == base or base in self.bases(cls)


def _dump(args):
    out, f, flags = args
    r = subprocess.run([DUMP, out, ROOT + '/src,' + VERIF + '/witness', f, '--'] + flags,
                       capture_output=True, text=True, cwd=os.path.dirname(out))
    if not os.path.exists(out): raise AnalysisError('parsing %s failed: %s' % (f, r.stderr[-1500:]))
    return out, r.stderr


def load(groups, extra=()):
    ensure_tool()
    tmp = tempfile.mkdtemp(prefix='jaliverif.')
    try:
        jobs = []
        for g in groups:
            if g in WITNESS: files = [WITNESS[g]]
            else: files = [os.path.join(ROOT, f) for f in GROUPS[g]]
            for f in files:
                if not os.path.exists(f): raise AnalysisError('source file %s is missing' % f)
                jobs.append((os.path.join(tmp, '%d.json' % len(jobs)), f, FLAGS))
        for f in extra: jobs.append((os.path.join(tmp, '%d.json' % len(jobs)), f, FLAGS))
        F = Facts()
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_dump, jobs))
        for (out, err), (o, f, _) in zip(res, jobs):
            j = json.load(open(out))
            if j['errors']:
                raise AnalysisError('%s does not compile: %s' % (f, err[-1500:]))
            F.add(j, f)
        F.done()
        return F
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
