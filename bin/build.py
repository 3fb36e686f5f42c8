"""Content-addressed, parallel build of everything a check needs, from /repo's working tree."""
import glob, hashlib, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'
CLANG = LLVM + '/bin/clang++'
JOBS = 8
DEFS = ['-DSIZEOF_VOID_P=8', '-DMFAST_STATIC_DEFINE']
BCFLAGS = ['-std=gnu++17', '-I' + REPO + '/src', '-I' + VERIF + '/harness'] + DEFS + [
    '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
    '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c', '-w', '-fno-builtin-strlen']
NATFLAGS = ['-std=gnu++17', '-I' + REPO + '/src', '-I' + VERIF + '/harness'] + DEFS + [
    '-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-c']
PASSES = 'internalize,globaldce,function(mem2reg,sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,dce),globaldce'

class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f: return f.read()

_run_sem = threading.Semaphore(JOBS)
def run(cmd, cwd=None, env=None, timeout=600):
    with _run_sem:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout

def cached(kind, key, ext, make):
    """file OUT/kind/key+ext, produced atomically by make(tmp)"""
    d = os.path.join(OUT, kind); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, key + ext)
    if os.path.exists(f): return f
    tmp = os.path.join(d, '%s.%d.%d.tmp%s' % (key, os.getpid(), threading.get_ident(), ext))
    make(tmp)
    os.replace(tmp, f)
    return f

class Builder:
    def __init__(self):
        self.pool = ThreadPoolExecutor(300)
        self.memo = {}
        self.lock = threading.Lock()
        hs = []
        for r, _, fs in os.walk(REPO + '/src'):
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.inl', '.ipp')): hs.append(os.path.join(r, f))
        hs.sort()
        self.repo_hdr = sha(*[x for h in hs for x in (h, read(h))])
        self.har_hdr = sha(*[x for h in sorted(glob.glob(VERIF + '/harness/*.h')) for x in (h, read(h))])
        self.tool = sha(' '.join(BCFLAGS + NATFLAGS), PASSES)

    def fut(self, name, fn, *a):
        with self.lock:
            if name not in self.memo: self.memo[name] = self.pool.submit(fn, *a)
            return self.memo[name]

    # ---- engine
    def _engine(self):
        srcs = sorted(glob.glob(VERIF + '/symx/*'))
        key = sha(*[read(s) for s in srcs])
        def make(tmp):
            d = tmp + '.d'; os.makedirs(d)
            def cc(f):
                o = os.path.join(d, f + '.o')
                if f == 'translate': run([CLANG, '-O1', '-std=c++17', '-I' + LLVM + '/include', '-w', '-c', VERIF + '/symx/translate.cpp', '-o', o])
                else: run(['g++', '-O2', '-std=c++17', '-w', '-c', VERIF + '/symx/%s.cpp' % f, '-o', o])
                return o
            objs = list(self.pool.map(cc, ['translate', 'exec', 'expr', 'solver', 'main']))
            run(['g++'] + objs + ['-o', tmp, '-L' + LLVM + '/lib', '-lLLVM-18', '-lz3'])
            shutil.rmtree(d)
        return cached('engine', key, '.bin', make)
    def engine(self): return self.fut('engine', self._engine)

    # ---- objects
    def core_sources(self, xml=False):
        g = []
        dirs = ['mfast', 'mfast/instructions', 'mfast/coder/*', 'mfast/json'] + (['mfast/xml_parser', 'fast_type_gen'] if xml else [])
        for d in dirs: g += sorted(glob.glob(REPO + '/src/' + d + '/*.cpp'))
        return g
    def _obj(self, src, native, inc, extrakey, defs=()):
        flags = (NATFLAGS if native else BCFLAGS) + list(defs) + (['-I' + i for i in inc])
        key = sha(self.tool, self.repo_hdr, src, read(src), extrakey, str(native), ' '.join(defs))
        ext = '.o' if native else '.bc'
        return cached('obj', key, ext, lambda tmp: run([('g++' if native else CLANG)] + flags + [src, '-o', tmp]))
    def obj(self, src, native, inc=(), extrakey='', defs=()):
        return self.fut(('obj', src, native, extrakey, tuple(defs)), self._obj, src, native, tuple(inc), extrakey, tuple(defs))

    # ---- the real fast_type_gen, built natively from the tree
    def _gentool(self, xetra):
        defs = ['-DXETRA_FAST_SPECIFICATION'] if xetra else []
        srcs = sorted(glob.glob(REPO + '/src/mfast/*.cpp') + glob.glob(REPO + '/src/mfast/instructions/*.cpp') +
                      glob.glob(REPO + '/src/mfast/xml_parser/*.cpp') + glob.glob(REPO + '/src/fast_type_gen/*.cpp') + glob.glob(REPO + '/src/mfast/coder/common/*.cpp'))
        key = sha('gentool3', self.repo_hdr, *([x for s in srcs for x in (s, read(s))] + defs))
        def make(tmp):
            d = tmp + '.d'; os.makedirs(d)
            def cc(s):
                o = os.path.join(d, sha(s) + '.o')
                run(['g++', '-std=gnu++17', '-I' + REPO + '/src'] + DEFS + defs + ['-O0', '-w', '-c', s, '-o', o])
                return o
            objs = list(self.pool.map(cc, srcs))
            run(['g++'] + objs + ['-o', tmp, '-ltinyxml2'])
            shutil.rmtree(d)
        return cached('gentool', key, '.bin', make)
    def gentool(self, xetra=False): return self.fut(('gentool', xetra), self._gentool, xetra)

    # ---- templates: XML + spec from our generator, types from the real generator
    def _templates(self):
        g = VERIF + '/templates'
        key = sha(*[x for f in sorted(glob.glob(g + '/*')) if os.path.isfile(f) for x in (f, read(f))])
        def make(tmp):
            run([sys.executable, g + '/gen.py', tmp])
            for f in glob.glob(g + '/*.xml') + glob.glob(g + '/*.h'): shutil.copy(f, tmp)
        return cached('tpl', key, '.dir', make)
    def _genset(self, setname):
        tpl = self.fut('tpl', self._templates)
        tool = self.gentool(setname.startswith('x_')).result()
        tpl = tpl.result()
        xml = os.path.join(tpl, setname + '.xml')
        sp = os.path.join(tpl, 'spec_' + setname + '.h')
        key = sha(setname, read(tool), read(xml), read(sp) if os.path.exists(sp) else '')
        def make(tmp):
            os.makedirs(tmp)
            shutil.copy(xml, tmp)
            if os.path.exists(sp): shutil.copy(sp, tmp)
            run([tool, '-I.', setname + '.xml'] if False else [tool, setname + '.xml'], cwd=tmp, timeout=60)
        return cached('gen', key, '.dir', make), key
    def genset(self, s): return self.fut(('gen', s), self._genset, s)

    # ---- harness programs
    def sets_of(self, h):
        m = re.search(r'^// SETS:(.*)$', read(VERIF + '/harness/h_%s.cpp' % h).decode(), re.M)
        return m.group(1).split() if m else []
    def extra_of(self, h):
        m = re.search(r'^// SRC:(.*)$', read(VERIF + '/harness/h_%s.cpp' % h).decode(), re.M)
        r = []
        for g in (m.group(1).split() if m else []): r += sorted(glob.glob(REPO + '/src/' + g))
        return r
    def models_of(self, h):
        m = re.search(r'^// MODELS:(.*)$', read(VERIF + '/harness/h_%s.cpp' % h).decode(), re.M)
        return m.group(1).split() if m else []
    def objects(self, h, native):
        sets = self.sets_of(h)
        core = [self.obj(s, native) for s in self.core_sources() + self.extra_of(h)]
        if not native: core += [self.obj(VERIF + '/harness/%s.cpp' % m, native, (), self.har_hdr, ('-fno-access-control',) if m == 'models_io' else ()) for m in ['models', 'models_c'] + self.models_of(h)]
        else: core += [self.obj(VERIF + '/harness/replay.cpp', native, (), self.har_hdr)]
        gens = [self.genset(s) for s in sets]
        gens = [g.result() for g in gens]
        inc = [g[0] for g in gens]; k = sha(*[g[1] for g in gens])
        objs = [self.obj(VERIF + '/harness/h_%s.cpp' % h, native, inc, self.har_hdr + k)]
        for (d, gk), s in zip(gens, sets): objs.append(self.obj(os.path.join(d, s + '.cpp'), native, [d], gk))
        return [o.result() for o in objs + core]
    def entries(self, h):
        return None
    def _prog(self, h, entries):
        objs = self.objects(h, False)
        key = sha(self.tool, *[os.path.basename(o) for o in objs], *entries)
        def make(tmp):
            a = tmp + '.all'
            run([LLVM + '/bin/llvm-link'] + objs + ['-o', a])
            run([LLVM + '/bin/opt', '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(list(entries) + ['symx_throw_bad_alloc', 'symx_snprintf']), a, '-o', tmp])
            os.remove(a)
        return cached('prog', key, '.bc', make)
    def prog(self, h, entries): return self.fut(('prog', h, tuple(entries)), self._prog, h, entries)
    def _native(self, h):
        objs = self.objects(h, True)
        key = sha(self.tool, *[os.path.basename(o) for o in objs])
        return cached('native', key, '.bin', lambda tmp: run(
            ['g++', '-fsanitize=address', '-rdynamic', '-Wl,--wrap=malloc,--wrap=free,--wrap=realloc', '-o', tmp] + objs + ['-ldl']))
    def native(self, h): return self.fut(('native', h), self._native, h)
