"""Shared machinery of the checks: building the code under test, running TLC, reporting.

Everything a check needs is built from /repo's current working tree into /verif/.cache (content-addressed), so
that a check works in a fresh copy of /verif and never uses stale products.
"""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FFV_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = os.cpu_count() or 4

class InfraError(Exception):
    """The check could not do its work (tool failure): reported with exit code 2, never as a violation."""

def sh(cmd, cwd=None, timeout=None, env=None, inp=None):
    e = dict(os.environ)
    if env: e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as t:
        return -999, (t.stdout or b'').decode('utf8', 'replace'), (t.stderr or b'').decode('utf8', 'replace')

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def pmap(f, xs, n=NCPU):
    xs = list(xs)
    with ThreadPoolExecutor(max_workers=max(1, n)) as ex: return list(ex.map(f, xs))

# ------------------------------------------------------------------------------------------------ build
FLAVORS = {
    'default': dict(flags=['-DDEFAULT'], cfg=dict(DEFAULT=1), libs=[]),
    'flint':   dict(flags=['-DFLINT', '-I/usr/include/flint'], cfg=dict(FLINT=1), libs=['-lflint']),
    'custom':  dict(flags=['-DCUSTOM'], cfg=dict(CUSTOM=1), libs=[]),
    'mpi':     dict(flags=['-DDEFAULT', '-DWITH_MPI'], cfg=dict(DEFAULT=1, MPI=1), libs=[], mpi=True),
}
OPT = ['-O1', '-g0', '-std=gnu++14', '-pthread', '-w']

def mpi_flags():
    c = sh(['mpicxx', '--showme:compile'])[1].split()
    l = sh(['mpicxx', '--showme:link'])[1].split()
    return c, l

_hh = None
def headers_hash():
    global _hh
    if _hh is None:
        fs = sorted(glob.glob(REPO + '/source/include/**/*', recursive=True))
        _hh = digest(*[f.encode() + b'\1' + rd(f) for f in fs if os.path.isfile(f)])
    return _hh

_gi, _gl = {}, threading.Lock()
def gen_include(flavor):
    with _gl:
        if flavor not in _gi: _gi[flavor] = gen_include_(flavor)
        return _gi[flavor]

def gen_include_(flavor):
    d = os.path.join(CACHE, 'inc-' + flavor, 'firefly')
    os.makedirs(d, exist_ok=True)
    cfg = FLAVORS[flavor]['cfg']
    txt = rd(REPO + '/source/include/firefly/config.hpp.in').decode()
    for k in ('FLINT', 'DEFAULT', 'CUSTOM', 'MPI'): txt = txt.replace('@%s_FLAG@' % k, str(cfg.get(k, 0)))
    ver = rd(REPO + '/source/include/firefly/version.hpp.in').decode()
    m = re.search(rb'VERSION\s+(\d+)\.(\d+)\.(\d+)', rd(REPO + '/CMakeLists.txt'))
    v = [x.decode() for x in m.groups()] if m else ['2', '0', '3']
    for k, x in zip(('MAJOR', 'MINOR', 'PATCH'), v): ver = ver.replace('@PROJECT_VERSION_%s@' % k, x)
    for n, t in (('config.hpp', txt), ('version.hpp', ver)):
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + '.%d' % os.getpid(), 'w') as f: f.write(t)
            os.rename(p + '.%d' % os.getpid(), p)
    return os.path.dirname(d)

def cflags(flavor):
    f = FLAVORS[flavor]
    r = OPT + ['-I' + gen_include(flavor), '-I' + REPO + '/source/include', '-I' + HARNESS, '-DFIREFLY_ROOT_DIR="%s"' % REPO] + f['flags']
    if f.get('mpi'): r += mpi_flags()[0]
    return r

def compile_obj(src, flavor, extra=()):
    """returns (path of the object, None) or raises InfraError with the compiler's message"""
    fl = cflags(flavor) + list(extra)
    hh = digest(*[rd(x) for x in sorted(glob.glob(HARNESS + '/*.hpp'))]) if src.startswith(VERIF) else ''
    key = digest(rd(src), headers_hash(), hh, ' '.join(fl), os.path.basename(src))
    out = os.path.join(CACHE, 'obj', key + '.o')
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d.%d' % (os.getpid(), random.getrandbits(30))
    rc, o, e = sh(['g++'] + fl + ['-c', src, '-o', tmp], timeout=800)
    if rc: raise InfraError('compiling %s failed:\n%s' % (src, e[-3000:]))
    os.rename(tmp, out)
    return out

def lib_objs(flavor):
    srcs = sorted(glob.glob(REPO + '/source/*.cpp'))
    return pmap(lambda s: compile_obj(s, flavor), srcs)

def symbols(objs):
    rc, o, e = sh(['nm', '--defined-only'] + objs)
    return {l.split()[-1] for l in o.splitlines() if len(l.split()) >= 3 and l.split()[-2] in 'TW'}

def build(name, srcs, flavor='default', wraps=(), extra=(), link=(), hooked=(), hook_lib=False):
    """Builds harness executable `name` from the harness sources and the library of the given flavour.
    wraps: mangled symbols; calls of those that exist in the library go through the harness's wrapper.
    hooked: harness sources in which every memory access is a preemption point (see tsanhook.cpp, which has to be linked);
    hook_lib: the same for the library. The sources of the scheduler must come first in srcs."""
    srcs = [s if s.startswith('/') else os.path.join(HARNESS, s) for s in srcs]
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        hf = [ex.submit(compile_obj, s, flavor, list(extra) + (HOOKED if os.path.basename(s) in hooked else [])) for s in srcs]
        libf = [ex.submit(compile_obj, s, flavor, HOOKED if hook_lib else ()) for s in sorted(glob.glob(REPO + '/source/*.cpp'), key=lambda f: -os.path.getsize(f))]
        objs = [f.result() for f in libf]
        hobjs = [f.result() for f in hf]
    wl = []
    if wraps:
        syms = symbols(objs)
        wl = ['-Wl,--wrap=' + w for w in wraps if w in syms]
    key = digest(*(objs + hobjs + wl + list(link)))
    out = os.path.join(CACHE, 'bin', name + '-' + key)
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    f = FLAVORS[flavor]
    libs = ['-lgmpxx', '-lgmp', '-lz', '-lpthread', '-ldl'] + f['libs'] + list(link)
    if f.get('mpi'): libs += mpi_flags()[1]
    tmp = out + '.%d' % os.getpid()
    rc, o, e = sh(['g++', '-pthread'] + hobjs + objs + wl + libs + ['-o', tmp], timeout=300)
    if rc: raise InfraError('linking %s failed:\n%s' % (name, e[-3000:]))
    os.rename(tmp, out)
    return out

HOOKED = ['-fsanitize=thread', '-Wno-tsan']
WRAPS = ['_ZN7firefly10RatReconst4feedERKSt6vectorINS_5FFIntESaIS2_EES6_RKS1_IS1_IjSaIjEESaIS8_EEj',
         '_ZN7firefly10RatReconst11interpolateEv', '_ZN7firefly10RatReconstC1Ej']

def build_recon(flavor='default'):
    return build('recon-' + flavor, ['recon.cpp', 'sched.cpp'], flavor, wraps=WRAPS)

# ------------------------------------------------------------------------------------------------ TLC
def build_java():
    srcs = sorted(glob.glob(SPEC + '/java/ffverif/*.java'))
    key = digest(*[rd(s) for s in srcs])
    d = os.path.join(CACHE, 'java-' + key)
    if os.path.exists(d + '/ok'): return d
    tmp = d + '.%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    rc, o, e = sh(['javac', '-nowarn', '-cp', TLAJARS, '-d', tmp] + srcs, timeout=120)
    if rc: raise InfraError('javac: ' + e[-2000:])
    open(tmp + '/ok', 'w').close()
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.completed = 'Model checking completed' in out or 'Finished in' in out
        self.violated = bool(re.search(r'(Invariant|property|properties|postcondition|POSTCONDITION|Assumption|Deadlock)[^\n]*(violated|is false|reached|were violated)', out)) or 'Deadlock reached' in out
        self.errors = re.findall(r'Error: ([^\n]*)', out)
    def ok(self): return self.rc == 0 and 'No error has been found' in self.out

def tlc(module, cfg=None, env=None, workers=1, heap='2g', timeout=600, simulate=None, depth=None, extra=(), deadlock=False, seed=None):
    """Runs TLC on spec/<module>.tla with configuration spec/<cfg>.cfg; returns a TlcResult."""
    jd = build_java()
    work = os.path.join(CACHE, 'tlc', '%s-%d-%x' % (module, os.getpid(), random.getrandbits(40)))
    os.makedirs(work)
    cfgp = cfg if cfg and cfg.startswith('/') else os.path.join(SPEC, (cfg or module) + '.cfg')
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % (2 if workers == 1 else 4), '-Xmx' + heap, '-Xss16m',
           '-Dtlc2.overrides.TLCOverrides=ffverif.Ov:tlc2.overrides.TLCOverrides', '-Djava.io.tmpdir=' + work, '-DTLA-Library=' + SPEC,
           '-cp', TLAJARS + ':' + jd, 'tlc2.TLC', '-metadir', work, '-noGenerateSpecTE', '-workers', str(workers), '-config', cfgp]
    if not deadlock: cmd.append('-deadlock')
    if simulate: cmd += ['-simulate', 'num=%d' % simulate]
    if depth: cmd += ['-depth', str(depth)]
    if seed is not None: cmd += ['-seed', str(seed)]
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    rc, o, e = sh(cmd, cwd=work, timeout=timeout, env=env)
    shutil.rmtree(work, ignore_errors=True)
    return TlcResult(rc, o + ('\n' + e if rc else ''), time.time() - t0)

class TraceVerdict:
    """Outcome of validating one ndjson file: ok, or the (1-based) line that no action of the specification explains."""
    def __init__(self, ok, line, why, res): self.ok, self.line, self.why, self.res = ok, line, why, res

def validate(module, trace, cfg=None, env=None, heap='3g', timeout=800):
    """Checks an ndjson trace against trace specification `module`. The specification's POSTCONDITION prints
    <<"ACCEPTED", n>> or <<"REJECTED", line, reason>>; anything else is a failure of the tool."""
    e = dict(TRACE=os.path.abspath(trace))
    if env: e.update(env)
    r = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
    m = re.search(r'<<"ACCEPTED", (\d+)>>', r.out)
    if m and r.rc == 0: return TraceVerdict(True, int(m.group(1)), '', r)
    m = re.search(r'<<\s*"REJECTED",\s*(\d+),(.*?)>>\n', r.out, re.S)
    if m:
        ws = [re.sub(r'\s+', ' ', b).strip() for a, b in re.findall(r'<<\s*"WHY",\s*(\d+),(.*?)>>\n', r.out, re.S) if a == m.group(1)]
        ws = list(dict.fromkeys(ws))
        return TraceVerdict(False, int(m.group(1)), '; '.join(ws) if ws else 'no transition of the specification allows event' + m.group(2).strip(), r)
    raise InfraError('TLC failed on %s (%s): rc=%d\n%s' % (module, trace, r.rc, r.out[-3500:]))

# ------------------------------------------------------------------------------------------------ reporting
class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.seed, self.tier = SEED, TIER
        self.thorough = TIER == 'thorough'
        self.rng = random.Random('%s/%d/%s' % (prop, SEED, TIER))
        self.cov, self.assume, self.viol, self.known_hits = {}, [], [], []
        self.samples = []
        self.work = os.path.join(CACHE, 'work', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.known = load_known(prop)
        if os.path.exists(os.path.join(CACHE, 'viol-%s.txt' % prop)): os.remove(os.path.join(CACHE, 'viol-%s.txt' % prop))
    def n(self, quick, thorough): return thorough if self.thorough else quick
    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, bool) or not isinstance(v, (int, float)): self.cov[k] = v
            else: self.cov[k] = self.cov.get(k, 0) + v
    def model(self, module, cfg=None, workers=NCPU, heap='6g', timeout=800, **kw):
        """Exhaustive exploration of a specification; it must hold (a failure is an error of the framework)."""
        r = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, **kw)
        if not r.ok(): raise InfraError('model %s does not hold:\n%s' % (cfg or module, r.out[-3000:]))
        self.add(states=r.distinct, transitions=r.generated)
        self.cov.setdefault('models', {})[cfg or module] = dict(distinct=r.distinct, generated=r.generated, depth=r.depth, wall_s=round(r.wall, 2))
        return r
    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)
    def violation(self, ident, text, files=()):
        """ident: identification of the failing input (compared with the known-findings file)"""
        for k in self.known:
            if k['ident'] == ident or (k['ident'].endswith('*') and ident.startswith(k['ident'][:-1])):
                if k not in self.known_hits:
                    self.known_hits.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']), flush=True)
                return
        d = os.path.join(VERIF, 'replay', self.prop, digest(ident, text)[:12])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'what.txt'), 'w') as f: f.write(ident + '\n' + text + '\n')
        for x in files:
            if os.path.exists(x): shutil.copy(x, d)
        self.viol.append((ident, text, d))
        with open(os.path.join(CACHE, 'viol-%s.txt' % self.prop), 'a') as f: f.write('%s | %s\n' % (ident, text[:300].replace('\n', ' ')))
        if len(self.viol) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
            print('  %s: %s' % (ident, text[:1500]), flush=True)
    def finish(self):
        cov = dict(self.cov)
        for k in ('states', 'transitions', 'traces_validated_against_impl'): cov.setdefault(k, 0)
        cov['samples'] = self.samples
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s: %s (%d violations, %.1f s) %s' % (self.prop, 'VIOLATED' if self.viol else 'held', len(self.viol), time.time() - self.t0,
              json.dumps({k: v for k, v in cov.items() if k not in ('samples', 'rule')})[:600]), flush=True)
        sys.exit(1 if self.viol else 0)

def load_known(prop):
    """known-findings.txt: 'finding: property=<id> ident=<identification> | <text>' and 'fixed: property=...' lines"""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) ident=(\S+) \| (.*)', l.strip())
            if m and m.group(1) == prop: r.append(dict(ident=m.group(2), text=m.group(3)))
    return r

def main(prop, level, fn):
    c = Check(prop, level)
    try:
        fn(c)
    except InfraError as e:
        print('%s: check error: %s' % (prop, e), flush=True)
        if c.viol:
            c.finish()
        sys.exit(2)
    c.finish()

# ------------------------------------------------------------------------------------------------ calls
def calls(check, module, lines, cfg=None, env=None, heap='3g', nb=NCPU, timeout=800, groups=None):
    """groups: list of (first index, end index) of lines that belong together (one history).
    Checks recorded calls (list of JSON texts) against a specification that prints <<"BAD", k, expected>> for every
    call it does not explain. Returns [(index into lines, expected)]."""
    nb = max(1, min(nb, len(lines) // 150 + 1))
    if groups is None: parts = [list(range(q, len(lines), nb)) for q in range(nb)]
    else:
        nb, parts = min(nb, len(groups)), [[] for _ in range(min(nb, len(groups)))]
        load = [0] * nb
        for a, b in groups:
            q = load.index(min(load)); parts[q] += range(a, b); load[q] += sum(len(lines[i]) for i in range(a, b)) + 1
    for q in range(nb): assert parts[q]
    def one(q):
        p = os.path.join(check.work, '%s-%d-%x.ndjson' % (module, q, random.getrandbits(32)))
        with open(p, 'w') as f: f.write('\n'.join(lines[i] for i in parts[q]) + '\n')
        e = dict(TRACE=p)
        if env: e.update(env)
        r = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
        os.remove(p)
        if r.rc or not re.search(r'<<"ACCEPTED", %d>>' % len(parts[q]), r.out): raise InfraError('TLC failed on %s: rc=%d\n%s' % (module, r.rc, r.out[-3500:]))
        return [(parts[q][int(a) - 1], re.sub(r'\s+', ' ', b).strip()) for a, b in re.findall(r'<<\s*"BAD",\s*(\d+),(.*?)>>\n', r.out, re.S)], r
    bad = []
    for b, r in pmap(one, range(nb)):
        bad += b
        check.add(states=r.distinct, transitions=max(0, r.generated - 1), tlc_trace_s=round(r.wall, 2))
    check.add(traces_validated_against_impl=len(groups or lines) - len({(sum(1 for g in groups if g[0] <= i) if groups else i) for i, _ in bad}))
    return sorted(bad)
