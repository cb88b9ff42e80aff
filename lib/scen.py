"""Reconstruction scenarios: generation, execution by harness/recon, validation against ProbeFlowTrace."""
import json, os, random, re, shutil, signal, time
from fractions import Fraction
from math import gcd
import ffv

POLICY = dict(nonpreempt=0, random=1, pct=2, starve_main=3, starve_workers=4, sticky=5, roundrobin=6)

def rand_coef(r, size):
    if size == 0: return Fraction(r.choice([1, 1, 1, 2, 3, -1, -1, -2, 5]))
    if size == 1: return Fraction(r.choice([-1, 1]) * r.randint(1, 10**6), r.choice([1, 1, r.randint(1, 1000)]))
    return Fraction(r.choice([-1, 1]) * r.randint(1, 10**r.choice([12, 20, 30, 45])), r.choice([1, r.randint(1, 10**r.choice([5, 12, 20]))]))

def rand_poly(r, n, terms, deg, size):
    p = {}
    for _ in range(terms):
        e = [0] * n
        for _ in range(r.randint(0, deg)): e[r.randrange(n)] += 1
        p[tuple(e)] = rand_coef(r, size)
    return p

def rand_fn(r, n, kind=None, size=None):
    """(numerator, denominator), each a dict exponents -> Fraction"""
    if kind is None: kind = r.choice(['rat'] * 6 + ['poly', 'poly', 'mono', 'const', 'zero', 'univ', 'dense', 'invpoly', 'high'])
    if size is None: size = r.choice([0, 0, 1, 1, 1, 2])
    one = {tuple([0] * n): Fraction(1)}
    if kind == 'zero': return {}, one
    if kind == 'const': return {tuple([0] * n): rand_coef(r, max(1, size))}, one
    if kind == 'mono': return rand_poly(r, n, 1, 5, size), (one if r.random() < .5 else rand_poly(r, n, 1, 4, 0))
    if kind == 'poly': return rand_poly(r, n, r.randint(1, 6), r.randint(1, 5), size), one
    if kind == 'invpoly': return rand_poly(r, n, 1, 2, size), rand_poly(r, n, r.randint(2, 4), r.randint(1, 3), 1)
    if kind == 'dense': return rand_poly(r, n, r.randint(5, 10), 3, size), rand_poly(r, n, r.randint(1, 5), 2, size)
    if kind == 'high': return rand_poly(r, n, r.randint(1, 3), r.randint(6, 12), size), (one if r.random() < .6 else rand_poly(r, n, 2, 3, 0))
    if kind == 'univ':
        v = r.randrange(n)
        f = lambda t, d: {tuple([(r.randint(0, d) if q == v else 0) for q in range(n)]): rand_coef(r, size) for _ in range(t)}
        return f(r.randint(1, 4), 6), f(r.randint(1, 3), 4)
    return rand_poly(r, n, r.randint(1, 5), r.randint(1, 4), size), rand_poly(r, n, r.randint(1, 4), r.randint(1, 4), size)

def fn_json(f):
    return dict(num=[[str(c.numerator), str(c.denominator), list(e)] for e, c in f[0].items()],
                den=[[str(c.numerator), str(c.denominator), list(e)] for e, c in f[1].items()])

class Scenario:
    def __init__(self, n, fns, **kw):
        self.n, self.fns, self.kw = n, fns, dict(kw)
    def get(self, k, d=0): return self.kw.get(k, d)
    def but(self, **kw):
        k = dict(self.kw); k.update(kw)
        return Scenario(self.n, self.fns, **k)
    def text(self):
        o = ['n %d' % self.n]
        for k, v in self.kw.items():
            if k.startswith('_') or v is None: continue
            if k in ('anchors', 'shifts'):
                for a in v: o.append('%s %s' % (k[:-1], ' '.join(str(x) for x in a)))
            elif k == 'policy': o.append('policy %d' % (POLICY[v] if isinstance(v, str) else v))
            elif isinstance(v, (list, tuple)): o.append('%s %s' % (k, ' '.join(str(x) for x in v)))
            else: o.append('%s %d' % (k, v) if not isinstance(v, str) else '%s %s' % (k, v))
        for nu, de in self.fns:
            o.append('fn %d %d' % (len(nu), len(de)))
            for p in (nu, de):
                for e, c in p.items(): o.append('%d %d %s' % (c.numerator, c.denominator, ' '.join(map(str, e))))
        return '\n'.join(o) + '\n'
    def line(self):
        d = dict(e='sc', n=self.n, items=len(self.fns), threads=self.get('threads', 1), bunch=self.get('bunch', 1), scan=bool(self.get('scan')),
                 fscan=bool(self.get('fscan')), resume=bool(self.get('resume')), safe=bool(self.get('safe')),
                 anchors=[[str(x) for x in a] for a in self.get('anchors', [])], shifts=[[str(x) for x in a] for a in self.get('shifts', [])],
                 fns=[fn_json(f) for f in self.fns])
        d['chain'] = 0
        if self.get('limit'): d['limits'] = [int(x) for x in self.get('limit')]
        d.update(self.get('_sc', {}))
        return json.dumps(d)

class Run:
    def __init__(self, sc, rc, out, err, trace, d): self.sc, self.rc, self.out, self.err, self.trace, self.dir, self.head = sc, rc, out, err, trace, d, sc.line()
    def events(self):
        r = []
        with open(self.trace) as f:
            for l in f:
                try: r.append(json.loads(l))
                except ValueError: pass
        return r
    def abnormal(self):
        """None if the process ended as intended"""
        if self.rc == 0: return None
        if self.rc == -999: return 'the run did not end within its time limit'
        last = ''
        try:
            with open(self.trace, 'rb') as f:
                f.seek(max(0, os.path.getsize(self.trace) - 2000))
                last = f.read().decode('utf8', 'replace').strip().split('\n')[-1]
        except OSError: pass
        if self.rc == 70: return 'the run got stuck: ' + last[:300]
        return 'the process ended with status %d; stderr: %s' % (self.rc, self.err[-500:].strip())

def execute(binary, sc, d, timeout=120, keep=False):
    """Runs one scenario in scratch directory d (created; an existing one is reused if keep)."""
    if sc.get('_chain'): return execute_chain(binary, sc, d, timeout)
    if not keep: shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    sp, tp = os.path.join(d, 'scenario.txt'), os.path.join(d, 'trace.ndjson')
    with open(sp, 'w') as f: f.write(sc.text())
    rc, o, e = ffv.sh([binary, sp, tp], cwd=d, timeout=timeout, env=sc.get('_env', None))
    return Run(sc, rc, o, e, tp, d)

def execute_chain(binary, sc, d, timeout=120, maxstages=40):
    """Several processes one after the other in the same directory: the scenario's key _chain lists the options in which
    each differs from the scenario (_fns: other functions, _new: it begins a reconstruction of its own), or is a function (stage, previous run) -> options or None.  The traces are joined;
    before each further process there is an "sc" line with the process number ("chain")."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    ch, tp = sc.get('_chain'), os.path.join(d, 'trace.ndjson')
    stages, last, new = [], None, 0
    with open(tp, 'w') as out:
        while len(stages) < maxstages:
            k = len(stages)
            kw = ch(k, last) if callable(ch) else (ch[k] if k < len(ch) else None)
            if kw is None: break
            s = sc.but(_chain=None, **kw)
            if '_fns' in kw: s.fns = kw['_fns']
            if kw.get('_new'): new = k
            s.kw['_sc'] = dict(sc.get('_sc', {}), chain=k - new)
            s.kw = {a: b for a, b in s.kw.items() if b is not None}
            sp, t = os.path.join(d, 'scenario-%d.txt' % k), os.path.join(d, 'trace-%d.ndjson' % k)
            with open(sp, 'w') as f: f.write(s.text())
            rc, o, e = ffv.sh([binary, sp, t], cwd=d, timeout=timeout, env=sc.get('_env', None))
            last = Run(s, rc, o, e, t, d)
            stages.append(last)
            if k: out.write(s.line() + '\n')
            try: out.write(open(t).read())
            except OSError: pass
            if rc not in sc.get('_goon', (0, 77)): break
    with open(os.path.join(d, 'scenario.txt'), 'w') as f:
        for q, s in enumerate(stages): f.write('# process %d\n%s' % (q, s.sc.text()))
    r = Run(sc, last.rc, ''.join(x.out for x in stages), ''.join(x.err for x in stages), tp, d)
    r.stages, r.head = stages, stages[0].sc.line()
    return r

def rand_scenario(r, **fix):
    """One random scenario; keyword arguments fix options."""
    n = fix.pop('n', None) or r.choice([1, 2, 2, 2, 3, 3, 4])
    items = fix.pop('items', None) or r.choice([1, 2, 3, 3, 4, 6])
    kinds = fix.pop('kinds', None)
    sizes = fix.pop('sizes', None)
    fns = [rand_fn(r, n, r.choice(kinds) if kinds else None, r.choice(sizes) if sizes else None) for _ in range(items)]
    if items > 1 and r.random() < .2: fns[-1] = fns[0]
    k = dict(threads=r.choice([1, 2, 2, 3, 4, 4, 8]), bunch=r.choice([1, 1, 2, 4, 8, 16, 32, 64, 128]), seed=r.randrange(1 << 30), sseed=r.randrange(1, 1 << 30),
             policy=r.choice(['random', 'random', 'pct', 'pct', 'sticky', 'starve_main', 'starve_workers', 'roundrobin', 'nonpreempt']))
    if r.random() < .3: k['slow'] = r.choice([1, 5, 40])
    if n > 1 and r.random() < .2: k['scan'] = 1
    elif r.random() < .2: k['safe'] = 1
    k.update(fix)
    k = {a: b for a, b in k.items() if b is not None}
    return Scenario(n, fns, **k)

def validate_runs(check, binary, runs, aspects, module='ProbeFlowTrace', ident='run', env=None, rerun=True, batches=None, maxviol=3):
    """Validates recorded runs against the specification; reports violations of the check's property.
    A violation is reported only if executing and validating the scenario again gives a rejection again."""
    e = dict(ASPECTS=aspects)
    if env: e.update(env)
    runs = list(runs)
    # a run that does not end is rejected whatever its trace is; a huge trace of such a run is not worth reading
    endless = [r for r in runs if r.rc in (70, -999) and (not os.path.exists(r.trace) or os.path.getsize(r.trace) > 1500000)]
    runs = [r for r in runs if r not in endless]
    for r in endless[:2]:
        if execute(binary, r.sc, r.dir + '.again', 60).rc in (70, -999):
            check.violation('%s:%s' % (ident, ffv.digest(r.sc.text())[:10]), 'requirement not met: the run has to end; %s; scenario:\n%s' % (r.abnormal(), r.sc.text()[:700]), [os.path.join(r.dir, 'scenario.txt')])
    if not runs: return
    nb = batches or max(1, min(ffv.NCPU, (sum(os.path.getsize(r.trace) for r in runs) // 400000) + 1))
    order = sorted(runs, key=lambda r: -os.path.getsize(r.trace))
    groups = [[] for _ in range(nb)]
    load = [0] * nb
    for r in order:
        q = load.index(min(load)); groups[q].append(r); load[q] += os.path.getsize(r.trace) + 2000
    def one(gi):
        g, bad, lines, wall = list(groups[gi]), [], 0, 0
        while g and len(bad) < maxviol:
            p = os.path.join(check.work, '%s-%d.ndjson' % (ident, gi))
            starts = []
            k = 1
            with open(p, 'w') as f:
                for r in g:
                    starts.append(k)
                    f.write(r.head + '\n'); k += 1
                    with open(r.trace) as t:
                        for l in t:
                            if l.strip(): f.write(l if l.endswith('\n') else l + '\n'); k += 1
                f.write('{"e":"sc","n":1,"items":0,"scan":false,"resume":false,"fscan":false,"fns":[],"anchors":[],"shifts":[],"bunch":1}\n')
            v = ffv.validate(module, p, env=e)
            wall += v.res.wall
            lines += v.line
            if v.ok: break
            # find the run
            q = max(i for i, s in enumerate(starts) if s <= max(1, v.line - (1 if v.why.find('previous run did not end') >= 0 else 0)))
            bad.append((g[q], v.line - starts[q], v.why))
            g = g[q + 1:]
        return bad, lines, wall
    allbad = []
    for bad, lines, wall in ffv.pmap(one, [q for q in range(nb) if groups[q]]):
        check.add(trace_lines=lines, tlc_trace_s=round(wall, 2), states=lines, transitions=lines)
        allbad += bad
    check.add(traces_validated_against_impl=len(runs) - len(allbad))
    for r in runs[:2]: check.sample(r.sc.text()[:400])
    out = []
    for r, rel, why in allbad[:maxviol]:
        if rerun and not r.sc.get('_norerun'):
            d = r.dir + '.again'
            r2 = execute(binary, r.sc, d)
            p = os.path.join(check.work, 'again.ndjson')
            with open(p, 'w') as f:
                f.write(r2.head + '\n' + open(r2.trace).read())
                f.write('{"e":"sc","n":1,"items":0,"scan":false,"resume":false,"fscan":false,"fns":[],"anchors":[],"shifts":[],"bunch":1}\n')
            v = ffv.validate(module, p, env=e)
            if v.ok:
                check.add(unrepeated=1); continue
            why = v.why
        ev = []
        try: ev = open(r.trace).read().split('\n')
        except OSError: pass
        ctx = ev[rel - 1][:400] if 0 < rel <= len(ev) else ''
        ab = r.abnormal()
        check.violation('%s:%s' % (ident, ffv.digest(r.sc.text())[:10]), 'requirement not met: %s%s; event %s; scenario:\n%s' % (why, ('; ' + ab) if ab else '', ctx, r.sc.text()[:700]),
                        [os.path.join(r.dir, 'scenario.txt'), r.trace])
        out.append(r)
    return out

def run_many(check, binary, scs, name='r', timeout=60, n=ffv.NCPU, enough=6):
    """Executes the scenarios. When several of them did not end (which never happens on correct code), the others are left out."""
    stuck, t0 = [], time.time()
    def go(a):
        i, sc = a
        if len(stuck) >= enough or (stuck and time.time() - t0 > 240): return None
        x = execute(binary, sc, os.path.join(check.work, '%s%d' % (name, i)), timeout)
        if x.rc in (70, -999): stuck.append(i)
        return x
    return [x for x in ffv.pmap(go, list(enumerate(scs)), n) if x]
