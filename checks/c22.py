"""C22: reconstruction from supplied probes (Supply, SupplyMC, SupplyTrace)."""
import gzip, json, random, re, shutil
from common import *

def primes():
    src = open(os.path.join(ffv.VERIF, 'spec', 'Primes.tla')).read()
    return [int(x) for x in re.findall(r'"(9\d{18})"', src)]
PR = primes()

def value(f, x, p):
    def pe(P):
        s = 0
        for e, c in P.items():
            t = c.numerator * pow(c.denominator, -1, p) % p
            for a, k in zip(x, e): t = t * pow(a, k, p) % p
            s += t
        return s % p
    return pe(f[0]) * pow(pe(f[1]), -1, p) % p

def point(sc, k, zi, t):
    p = PR[k]
    if sc.n == 1: return [t % p]
    a, s = sc.kw['anchors'][k], sc.kw['shifts'][k]
    return [(t + s[0]) % p] + [(pow(a[i], zi[i], p) * t + s[i + 1]) % p for i in range(sc.n - 1)]

def scenario(r):
    n = r.choice([1, 1, 2, 2, 2, 3, 4])
    sc = scen.rand_scenario(r, n=n, items=r.choice([1, 1, 2, 3, 4]), sizes=[r.choice([0, 1, 2])], scan=None, precomp=1,
                            bunch=r.choice([1, 1, 2, 8, 128]))
    if n > 1:
        sc.kw['anchors'] = [[r.randrange(1 << 62) for _ in range(n - 1)] for _ in range(20)]
        sc.kw['shifts'] = [[r.randrange(1 << 62) for _ in range(n)] for _ in range(20)]
    if r.random() < .8: sc.kw.update(tags=r.choice([1, 2]), resume=1)
    if r.random() < .5: sc.kw.update(tstep=r.choice([10**9, 10**10, 10**11]))
    return sc

def gz(p):
    with gzip.open(p, 'rt') as f: return f.read().split('\n')[:-1]

def play(args):
    """the exchange of requests and answers; returns the processes and the lines for SupplyTrace"""
    b, sc, d, seed = args
    r = random.Random(seed)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/probes')
    o, runs, style = [json.loads(sc.line())], [], r.choice(['all', 'all', 'some', 'extra'])
    have = {}
    def supply(k, zt):
        z = []
        with gzip.open(d + '/probes/%d.gz' % k, 'at') as f:
            for zi, t in zt:
                x = point(sc, k, zi, t)
                v = [str(value(g, x, PR[k])) for g in sc.fns]
                line = ' '.join(map(str, zi)) + ' | %d | ' % t + ' '.join(v) + '\n'
                f.write(line)
                if r.random() < .05: f.write(line)
                z.append([list(zi), str(t), v])
                have.setdefault(k, set()).add((tuple(zi), t))
        o.append(dict(e='file', f=k, z=z))
    # probes that are known beforehand
    for k in range(3):
        if r.random() < (.6 if k == 0 else .2): supply(k, [([1] * (sc.n - 1), r.randrange(1, 1 << 62)) for _ in range(r.choice([1, 2, 5, 20]))])
    for q in range(150):
        s = sc.but(seed=r.randrange(1 << 30), sseed=r.randrange(1, 1 << 30))
        if r.random() < .4: s.kw.update(threads=r.choice([1, 2, 4, 8]))
        saved = []
        pd = d + '/ff_save/probes'
        if s.get('resume') and os.path.isdir(pd):
            for f in sorted(os.listdir(pd)):
                m = re.fullmatch(r'(\d+)_(\d+)\.gz', f)
                if not m: continue
                try:
                    z = [x.split() for x in gz(pd + '/' + f)]
                    saved.append(dict(e='saved', i=int(m.group(1)), f=int(m.group(2)), z=[[[int(y) for y in x[:-2]], x[-2], x[-1]] for x in z]))
                except (OSError, EOFError, ValueError, IndexError): o.append(dict(e='bad', what=f))
        x = scen.execute(b, s, d, 60, keep=True)
        runs.append(x)
        o.append(dict(e='proc', resume=bool(s.get('resume') and s.get('tags'))))
        o += saved
        field = 0
        for e in x.events():
            if e['e'] == 'prime': field = PR.index(int(e['p'])) if int(e['p']) in PR else field
            if e['e'] in ('prime', 'eb', 'feed', 'ie', 're', 'res'):
                if e['e'] == 're' and not e['done']: continue
                if e['e'] == 'res' and o[-1]['e'] != 're': continue
                o.append(e)
        req = []
        rq = d + '/requested_probes.gz'
        if os.path.exists(rq):
            try:
                for l in gz(rq):
                    a = [y.split() for y in l.split('|')]
                    req.append(([int(y) for y in a[0]], int(a[1][0]), a[2]))
            except (OSError, EOFError, ValueError, IndexError): o.append(dict(e='bad', what='requested_probes.gz'))
            os.remove(rq)
            o.append(dict(e='req', z=[[zi, str(t), pt] for zi, t, pt in req]))
        o.append(dict(e='fin', rc=x.rc))
        if x.rc not in (0, 1) or not req or len(o) > 40000 or field >= 20: break
        a = list(req)
        if style == 'some' and len(a) > 1 and r.random() < .8: r.shuffle(a); a = a[:r.randrange(1, len(a) + 1)]
        if r.random() < .3: r.shuffle(a)
        if style == 'extra':
            zi = a[0][0]
            a += [(zi, r.randrange(1, 1 << 62), None) for _ in range(r.choice([1, 3, 10]))]
        supply(field, [(zi, t) for zi, t, _ in a])
    return runs, o

def check(c):
    r = c.rng
    c.model('SupplyMC'); c.model('SupplyMC', 'SupplyMC2')
    if c.level == 'thorough': c.model('SupplyMC', 'SupplyMC3')
    b = ffv.build_recon('default')
    num = c.n(120, 2500)
    for part in range(0, num, 400):
        todo = [(b, scenario(r), os.path.join(c.work, 'x%d' % q), r.randrange(1 << 60)) for q in range(part, min(num, part + 400))]
        xs = ffv.pmap(play, todo, ffv.NCPU)
        def one(g):
            mine, bad, n = list(range(len(xs)))[g::ffv.NCPU], [], 0
            while mine and len(bad) < 2:
                p = os.path.join(c.work, 'sup-%d.ndjson' % g)
                starts, k = [], 1
                with open(p, 'w') as f:
                    for q in mine:
                        starts.append(k)
                        for e in xs[q][1]: f.write(json.dumps(e) + '\n'); k += 1
                    f.write('{"e":"sc","n":1,"items":0,"fns":[],"anchors":[],"shifts":[]}\n')
                v = ffv.validate('SupplyTrace', p)
                n += v.line
                if v.ok: break
                q = max(i for i, a in enumerate(starts) if a <= max(1, v.line - (1 if 'every run completes' in v.why else 0)))
                bad.append((mine[q], v.line - starts[q], v.why))
                mine = mine[q + 1:]
            return bad, n
        for bad, n in ffv.pmap(one, range(ffv.NCPU)):
            c.add(trace_lines=n, states=n, transitions=n)
            for q, k, why in bad:
                runs, o = xs[q]
                x = runs[-1]
                tp = os.path.join(x.dir, 'exchange.ndjson')
                with open(tp, 'w') as f: f.write(''.join(json.dumps(e) + '\n' for e in o))
                c.violation('supply:' + ffv.digest(todo[q][1].text())[:10], 'requirement not met: %s; event %s; process %d of the exchange; status %s %s; scenario\n%s'
                            % (why, json.dumps(o[k])[:300] if k < len(o) else 'end', sum(e['e'] == 'proc' for e in o[:k + 1]), x.rc, x.err[-300:].strip(), todo[q][1].text()[:800]), [os.path.join(x.dir, 'scenario.txt'), tp])
        c.add(traces_validated_against_impl=len(xs), processes=sum(len(x[0]) for x in xs))
        for x in xs[:3]: c.sample('%d processes; %s' % (len(x[0]), x[0][0].sc.text()[:300]))

if __name__ == '__main__': ffv.main('C22', 'model_checking', check)
