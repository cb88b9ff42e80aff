"""C09: saved states and black boxes they do not belong to (Owner, OwnerMC, OwnerTrace)."""
import json
from fractions import Fraction as F
from common import *
from c07 import OPS
import c18

def other(r, n, fns):
    """a black box that differs from the given one, most often in very little"""
    f = [(dict(a), dict(b)) for a, b in fns]
    k = r.choice(['coef', 'coef', 'coef', 'scale', 'replace', 'swap', 'more', 'more', 'fewer', 'dup', 'zero', 'vars', 'sign', 'order'])
    i = r.randrange(len(f))
    if r.random() < .4: i = len(f) - 1
    if k == 'swap' and len(f) > 1: j = (i + 1) % len(f); f[i], f[j] = f[j], f[i]
    elif k == 'order': f = f[1:] + f[:1]
    elif k == 'fewer' and len(f) > 1: f = f[:-r.choice([1, 1, len(f) - 1])]
    elif k == 'dup': f = f + [f[i]]
    elif k == 'more': f = f + [scen.rand_fn(r, n, r.choice(['zero', 'const', 'rat'])) for _ in range(r.choice([1, 1, 2, 4]))]
    elif k == 'zero': f[i] = ({}, {tuple([0] * n): F(1)})
    elif k == 'replace': f[i] = scen.rand_fn(r, n)
    elif k == 'vars' and n > 1:
        q = list(range(n)); r.shuffle(q)
        f = [tuple({tuple(e[q[v]] for v in range(n)): c for e, c in p.items()} for p in g) for g in f]
    elif f[i][0]:
        p = f[i][r.randrange(2)]
        e = r.choice(sorted(p))
        if k == 'sign': p[e] = -p[e]
        elif k == 'scale': f[i] = ({e: c * 2 for e, c in f[i][0].items()}, f[i][1])
        else: p[e] += r.choice([1, -1, F(1, 2), 10**20])
        if not p[e]: p[e] = F(7)
    else: f[i] = scen.rand_fn(r, n, 'const')
    return f

def scenario(r, flint):
    n = r.choice([1, 2, 2, 3])
    fscan = flint and r.random() < .7
    sc = scen.rand_scenario(r, n=n, items=r.choice([1, 2, 2, 3, 4]), sizes=[r.choice([0, 1, 2])], tags=1, scan=1 if n > 1 and r.random() < .3 else None, safe=None if flint or r.random() < .8 else 1)
    if fscan:
        sc.kw['fscan'] = 1
        sc.fns = [c18.fn(r, n, 1) for _ in sc.fns]
    if sc.get('safe'): sc.kw['scan'] = None
    ch = [dict(limit=[r.choice([1, 1, 2, 3])] if r.random() < .9 else None)]
    own = sc.fns
    boxes = [sc.fns]
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        f = r.choice([own, other(r, n, own), other(r, n, own), r.choice(boxes)])
        boxes.append(f)
        anew = r.random() < .3
        d = dict(_fns=f, limit=[r.choice([1, 2, 2, 3, 4])] if r.random() < .8 else None, resume=None if anew else 1, sseed=r.randrange(1, 1 << 30))
        if r.random() < .5: d.update(threads=r.choice([1, 2, 4]), bunch=r.choice([1, 4, 32]))
        if anew and r.random() < .3: d.update(crashat=int(2 ** r.uniform(1, 5.5)), crashmode=r.choice([0, 1, 2]))
        if anew: own = f
        ch.append(d)
    ch.append(dict(_fns=own, resume=1))
    return sc.but(fslog=1, _chain=ch, _goon=(0, 1, 77))

def lines(x):
    o = [dict(e='dir')]
    for q in x.stages:
        o.append(dict(e='proc', fns=[scen.fn_json(f) for f in q.sc.fns], resume=bool(q.sc.get('resume'))))
        ev = q.events() if os.path.exists(q.trace) else []
        last = [e for e in ev if e['e'] == 'fs'][-1:]
        begun = False
        for e in ev:
            if e['e'] == 'fs' and e['op'] in OPS:
                if q.rc == 77 and e is last[0] and (q.sc.get('crashmode') == 0 or (q.sc.get('crashmode') == 1 and e['op'] != 'write')): continue
                if not any(str(e.get(k, '')).startswith('ff_save/') for k in 'ab'): continue
                to = e['b'] if e['op'] == 'rename' else e['a']
                # the state can be continued when the validation file is in place and the scan for a shift, if any, is over
                whole = 'ff_save/scan' if q.sc.get('scan') else 'ff_save/validation.gz'
                if to == whole and e['op'] in ('rename', 'open_w', 'open_trunc'): o.append(dict(e='valid', a=e['a']))
                elif e['op'] == 'unlink' and to == 'ff_save/validation.gz': o.append(dict(e='invalid', a=e['a']))
                else: o.append(dict(e='mod', a=e['a']))
            elif e['e'] == 'rb': begun = True; o.append(dict(e='rb'))
            elif e['e'] == 'eb' and begun and o[-1]['e'] != 'eval': o.append(dict(e='eval'))
            elif e['e'] == 'res': o.append(dict(e='res', n=len(e['fs']), full=not q.sc.get('limit')))
        o.append(dict(e='fin', rc=q.rc))
    return o

def check(c):
    r = c.rng
    c.model('OwnerMC')
    for flavor, num in [('default', c.n(300, 4000)), ('flint', c.n(100, 2000))]:
        b = ffv.build_recon(flavor)
        for part in range(0, num, 500):
            runs = scen.run_many(c, b, [scenario(r, flavor == 'flint') for _ in range(min(500, num - part))], name=flavor)
            for x in runs:
                for q in x.stages:
                    if q.sc.get('resume'): c.add(**{'refused' if q.rc == 1 else 'continued': 1})
            def one(g):
                xs, bad, n = runs[g::ffv.NCPU], [], 0
                while xs and len(bad) < 2:
                    p = os.path.join(c.work, 'own-%d.ndjson' % g)
                    starts, k = [], 1
                    with open(p, 'w') as f:
                        for x in xs:
                            starts.append(k)
                            for o in lines(x): f.write(json.dumps(o) + '\n'); k += 1
                    v = ffv.validate('OwnerTrace', p)
                    n += v.line
                    if v.ok: break
                    q = max(i for i, a in enumerate(starts) if a <= v.line)
                    bad.append((xs[q], v.line - starts[q], v.why))
                    xs = xs[q + 1:]
                return bad, n
            for bad, n in ffv.pmap(one, range(ffv.NCPU)):
                c.add(trace_lines=n, states=n, transitions=n)
                for x, k, why in bad:
                    c.violation('owner:' + ffv.digest(x.sc.text() + repr(x.sc.get('_chain')))[:10], 'requirement not met: %s; event %s; %s; scenario\n%s'
                                % (why, json.dumps(lines(x)[k])[:200], ' / '.join(str(q.rc) + ' ' + q.err[-150:].strip() for q in x.stages), open(os.path.join(x.dir, 'scenario.txt')).read()[:1500]), [os.path.join(x.dir, 'scenario.txt'), x.trace])
            c.add(traces_validated_against_impl=len(runs), processes=sum(len(x.stages) for x in runs))
            for x in runs[:2]: c.sample(x.sc.text()[:300])

if __name__ == '__main__': ffv.main('C09', 'model_checking', check)
