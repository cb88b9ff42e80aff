"""C18: scan for univariate factors (ProbeFlowTrace, aspect "result": remainder times factors)."""
from fractions import Fraction as F
import json
from common import *
from c08 import chain

def mul(a, b):
    o = {}
    for e, c in a.items():
        for g, d in b.items():
            k = tuple(x + y for x, y in zip(e, g)); o[k] = o.get(k, F(0)) + c * d
    return {e: c for e, c in o.items() if c}

def uni(r, n, v, size):
    """a polynomial in one variable: powers, linear and quadratic factors (also without rational roots), dense ones"""
    x = lambda k: tuple(k if q == v else 0 for q in range(n))
    co = lambda: scen.rand_coef(r, size)
    k = r.choice(['x', 'lin', 'lin', 'lin', 'quad', 'quad', 'irr', 'dense', 'sq'])
    if k == 'x': return {x(r.choice([1, 1, 2, 3])): F(1)}
    if k == 'lin': return {x(1): co(), x(0): co()}
    if k == 'quad': return {x(2): co(), x(1): co(), x(0): co()}
    if k == 'irr': return {x(2): F(1), x(0): F(r.choice([1, 2, -2, 3, -3, 5, 7]))}
    if k == 'sq': p = {x(1): co(), x(0): co()}; return mul(p, p)
    return {x(q): co() for q in range(r.randint(3, 5))}

def fn(r, n, size):
    k = r.choice(['f', 'f', 'f', 'f', 'only', 'plain', 'zero', 'const'])
    if k in ('plain', 'zero', 'const'): return scen.rand_fn(r, n, None if k == 'plain' else k, size)
    one = {tuple([0] * n): F(1)}
    nu, de = (one, one) if k == 'only' else scen.rand_fn(r, n, r.choice(['rat', 'poly', 'mono', 'invpoly', 'univ']), min(size, 1))
    for _ in range(r.choice([1, 1, 2, 3])):
        f = uni(r, n, r.randrange(n), size)
        if r.random() < .6: nu = mul(nu, f)
        else: de = mul(de, f)
    if r.random() < .2: nu = {e: c * scen.rand_coef(r, size) for e, c in nu.items()} if False else mul(nu, {tuple([0] * n): scen.rand_coef(r, size)})
    return nu, de

def texts(c, r, b):
    """get_factors_string after a scan only and after complete runs: the texts denote the factors of the results"""
    base = []
    for _ in range(c.n(60, 400)):
        n = r.choice([1, 2, 3])
        base.append(scen.Scenario(n, [fn(r, n, r.choice([0, 1])) for _ in range(r.choice([1, 2, 3]))], **dict(scen.rand_scenario(r, n=n, items=1, scan=None, safe=None).kw, fscan=1, facstr=1)))
    full = scen.run_many(c, b, base, name='full')
    stop = scen.run_many(c, b, [s.but(stopfac=1, _sc=dict(stopfac=1), sseed=r.randrange(1, 1 << 30), seed=r.randrange(1 << 30)) for s in base], name='stop')
    scen.validate_runs(c, b, full + stop, 'result', ident='factor-text')
    if len(full) != len(base) or len(stop) != len(base): return
    lines, origin = [], []
    p = 2**61 - 1
    for x, y in zip(full, stop):
        if x.rc or y.rc: continue
        res = [e for e in x.events() if e['e'] == 'res'][0]['fs']
        for run in (x, y):
            for f, s in zip(res, [e for e in run.events() if e['e'] == 'facs'][0]['s']):
                n = x.sc.n
                o = dict(n=[[[0] * n, '1', '1']], d=[], ord=[], f=[dict(v=max(q['nv'], q['dv']), n=[[a[2], a[0], a[1]] for a in q['num']], d=[[a[2], a[0], a[1]] for a in q['den']]) for q in f['factors']])
                lines.append(json.dumps(dict(k='pr', op='rf', p=str(p), vars=['v%d' % (q + 1) for q in range(n)], pts=[[str(r.randrange(2, p)) for _ in range(n)] for _ in range(2)], o=o, r=dict(s=s))))
                origin.append((run, s))
    for i, want in ffv.calls(c, 'PrintCalls', lines):
        c.violation('text:' + ffv.digest(origin[i][1])[:10], 'the text %s does not denote the factors of the result (values %s); scenario:\n%s' % (origin[i][1][:300], want, origin[i][0].sc.text()[:500]), [origin[i][0].trace])
    c.add(factor_texts=len(lines))

def check(c):
    r = c.rng
    b = ffv.build_recon('flint')
    texts(c, r, b)
    for part in range(c.n(1, 10)):
        scs = []
        for q in range(c.n(330, 700)):
            n = r.choice([1, 2, 2, 3, 3, 4])
            size = r.choice([0, 0, 1, 2])
            fns = [fn(r, n, size if r.random() < .8 else 0) for _ in range(r.choice([1, 2, 2, 3, 4]))]
            if len(fns) > 1 and r.random() < .2: fns[-1] = fns[0]
            kw = dict(scen.rand_scenario(r, n=n, items=1, scan=r.choice([None, None, 1]) if n > 1 else None, safe=None).kw, fscan=1)
            k = r.random()
            if k < .35:
                lims, m = [], 0
                for _ in range(r.choice([1, 1, 2, 3])):
                    m += r.choice([1, 1, 2]); lims.append(m)
                kw.update(tags=1, _chain=chain(lims + [0]))
            elif k < .45: kw.update(tags=1)
            scs.append(scen.Scenario(n, fns, **kw))
        runs = scen.run_many(c, b, scs)
        c.add(results_with_factors=sum('"nv"' in open(x.trace).read() for x in runs if os.path.exists(x.trace)))
        scen.validate_runs(c, b, runs, 'result', ident='factor')

if __name__ == '__main__': ffv.main('C18', 'model_checking', check)
