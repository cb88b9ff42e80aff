"""C20: anchor points and shifts given by the user (ProbeFlowTrace, aspects "line result"), also across resumes."""
from common import *
from c08 import chain

def val(r, shift=False):
    if shift and r.random() < .2: return r.choice([1, 2, 3, 9223372036854775782, 18446744073709551615, 9223372036854775784, r.randint(2, 1000)])
    return r.randint(10**6, 2**r.choice([40, 62, 63, 64]) - 1)

def check(c):
    r = c.rng
    b = ffv.build_recon('default')
    scs = []
    for q in range(c.n(420, 6000)):
        n = r.choice([2, 2, 3, 4])
        na, ns = r.choice([0, 1, 1, 2, 3, 5]), r.choice([0, 1, 1, 2, 3, 5])
        if not na and not ns: ns = 2
        kw = {}
        if na: kw['anchors'] = [[val(r) for _ in range(n - 1)] for _ in range(na)]
        if ns: kw['shifts'] = [[val(r, True) for _ in range(n)] for _ in range(ns)]
        kinds = r.choice([None, None, ['poly', 'mono', 'const', 'univ']])
        safe = r.choice([None, None, 1])
        sc = scen.rand_scenario(r, n=n, kinds=kinds, sizes=r.choice([[0], [1], [2], [2]]), scan=None, safe=safe, **kw)
        if q % 3 == 0:
            lims, k = [], 0
            for _ in range(r.choice([1, 2, 4])):
                k += r.choice([1, 1, 2]); lims.append(k)
            sc.kw.update(tags=1, _chain=chain(lims + [0]))
        scs.append(sc)
    for chunk in [scs[i:i + 1000] for i in range(0, len(scs), 1000)]:
        runs = scen.run_many(c, b, chunk)
        for x in runs:
            c.add(lines=open(x.trace).read().count('"e":"line"'))
        scen.validate_runs(c, b, runs, 'line result', ident='line')
    c.assume.append('anchor points and shifts given by the user are in general position')

if __name__ == '__main__': ffv.main('C20', 'model_checking', check)
