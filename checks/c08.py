"""C08: chains of limited and resumed reconstructions (ProbeFlowTrace, aspects "resume line result order flow")."""
from common import *
from c07 import former

def chain(limits):
    return [dict(limit=[k] if k else None, resume=1 if q else None) for q, k in enumerate(limits)]

def check(c):
    r = c.rng
    b = ffv.build_recon('default')
    scs = []
    for _ in range(c.n(260, 4000)):
        lims, k = [], 0
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            k += r.choice([1, 1, 1, 2, 3])
            lims.append(k)
        lims.append(0)
        n = r.choice([1, 2, 2, 3, 3])
        kinds = r.choice([None, None, ['rat', 'zero', 'mono'], ['const', 'rat', 'poly'], ['invpoly', 'univ', 'rat']])
        sizes = r.choice([[2], [2], [2, 1], [2, 0], [1]])
        safe = r.choice([None, None, None, 1])
        sc = scen.rand_scenario(r, n=n, kinds=kinds, sizes=sizes, scan=r.choice([None, None, 1]) if n > 1 and not safe else None, safe=safe, tags=1, _chain=chain(lims))
        if r.random() < .15:
            # the directory holds the state of a different reconstruction
            sc.kw['_chain'][0]['_new'] = 1
            sc.kw['_chain'].insert(0, former(r, sc))
        scs.append(sc)
    for chunk in [scs[i:i + 1000] for i in range(0, len(scs), 1000)]:
        runs = scen.run_many(c, b, chunk)
        c.add(processes=sum(len(x.stages) for x in runs))
        scen.validate_runs(c, b, runs, 'resume line result order flow', ident='chain')

if __name__ == '__main__': ffv.main('C08', 'model_checking', check)
