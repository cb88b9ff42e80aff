"""C01: results of complete reconstructions are the probed functions (ProbeFlowTrace, aspect "result")."""
from common import *

def check(c):
    b = ffv.build_recon('default')
    scs = [scen.rand_scenario(c.rng) for _ in range(c.n(500, 12000))]
    # every kind of function alone and in pairs, in one to five variables
    for n in (1, 2, 3, 5):
        for kind in ('rat', 'poly', 'mono', 'const', 'zero', 'univ', 'dense', 'invpoly', 'high'):
            scs.append(scen.rand_scenario(c.rng, n=n, items=1, kinds=[kind], sizes=[c.rng.choice([0, 1, 2])]))
            scs.append(scen.rand_scenario(c.rng, n=n, items=2, kinds=[kind, 'rat'], sizes=[1], scan=None, safe=c.rng.choice([None, 1])))
    for chunk in [scs[i:i + 1500] for i in range(0, len(scs), 1500)]:
        runs = scen.run_many(c, b, chunk)
        scen.validate_runs(c, b, runs, 'result')
    bf = ffv.build_recon('flint')
    scs = [scen.rand_scenario(c.rng) for _ in range(c.n(60, 1500))]
    scen.validate_runs(c, bf, scen.run_many(c, bf, scs, 'f'), 'result', ident='flint')
    c.assume += ['black boxes are rational functions; their values are computed by the harness, the comparison with the result is exact (TLA+ polynomials over the integers)']

ffv.main('C01', 'model_checking', check)
