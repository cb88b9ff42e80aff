"""C03: each probe computed once and delivered to every open function exactly once (ProbeFlow, aspect "flow")."""
from common import *

def check(c):
    c.model('ProbeFlowMC')
    b = ffv.build_recon('default')
    scs = [scen.rand_scenario(c.rng, items=c.rng.choice([1, 2, 3, 4, 5, 8]), threads=c.rng.choice([1, 2, 3, 4, 6, 8])) for _ in range(c.n(600, 12000))]
    for chunk in [scs[i:i + 1500] for i in range(0, len(scs), 1500)]:
        scen.validate_runs(c, b, scen.run_many(c, b, chunk), 'flow', ident='flow')

ffv.main('C03', 'model_checking', check)
