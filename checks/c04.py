"""C04: prime fields in order, never overlapping with evaluations (ProbeFlow, aspect "order")."""
from common import *

def check(c):
    c.model('ProbeFlowMC')
    b = ffv.build_recon('default')
    # large coefficients need several fields; slow evaluations overlap with the end of a field
    scs = [scen.rand_scenario(c.rng, sizes=c.rng.choice([[2], [2, 1], [0, 2]]), threads=c.rng.choice([1, 2, 3, 4, 6, 8]), slow=c.rng.choice([0, 1, 5, 40, 100])) for _ in range(c.n(700, 12000))]
    for chunk in [scs[i:i + 1500] for i in range(0, len(scs), 1500)]:
        runs = scen.run_many(c, b, chunk)
        c.add(fields_entered=sum(open(r.trace).read().count('"e":"primed"') for r in runs))
        scen.validate_runs(c, b, runs, 'order', ident='order')

ffv.main('C04', 'model_checking', check)
