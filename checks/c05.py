"""C05: bunched evaluation (aspects "bunch" and "result")."""
from common import *
from calc import *

def sizes(c):
    """every queue is cut into bunches as Bunches.tla says"""
    c.model('BunchesMC')
    r, K = c.rng, Calls(c)
    for mx in (1, 2, 4, 8, 16, 32, 64, 128):
        for thr in range(1, c.n(9, 17)):
            for q in sorted(set(range(0, c.n(20, 70))) | {thr * 2**k + d for k in range(0, 9) for d in (-1, 0, 1)} | {r.randrange(2000) for _ in range(c.n(3, 30))}):
                if 0 < q < 700 and (c.thorough or q < 40 or r.random() < .5): K.add('bun %d %d %d %d' % (q, thr, mx, f := r.randrange(0, thr + 1)), k='bun', op='bunches', q=q, thr=thr, max=mx, free=f)
    K.decide()

def check(c):
    sizes(c)
    b = ffv.build_recon('default')
    scs = [scen.rand_scenario(c.rng, bunch=c.rng.choice([1, 2, 4, 8, 16, 32, 64, 128]), threads=c.rng.choice([1, 1, 2, 3, 4, 8])) for _ in range(c.n(400, 8000))]
    scs += [scen.rand_scenario(c.rng, n=c.rng.choice([2, 3]), items=2, kinds=['dense', 'rat'], bunch=bu, threads=th) for bu in (2, 4, 8, 16, 32, 64, 128) for th in (1, 2, 3)]
    for chunk in [scs[i:i + 1500] for i in range(0, len(scs), 1500)]:
        runs = scen.run_many(c, b, chunk)
        for r in runs:
            for e in r.events():
                if e['e'] == 'eb':
                    k = 'lanes_%d' % len(e['x'])
                    c.add(**{k: 1})
        scen.validate_runs(c, b, runs, 'bunch result', ident='bunch')

ffv.main('C05', 'model_checking', check)
