"""C02: every schedule ends with the same results (scheduled runs of the library; JobLoop explored exhaustively)."""
from common import *

def check(c):
    b = ffv.build_recon('default')
    base = [scen.rand_scenario(c.rng, kinds=['rat', 'rat', 'poly', 'mono', 'const', 'zero', 'invpoly', 'univ'], n=c.rng.choice([1, 2, 2, 3])) for _ in range(c.n(60, 400))]
    scs = []
    for s in base:
        for q in range(c.n(16, 60)):
            scs.append(s.but(threads=c.rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12]), bunch=c.rng.choice([1, 1, 1, 2, 4, 16]), sseed=c.rng.randrange(1, 1 << 30), slow=c.rng.choice([0, 0, 1, 5, 40]),
                             policy=c.rng.choice(['random', 'random', 'pct', 'pct', 'pct', 'sticky', 'starve_main', 'starve_workers', 'roundrobin', 'nonpreempt'])))
    for chunk in [scs[i:i + 1500] for i in range(0, len(scs), 1500)]:
        runs = scen.run_many(c, b, chunk)
        for r in runs:
            if 'report this error' in r.err + r.out:
                r2 = scen.execute(b, r.sc, r.dir + '.again')
                if 'report this error' in r2.err + r2.out:
                    c.violation('lost:' + ffv.digest(r.sc.text())[:10], 'the library reports that it has lost its work ("Nothing left to feed")\n' + r.sc.text(), [r.dir + '/scenario.txt', r.trace])
        c.add(schedules=len({(r.events() or [{}])[-1].get('hash') for r in runs}))
        scen.validate_runs(c, b, runs, 'result', ident='sched')

ffv.main('C02', 'model_checking', check)
