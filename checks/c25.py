"""C25: functions made unlucky for the prime fields and points that are used (ProbeFlowTrace, aspects "result flow order")."""
import re
from fractions import Fraction as F
from common import *

PR = [int(x) for x in re.findall(r'"(\d{19})"', open(os.path.join(ffv.VERIF, 'spec/Primes.tla')).read())]

def modp(poly, p): return {e for e, c in poly.items() if c.numerator % p}
def keeps_form(f, p):
    """no common monomial appears in the field, and the denominator does not vanish"""
    nu, de = modp(f[0], p), modp(f[1], p)
    if not de: return False
    if not nu: return True
    return all(min(e[q] for e in nu) == 0 or min(e[q] for e in de) == 0 for q in range(len(next(iter(de)))))

def scaled(r, n, safe):
    """a function of which the value (or, in safe mode, a coefficient) vanishes in one of the first fields"""
    while True:
        f = scen.rand_fn(r, n, r.choice(['rat', 'poly', 'const', 'mono', 'dense', 'univ']), r.choice([1, 1, 2]))
        nu, de = dict(f[0]), dict(f[1])
        if not nu: continue
        if any(c.denominator % p == 0 for c in list(nu.values()) + list(de.values()) for p in PR[:8]): continue
        ps = r.sample(PR[:5], r.choice([1, 1, 2]))
        if not safe or r.random() < .3:
            if r.random() < .25: ps = [PR[q] for q in r.choice([(0, 1), (1, 2), (1, 2, 3), (0, 2), (2, 3, 4)])]
            m = 1
            for p in ps: m *= p
            nu = {e: c * m for e, c in nu.items()}
        else:
            for p in ps:
                w = r.choice([nu, nu, de])
                free = [e for e, c in w.items() if not any(c.numerator % q == 0 for q in PR[:8])]
                if len(w) > 1 and free: w[r.choice(free)] *= p
        f = (nu, de)
        # known finding: outside of safe mode a function must not vanish in the first field only
        if not safe and any(not any(c.numerator % p for c in nu.values()) for p in PR[:1]) and not all(not modp(nu, p) for p in PR[:3]): continue
        # in fields other than those of vanishing values the function has to keep its form
        if all(not modp(nu, p) or keeps_form(f, p) for p in PR[:8]) and all(modp(de, p) for p in PR[:8]): return f

def evaluate(poly, x, p):
    v = 0
    for e, c in poly.items():
        t = c.numerator * pow(c.denominator, -1, p) % p
        for xi, k in zip(x, e): t = t * pow(xi, k, p) % p
        v += t
    return v % p

def crt(eqs):
    a, m = 0, 1
    for b, p in eqs:
        a += m * ((b - a) * pow(m, -1, p) % p); m *= p
    return a

def rooted(r, sc, run):
    """the same scenario with a function that is zero at chosen points of a recorded run: its constant coefficient is changed"""
    pts, field = {}, -1
    for e in run.events():
        if e['e'] == 'prime': field = PR.index(int(e['p']))
        elif e['e'] == 'eb' and field < 5: pts.setdefault(field, []).extend(tuple(int(v) for v in x) for x in e['x'])
    i = r.randrange(len(sc.fns))
    nu, de = dict(sc.fns[i][0]), dict(sc.fns[i][1])
    one = tuple([0] * sc.n)
    old = nu.pop(one, F(0))
    if not nu: return None
    fields = [f for f in r.choice([(0,), (0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (1, 2, 3)]) if f in pts and (f or sc.get('safe'))]
    if not fields: return None
    first = r.random() < .6
    c = crt([(-evaluate(nu, pts[f][0 if first else r.randrange(len(pts[f]))], PR[f]) % PR[f], PR[f]) for f in fields])
    if c == 0: return None
    nu[one] = F(c)
    fns = list(sc.fns); fns[i] = (nu, de)
    return scen.Scenario(sc.n, fns, **dict(sc.kw, _first=1 if first else 0))

def known(c, b):
    """the recorded finding: a function that vanishes in the first field, but not in all of the first three, outside of safe mode"""
    for n in (1, 2):
        f = ({tuple([1] + [0] * (n - 1)): F(3 * PR[0]), tuple([0] * n): F(7 * PR[0])}, {tuple([0] * n): F(1), tuple([2] * n): F(1)})
        run = scen.execute(b, scen.Scenario(n, [f], threads=1, bunch=1), os.path.join(c.work, 'known%d' % n))
        if 'Cannot continue' in run.err:
            c.violation('vanishes-in-first-field-n%d' % n, 'the run ends with "Nothing left to feed" instead of a result; scenario:\n' + run.sc.text()[:600], [run.trace])
        else: scen.validate_runs(c, b, [run], 'result', ident='known%d' % n)

def check(c):
    r = c.rng
    b = ffv.build_recon('default')
    known(c, b)
    for part in range(c.n(1, 12)):
        scs = []
        for _ in range(c.n(330, 600)):
            n, safe = r.choice([1, 2, 2, 3]), r.random() < .6
            fns = [scaled(r, n, safe) if r.random() < .75 else scen.rand_fn(r, n) for _ in range(r.choice([1, 2, 3]))]
            scs.append(scen.Scenario(n, fns, **scen.rand_scenario(r, n=n, items=1, safe=1 if safe else None, scan=None if safe else r.choice([None, None, None, 1]) if n > 1 else None).kw))
        base = [scen.rand_scenario(r, n=r.choice([1, 2, 3]), kinds=['rat', 'poly', 'dense', 'mono', 'univ'], items=r.choice([1, 2, 3])) for _ in range(c.n(220, 300))]
        again = [rooted(r, x.sc, x) for x in scen.run_many(c, b, base, name='base') if x.rc == 0]
        again = [s for s in again if s]
        c.add(vanishing_coefficients_and_values=len(scs), zeros_at_used_points=len(again))
        runs = scen.run_many(c, b, scs + again)
        # a zero behind the first probe may make a system of equations singular, which ends the run with this error
        singular = [x for x in runs if x.sc.get('_first') == 0 and x.rc == 1 and 'Singular system of equations' in x.err]
        c.add(singular_systems_because_of_zeros=len(singular))
        runs = [x for x in runs if x not in singular]
        scen.validate_runs(c, b, runs, 'result flow order', ident='unlucky')

if __name__ == '__main__': ffv.main('C25', 'model_checking', check)
