"""C19: the scan for a sparse shift (Shift/ShiftMC; ProbeFlowTrace, aspects "shift result")."""
from common import *
import calc
P = 2**61 - 1

def gcd_one(f, g):
    """are the two polynomials coprime? decided on a random line modulo P"""
    import random
    r = random.Random(1)
    n = len(next(iter(g)))
    a, s = [r.randrange(1, P) for _ in range(n)], [r.randrange(1, P) for _ in range(n)]
    def mul(x, y):
        z = [0] * (len(x) + len(y) - 1)
        for i, p in enumerate(x):
            for j, q in enumerate(y): z[i + j] = (z[i + j] + p * q) % P
        return z
    def uni(poly):
        t = [0]
        for e, c in poly.items():
            m = [c.numerator * pow(c.denominator, -1, P) % P]
            for q, k in enumerate(e):
                for _ in range(k): m = mul(m, [s[q], a[q]])
            t = [(t[i] if i < len(t) else 0) + (m[i] if i < len(m) else 0) for i in range(max(len(t), len(m)))]
        while t and t[-1] % P == 0: t.pop()
        return t
    x, y = uni(f), uni(g)
    while y:
        iv = pow(y[-1], -1, P)
        while len(x) >= len(y):
            q = x[-1] * iv % P
            for i in range(len(y)): x[len(x) - len(y) + i] = (x[len(x) - len(y) + i] - q * y[i]) % P
            while x and x[-1] % P == 0: x.pop()
        x, y = y, x
    return len(x) <= 1

def reduced(f):
    """without common monomial; None if there is another common factor"""
    nu, de = f
    if not nu: return f
    n = len(next(iter(de)))
    m = [min(min(e[q] for e in nu), min(e[q] for e in de)) for q in range(n)]
    cut = lambda p: {tuple(x - y for x, y in zip(e, m)): c for e, c in p.items()}
    nu, de = cut(nu), cut(de)
    return (nu, de) if gcd_one(nu, de) else None

def hidden(r, n):
    """a function that can be normalised only if certain variables are shifted"""
    S = sorted(r.sample(range(n), r.choice([1, 1, 2, n, max(1, n - 1)])))
    def poly(k):
        o = {}
        for q in range(k):
            # at least one variable, and one outside of S with some probability
            e = [0] * n
            for v in r.sample(range(n), r.randint(1, n)): e[v] = r.randint(1, 2)
            if q == 0: e = [1 if v in S else 0 for v in range(n)]
            o[tuple(e)] = scen.rand_coef(r, 0)
        return o
    return poly(r.randint(1, 3)), poly(r.randint(1, 3))

def fn(r, n):
    while True:
        k = r.choice(['h', 'h', 'h', None, None, 'mono', 'univ', 'zero', 'poly'])
        f = reduced(hidden(r, n) if k == 'h' else scen.rand_fn(r, n, k, r.choice([0, 0, 1])))
        if f: return f

def check(c):
    r = c.rng
    c.model('ShiftMC'); c.model('ShiftMC', 'ShiftMC2')
    K = calc.Calls(c)
    for n in range(1, 9):
        K.add('perm %d' % n, k='shifts', op='perm', n=n); K.add('poss %d' % n, k='shifts', op='poss', n=n)
    K.decide()
    b = ffv.build_recon('default')
    for part in range(c.n(1, 10)):
        scs = []
        for q in range(c.n(420, 800)):
            n = r.choice([2, 2, 3, 3, 4, 5])
            sc = scen.rand_scenario(r, n=n, items=1, scan=1, safe=None)
            fns = [fn(r, n) for _ in range(r.choice([1, 1, 2, 3]))]
            kw = dict(sc.kw)
            if r.random() < .15: kw.update(tags=1, _chain=chain_limits(r))
            scs.append(scen.Scenario(n, fns, **kw))
        runs = scen.run_many(c, b, scs)
        for x in runs: c.add(lines=open(x.trace).read().count('"e":"line"'))
        scen.validate_runs(c, b, runs, 'shift line result', ident='shift')

def chain_limits(r):
    from c08 import chain
    lims, k = [], 0
    for _ in range(r.choice([1, 2])):
        k += r.choice([1, 1, 2]); lims.append(k)
    return chain(lims + [0])

if __name__ == '__main__': ffv.main('C19', 'model_checking', check)
