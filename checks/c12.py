"""C12: the value of parsed expressions in all forms of evaluation and after field changes, against Expr.tla."""
from common import *
import parser as P

def history(r, fs, vs, kind, ps):
    h = P.new(kind, 0, 1, r.choice([0, 0, 0, 1, 5, 298]), vs, fs)
    pi = int(h[0].split()[4])
    def evs(full):
        w = r.choice([2, 4, 8, 16, 32, 64, 128]) if full else 2
        x = P.values(r, len(vs), 1, ps[pi])
        o = ['E %s 1 %s' % (f, x) for f in ('plain', 'pre', 'pre2')]
        x = P.values(r, len(vs), w, ps[pi])
        return o + ['E %s %d %s' % (f, w, x) for f in ('plain', 'pre', 'pre2')] if w <= 4 or r.random() < .3 else o + ['E %s %d %s' % (r.choice(['plain', 'pre', 'pre2']), w, x)]
    h += evs(True)
    for q in r.sample(range(0, 300), r.choice([1, 2, 3])):
        pi = q
        h += ['P %d' % pi, 'R 0'] + evs(False)
    return h

def check(c):
    r, ps = c.rng, P.primes()
    xs = P.enumerate_exprs(c, c.n('ExprGen', 'ExprGenDeep'))
    c.add(enumerated_expressions=len(xs))
    ex = []
    for t in xs:
        for _ in range(c.n(2, 2)): ex.append(P.dress(r, t, P.VARS))
    deep = P.enumerate_exprs(c, 'ExprGenDeep')
    ex += [P.dress(r, t, P.VARS) for t in r.sample(deep, c.n(1500, len(deep)))]
    ex += [P.rand_expr(r, P.VARS, r.choice([1, 2, 2, 3])) for _ in range(c.n(1000, 20000))]
    # quotients of numbers and variables, the forms that are folded when tokens are precomputed
    for _ in range(c.n(300, 5000)):
        n = lambda: P.number(r) if r.random() < .8 else '(-%s)' % P.number(r)
        v = lambda: r.choice(P.VARS)
        ex.append(r.choice(['%s/%s/%s*%s', '%s/(%s/%s)+%s', '(%s/%s)/(%s/%s)', '%s*%s/%s/%s', '-%s/%s^2*(%s/%s)']) % tuple(r.choice([n, n, v])() for _ in range(4)))
    r.shuffle(ex)
    hs = [history(r, [e for e in ex[i:i + 25]], P.VARS, r.choice(['list', 'file']), ps) for i in range(0, len(ex), 25)]
    P.run(c, 'default', hs, 'e')
    P.run(c, 'flint', hs[::c.n(4, 2)], 'e')
    c.add(expressions=len(ex))

ffv.main('C12', 'model_checking', check)
