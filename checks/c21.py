"""C21: printed results against Printed.tla (and read back by the library's own parser)."""
from common import *
from calc import *
import field, parser as fparser

def coef(r, p):
    while True:
        k = r.randrange(12)
        n = {0: 1, 1: -1, 2: 1, 3: -1}.get(k, None)
        d = 1
        if n is None:
            n = r.choice([r.randrange(-9, 10), r.randrange(-10**6, 10**6), r.choice([-1, 1]) * r.randrange(10**r.randrange(1, 60)), r.choice([-1, 1]) * 2**64])
            if r.random() < .5: d = r.choice([2, 3, 7, 10**9 + 7, r.randrange(1, 10**r.randrange(1, 40))])
        if d % p and n: return n, d

def poly(r, n, p, k=None, deg=None):
    k = r.choice([0, 1, 1, 2, 3, 5, 9]) if k is None else k
    deg = deg or r.choice([1, 2, 3, 6, 12])
    d = {}
    for _ in range(k):
        e = [r.randrange(0, deg + 1) if r.random() < .7 else 0 for _ in range(n)]
        if r.random() < .15: e = [0] * n
        d[tuple(e)] = coef(r, p)
    return d
def tq(d): return '%d %s' % (len(d), ' '.join('%s %d %d' % (S(e), v[0], v[1]) for e, v in d.items()))
def tf(d): return '%d %s' % (len(d), ' '.join('%s %d' % (S(e), v) for e, v in d.items()))
def jq(d): return [[list(e), str(v[0]), str(v[1])] for e, v in d.items()]
def jf(d): return [[list(e), str(v), '1'] for e, v in d.items()]
NAMES = ['x', 'y', 'z', 't', 'a1', 'z2', 'mt2', 's12', 'D', 'longvariable4567']

def gen(c, fl):
    r, K = c.rng, Calls(c, fl)
    for _ in range(c.n(260, 4000) if fl == 'default' else c.n(80, 900)):
        n, p = r.choice([1, 1, 2, 2, 3, 4, 5]), r.choice(field.PRIMES)
        vs = r.sample(NAMES, n)
        pts = [[field.elem(r, p) for _ in range(n)], [r.randrange(2, p) for _ in range(n)], [r.randrange(2, p) for _ in range(n)]]
        head = '%d %d %s %d %s' % (p, n, S(vs), len(pts), ' '.join(S(x) for x in pts))
        M = dict(k='pr', p=str(p), vars=vs, pts=[[str(q) for q in x] for x in pts])
        # rational functions with factors and reordered variables
        a, b = poly(r, n, p), poly(r, n, p)
        if r.random() < .3: b = {tuple([0] * n): (1, 1)}
        fs, ft = [], ''
        if r.random() < .5:
            for _ in range(r.randrange(1, 4)):
                v, f, g = r.randrange(n), poly(r, 1, p), poly(r, 1, p)
                fs.append(dict(v=v, n=jq(f), d=jq(g))); ft += ' %d %s %s' % (v, tq(f), tq(g))
        om = []
        if r.random() < .5: om = r.sample(range(n), n)
        t = '%s %s %d%s %d %s' % (tq(a), tq(b), len(fs), ft, len(om), ' '.join('%d %d' % (i, x) for i, x in enumerate(om)))
        o = dict(n=jq(a), d=jq(b), f=fs, ord=om)
        for op in ('rf', 'rfh'): K.add('pr %s %s %s' % (op, head, t), op=op, o=o, **M)
        for op in ('poly', 'polyh', 'hrn', 'hmon'): K.add('pr %s %s %s' % (op, head, tq(a)), op=op, o=jq(a), **M)
        fa = {e: field.elem(r, p) or 1 for e in a}; fb = {e: field.elem(r, p) or 1 for e in b}
        for op in ('hff', 'ff'): K.add('pr %s %s %s' % (op, head, tf(fa)), op=op, o=jf(fa), **M)
        K.add('pr rff %s %s %s' % (head, tf(fa), tf(fb)), op='rff', o=dict(n=jf(fa), d=jf(fb), f=[], ord=[]), **M)
        q = coef(r, p) if r.random() < .8 else (0, 1)
        for op in ('rn', 'rnout'): K.add('pr %s %s %d %d' % (op, head, q[0], q[1]), op=op, o=[str(q[0]), str(q[1])], **M)
    return K

def check(c):
    for fl in ('default', 'flint'): gen(c, fl).decide('PrintCalls')

ffv.main('C21', 'model_checking', check)
