"""C17: stand-alone interpolation against Interp.tla."""
from common import *
from calc import S
import field, json, random

def coef(r, primes=()):
    k = r.randrange(6)
    n = r.choice([-1, 1]) * (1 if k == 0 else r.randrange(1, 50) if k < 3 else r.randrange(1, 10**r.randrange(1, 40)))
    if primes and r.random() < .15: n *= r.choice(primes)
    d = 1 if r.random() < .5 else r.choice([2, 3, 7, r.randrange(1, 1000), r.randrange(1, 10**r.randrange(1, 30))])
    return n, d
def terms(d): return '%d %s' % (len(d), ' '.join('%s %d %d' % (S(e), n, q) for e, (n, q) in d.items()))

def polyc(r, coeffs): return {(i,): (v, 1) for i, v in enumerate(coeffs) if v}
def mulc(a, b):
    c = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): c[i + j] += x * y
    return c

def gcddeg(a, b, p=field.PRIMES[3]):
    a, b = [x % p for x in a], [x % p for x in b]
    while b:
        while b and not b[-1]: b.pop()
        if not b: break
        i = pow(b[-1], -1, p)
        while len(a) >= len(b):
            f = a[-1] * i % p
            for j in range(len(b)): a[len(a) - len(b) + j] = (a[len(a) - len(b) + j] - f * b[j]) % p
            a.pop()
        a, b = b, a
    return len(a) - 1

def thiele(c):
    r, L = c.rng, []
    for dn in range(0, c.n(7, 12)):
        for dd in range(0, c.n(7, 12)):
            for rep in range(c.n(2, 10)):
                # products of different linear and quadratic factors: numerator and denominator are coprime over the rationals
                while True:
                    A, B = [r.choice([1, -3, 7, 10**20])], [r.choice([1, 2, -5])]
                    rts = r.sample(range(-60, 60), dn + dd)
                    for x in rts[:dn]: A = mulc(A, [-x, 1])
                    for x in rts[dn:]: B = mulc(B, [-x, 1])
                    if rep % 2:
                        A = [x if i in (0, dn) and x or r.random() < .5 else (0 if 0 < i < dn else x) for i, x in enumerate(A)]
                        if gcddeg(A, B): continue
                    if A[-1] and B[-1] and len(A) == dn + 1: break
                L.append('thiele %d %d %d %s %s' % (r.choice(field.PRIMES), r.getrandbits(60), 3 * (dn + dd) + 20, terms(polyc(r, A)), terms(polyc(r, B))))
    L.append('thiele %d 5 20 0  1 0 1 1' % field.PRIMES[0])
    return L

def polys(c):
    r, L = c.rng, []
    for q in range(c.n(420, 6000)):
        n = r.choice([1, 1, 2, 2, 3, 4])
        D = {}
        # coefficients may vanish modulo one of the primes that are used
        V = r.choice([(), (), field.PRIMES[1:2], field.PRIMES[1:3], field.PRIMES[:3]])
        mode = r.randrange(5)
        dm = {1: 25, 2: 9, 3: 6, 4: 4}[n]
        for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12])):
            if mode == 0: e = [r.randrange(dm) for _ in range(n)]
            elif mode == 1: e = [r.randrange(2) * r.randrange(dm) for _ in range(n)]
            elif mode == 2: e = [0] * n; e[r.randrange(n)] = r.randrange(dm)
            elif mode == 3:
                e = [0] * n
                for _ in range(dm): e[r.randrange(n)] += 1
            else: e = [r.choice([0, dm]) for _ in range(n)]
            D[tuple(e)] = coef(r, V)
        if r.random() < .2: D[tuple([0] * n)] = coef(r)
        td = max([sum(e) for e in D] + [0])
        mx = [max([e[i] for e in D] + [0]) for i in range(n)]
        newton, bt = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        emb = r.random() < .35 and len(D) > 0
        deg = r.choice([-1, td, td, td + 1, td + 3])
        if emb: deg = td; D = D or {tuple([0] * n): (1, 1)}
        if not newton and deg == -1: deg = td + 1
        nb = []
        if r.random() < .35: nb = [m + r.choice([0, 0, 0, 1, 2]) for m in mx]
        L.append('poly %d %d %d %s %d %d %d %d %d %d %d %s' % (n, deg, len(nb), S(nb), newton, bt, emb, r.getrandbits(60), 60000, r.choice([0, 0, 1, 2, 3]), r.randrange(2), terms(D)))
    return L

def check(c):
    for fl in ('default', 'flint'):
        L = thiele(c) + polys(c) if fl == 'default' or c.thorough else polys(c)[::6]
        b = ffv.build('seq_interp-' + fl, ['seq_interp.cpp'], fl)
        chunks = [L[i::ffv.NCPU] for i in range(ffv.NCPU)]
        def one(q):
            ip, op = c.work + '/i%d.txt' % q, c.work + '/i%d.out' % q
            open(ip, 'w').write('\n'.join(chunks[q]) + '\n')
            rc, o, e = ffv.sh([b, ip, op], cwd=c.work, timeout=800)
            return rc, [l for l in open(op).read().split('\n') if l], o + e
        lines, groups, hist = [], [], []
        for q, (rc, out, err) in enumerate(ffv.pmap(one, range(ffv.NCPU))):
            k = -1
            for x in out:
                if x.startswith('{"e":"thiele"') or x.startswith('{"e":"poly"'):
                    k += 1; groups.append([len(lines), len(lines)]); hist.append(chunks[q][k])
                lines.append(x); groups[-1][1] = len(lines)
            if rc: c.violation('ends:' + ffv.digest(chunks[q][k])[:8], 'the process ends (status %d) in the dialogue %s %s' % (rc, chunks[q][k][:400], err[-200:]))
        for i, want in ffv.calls(c, 'InterpTrace', lines, groups=[tuple(g) for g in groups]):
            g = next(k for k, (a, z) in enumerate(groups) if a <= i < z)
            c.violation('%s:%s' % (json.loads(lines[i])['e'], ffv.digest(hist[g])[:8]), 'dialogue "%s" (%s), event %d %s: not explained: %s' % (hist[g][:500], fl, i - groups[g][0], lines[i][:300], want[:200]))
        c.add(**{'dialogues_' + fl: len(groups), 'events_' + fl: len(lines)})
    c.sample(lines[0][:300])

ffv.main('C17', 'model_checking', check)
