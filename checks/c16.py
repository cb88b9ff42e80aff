"""C16: Chinese remaindering and rational reconstruction against Rational.tla."""
from common import *
from calc import *
from math import gcd
import field

def bits(m): return m.bit_length()
def image(n, d, m): return n * pow(d, -1, m) % m

def gen(c):
    r, K = c.rng, Calls(c)
    allp = field.all_primes()
    def crt(x1, m1, x2, m2): K.add('crt %d %d %d %d' % (x1, m1, x2, m2), k='crt', op='crt', x1=str(x1), m1=str(m1), x2=str(x2), m2=str(m2))
    # every pair of residues of small coprime moduli
    for m1 in range(2, c.n(9, 16)):
        for m2 in range(2, c.n(9, 16)):
            if gcd(m1, m2) == 1:
                for x1 in range(m1):
                    for x2 in range(m2): crt(x1, m1, x2, m2)
    for _ in range(c.n(600, 12000)):
        ps = r.sample(allp, r.randrange(2, 9))
        j = r.randrange(1, len(ps))
        m1 = m2 = 1
        for p in ps[:j]: m1 *= p
        for p in ps[j:]: m2 *= p
        x = r.choice([0, 1, m1 * m2 - 1, r.randrange(m1 * m2), r.randrange(m1 * m2)])
        a, b = r.choice([(x % m1, x % m2), (r.randrange(m1), r.randrange(m2)), (0, r.randrange(m2)), (r.randrange(m1), 0), (m1 - 1, m2 - 1), (m1 - 1, 0)])
        crt(a, m1, b, m2)
    # all images for small moduli
    for m in list(range(2, c.n(70, 130))):
        for x in range(m): K.add('wang %d %d' % (x, m), k='small', op='wang', x=str(x), m=str(m))
    for m in (97, 101, 128, 1009):
        for x in r.sample(range(m), min(m, 40)): K.add('mqrr %d %d' % (x, m), k='small', op='mqrr', x=str(x), m=str(m))
    def rec(meth, x, m, w): K.add('%s %d %d' % (meth, x, m), k='rec', op=meth, x=str(x), m=str(m), w=[str(q) for q in w])
    def isqrt(n):
        from math import isqrt; return isqrt(n)
    mods = []
    for k in range(1, 9): mods.append([allp[:k], r.sample(allp, k)])
    for _ in range(c.n(1200, 20000)):
        m = 1
        for p in r.choice(r.choice(mods)): m *= p
        if r.random() < .1: m = r.choice([10007, 1000003, 4294967291, 2**61 - 1])
        T = 1024 * bits(m)
        for meth in ('wang', 'mqrr'):
            if meth == 'wang':
                B = isqrt((m - 1) // 2)
                pick = lambda: r.choice([B, B - 1, max(1, B - r.randrange(1000)), r.randrange(1, B + 1), r.randrange(1, min(B, 1000) + 1), 1, 2, r.getrandbits(r.randrange(1, bits(B))) or 1])
                n, d = pick(), pick()
                if r.random() < .05: n = 0; d = 1
            else:
                L = min(isqrt((m - 1) // 4), (m - 1) // (2 * T))
                if L < 1:
                    n, d = 0, 1
                else:
                    d = r.choice([1, 2, L, r.randrange(1, L + 1), r.randrange(1, isqrt(L) + 1), r.getrandbits(r.randrange(1, bits(L) + 1)) or 1]); d = min(d, L)
                    n = r.choice([L // d, max(1, L // d - r.randrange(5)), r.randrange(1, L // d + 1), 1])
                    if r.random() < .05: n, d = 0, 1
            if r.random() < .5: n = -n
            g = gcd(n, d) or 1
            n, d = n // g, d // g
            if gcd(d, m) != 1: continue
            rec(meth, image(n, d, m), m, (n, d))
        if r.random() < .3:
            # images of nothing small: whatever is returned must have this image
            x = r.choice([r.randrange(m), m - 1, m // 2, m // 3, 0, 1])
            rec('wang', x, m, ()); rec('mqrr', x, m, ())
    return K

def check(c):
    c.model('RationalMC'); c.model('RationalMC', 'RationalMC7')
    gen(c).decide()
    c.cov['rule'] = 'all residues of small moduli; products of 1..8 library primes with numbers up to the exact bounds of each method'

ffv.main('C16', 'model_checking', check)
