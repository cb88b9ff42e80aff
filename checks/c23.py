"""C23: linear solvers against Linear.tla."""
from common import *
from calc import *
import field, itertools

OPS = ('gauss', 'gaussf', 'inv', 'lu', 'lusolve', 'luinv', 'ludet')

def det(A, p):
    A = [list(r) for r in A]; n = len(A); d = 1
    for i in range(n):
        k = next((k for k in range(i, n) if A[k][i] % p), None)
        if k is None: return 0
        if k != i: A[i], A[k] = A[k], A[i]; d = -d
        d = d * A[i][i] % p; inv = pow(A[i][i], -1, p)
        for j in range(i + 1, n):
            f = A[j][i] * inv % p
            if f: A[j] = [(x - f * y) % p for x, y in zip(A[j], A[i])]
    return d % p

def sm(A): return [[str(x) for x in r] for r in A]

def lin(K, op, p, A, b):
    n = len(A)
    K.add('lin %s %d %d %s %s' % (op, p, n, ' '.join(S(r) for r in A), S(b)), k='lin', op=op, p=str(p), A=sm(A), b=[str(x) for x in b])

def linv(K, op, p, As, bs):
    """As: one matrix per lane"""
    N, n = len(As), len(As[0])
    t = ' '.join(str(As[k][i][j]) for i in range(n) for j in range(n) for k in range(N)) + ' ' + ' '.join(str(bs[k][i]) for i in range(n) for k in range(N))
    def post(v): return [(dict(A=sm(As[k]), b=[str(x) for x in bs[k]]), v[k]) for k in range(N)]
    K.add('linv %s %d %d %d %s' % (op, p, N, n, t), k='lin', op=op, p=str(p), post=post)

def matrix(r, n, p):
    """matrices with structure: permuted triangular, sparse, companion, nearly singular, dense"""
    kind = r.randrange(7)
    e = lambda: field.elem(r, p)
    nz = lambda: e() or 1
    if kind == 0: A = [[nz() if i == j else (e() if j > i else 0) for j in range(n)] for i in range(n)]
    elif kind == 1: A = [[nz() if i == j else (e() if j < i else 0) for j in range(n)] for i in range(n)]
    elif kind == 2: A = [[nz() if i == j else 0 for j in range(n)] for i in range(n)]
    elif kind == 3: A = [[e() if r.random() < .4 else 0 for j in range(n)] for i in range(n)]
    elif kind == 4: A = [[(1 if j == i + 1 else 0) if i < n - 1 else nz() for j in range(n)] for i in range(n)]
    elif kind == 5: A = [[r.randrange(3) % p for j in range(n)] for i in range(n)]
    else: A = [[r.randrange(p) for j in range(n)] for i in range(n)]
    if r.random() < .5: r.shuffle(A)
    if r.random() < .3:
        q = list(range(n)); r.shuffle(q); A = [[row[j] for j in q] for row in A]
    if n > 1 and r.random() < .3:
        # a row that becomes small during elimination: pivots have to be exchanged later
        c = nz(); A[1] = [(c * x) % p for x in A[0]]; A[1][r.randrange(n)] = nz()
    return A

def gen(c, flavor):
    r, K = c.rng, Calls(c, flavor)
    # all regular matrices of small fields
    for p, n in ((3, 2), (5, 2)) + (((3, 3),) if c.thorough else ()):
        allm = list(itertools.product(range(p), repeat=n * n))
        if len(allm) > 3000: allm = r.sample(allm, 3000)
        for m in allm:
            A = [m[i * n:(i + 1) * n] for i in range(n)]
            ops = OPS if det(A, p) else ('ludet',)
            if flavor != 'default': ops = (r.choice(ops),)
            for op in ops: lin(K, op, p, A, [r.randrange(p) for _ in range(n)])
    for _ in range(c.n(60, 600) if flavor == 'default' else c.n(25, 200)):
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, r.randrange(1, 9)])
        p = r.choice(field.PRIMES + field.SMALL[2:])
        A = matrix(r, n, p)
        reg = det(A, p) != 0
        b = [field.elem(r, p) for _ in range(n)]
        if r.random() < .1: b = [0] * n
        for op in OPS if reg else ('ludet',): lin(K, op, p, A, b)
    # bunched elements: every lane of its own, same zero pattern
    for N in (2, 4, 8, 16, 32):
        for _ in range(c.n(3, 20) if N < 16 else c.n(1, 6)):
            n = r.choice([1, 2, 3, 4])
            p = r.choice(field.PRIMES)
            pat = matrix(r, n, p)
            As = [[[r.randrange(1, p) if x else 0 for x in row] for row in pat] for _ in range(N)]
            if any(det(A, p) == 0 for A in As): continue
            bs = [[r.randrange(p) for _ in range(n)] for _ in range(N)]
            for op in OPS: linv(K, op, p, As, bs)
    # Vandermonde systems
    for _ in range(c.n(150, 2500)):
        n, m = r.randrange(1, 5), r.choice([1, 1, 2, 3, 5, 8, r.randrange(1, 14)])
        p = r.choice(field.PRIMES)
        D = set()
        while len(D) < m: D.add(tuple(r.randrange(0, 20 if n == 1 else 8) for _ in range(n)))
        D = [(r.randrange(0, 9),) + d for d in D]
        val = [r.randrange(2, p) for _ in range(n)]
        cs = [field.elem(r, p) for _ in range(m)]
        vs = []
        for d in D:
            v = 1
            for x, e in zip(val, d[1:]): v = v * pow(x, e, p) % p
            vs.append(v)
        if len(set(vs)) < m: continue
        nums = [sum(q * pow(v, j, p) for q, v in zip(cs, vs)) % p for j in range(1, m + 1)] if r.random() < .7 else [field.elem(r, p) for _ in range(m)]
        K.add('vdm %d %d %d %s %s %s' % (p, n, m, ' '.join(S(d) for d in D), S(val), S(nums)), k='vdm', op='vdm', p=str(p), degs=[list(d) for d in D], val=[str(x) for x in val], nums=[str(x) for x in nums])
    return K

def check(c):
    c.model('LinearMC'); c.model('LinearMC', 'LinearMC3')
    for fl in ('default', 'flint'): gen(c, fl).decide()
    c.cov['rule'] = 'all 2x2 matrices over F_3 and F_5, structured and random matrices up to 8x8 over library and small primes, bunches of 2..32 lanes'

ffv.main('C23', 'model_checking', check)
