"""C24: polynomial and rational-number classes against PolyAlg.tla."""
from common import *
from calc import *
import field

def rpoly(r, n, p, k=None, deg=5, zero=True):
    k = r.choice([0, 1, 1, 2, 3, 5, 8]) if k is None else k
    d = {}
    for _ in range(k): d[tuple(r.randrange(0, deg) for _ in range(n))] = field.elem(r, p) if zero else (field.elem(r, p) or 1)
    return d
def tok(d): return '%d %s' % (len(d), ' '.join(S(e) + ' %d' % v for e, v in d.items()))
def js(d): return [[list(e), str(v)] for e, v in d.items()]

def related(r, a, n, p):
    """a polynomial sharing monomials with a, some of which cancel"""
    b = rpoly(r, n, p)
    for e, v in a.items():
        q = r.random()
        if q < .25: b[e] = v
        elif q < .5: b[e] = (p - v) % p
        elif q < .6: b[e] = field.elem(r, p)
    b = list(b.items()); r.shuffle(b)
    return dict(b)

def ffcalls(c, K):
    r = c.rng
    for _ in range(c.n(110, 1600)):
        n, p = r.choice([1, 1, 2, 2, 3, 4]), r.choice(field.PRIMES + [101, 4294967291])
        a = rpoly(r, n, p); b = related(r, a, n, p)
        base = '%d %d %s' % (p, n, tok(a))
        for op in ('add', 'sub', 'mul', 'addq', 'subq'): K.add('ff %s %s %s' % (op, base, tok(b)), k='ff', op=op, p=str(p), n=n, a=js(a), b=js(b))
        s = field.elem(r, p)
        for op in ('scale', 'scaleq'): K.add('ff %s %s %d' % (op, base, s), k='ff', op=op, p=str(p), n=n, a=js(a), c=str(s))
        for op in ('div', 'divq'): K.add('ff %s %s %d' % (op, base, s or 1), k='ff', op=op, p=str(p), n=n, a=js(a), c=str(s or 1))
        z = r.randrange(1, n + 1); K.add('ff mulz %s %d' % (base, z), k='ff', op='mulz', p=str(p), n=n, a=js(a), z=z)
        D = max([sum(e) for e in a] + [0]) + r.randrange(3); K.add('ff homog %s %d' % (base, D), k='ff', op='homog', p=str(p), n=n, a=js(a), z=D)
        x = [field.elem(r, p) for _ in range(n)]
        K.add('ff calc %s %s' % (base, S(x)), k='ff', op='calc', p=str(p), n=n, a=js(a), x=[str(q) for q in x])
        K.add('ff copycalc %s %s' % (base, S(x)), k='ff', op='copycalc', p=str(p), n=n, a=js(a), x=[str(q) for q in x])
        K.add('ff clean %s' % base, k='ff', op='clean', p=str(p), n=n, a=js(a))
        if not (len(a) > 1 and not any(a.values())): K.add('ff zero %s' % base, k='ff', op='zero', p=str(p), n=n, a=js(a))
        nz = {e: v for e, v in a.items() if v}
        if nz:
            bz = '%d %d %s' % (p, n, tok(nz))
            K.add('ff maxdeg %s' % bz, k='ff', op='maxdeg', p=str(p), n=n, a=js(nz))
            o = r.choice(['add', 'sub'])
            t = dict(nz)
            for e, v in b.items(): t[e] = (t.get(e, 0) + (v if o == 'add' else -v)) % p
            if any(t.values()): K.add('ff maxdegq %s %s %s' % (bz, o, tok(b)), k='ff', op='maxdegq', p=str(p), n=n, a=js(nz), o=o, b=js(b))
        if p > 1000:
            sh = [0 if r.random() < .3 else field.elem(r, p) for _ in range(n)]
            K.add('ff shift %s %s' % (base, S(sh)), k='ff', op='shift', p=str(p), n=n, a=js(a), x=[str(q) for q in sh])
    # evaluation in n - 1 variables, with the precomputed form of large polynomials
    for _ in range(c.n(24, 300)):
        n, p = r.choice([2, 2, 3, 4]), r.choice(field.PRIMES)
        k = r.choice([0, 1, 5, 20, 49, 50, 51, 52, 60, 75])
        def hom(k, deg):
            # homogeneous, as the library uses it: the first power is fixed by the others
            d = {}
            for _ in range(3 * k):
                if len(d) >= k: break
                e = [r.randrange(0, deg) for _ in range(n - 1)]
                d[tuple([n * deg - sum(e)] + e)] = field.elem(r, p) or 1
            return d
        deg = {2: 90, 3: 12, 4: 6}[n]
        a = hom(k, deg)
        st, toks = [], []
        for i in range(r.randrange(1, 7)):
            o = r.choice(['none', 'none', 'add', 'sub', 'scale', 'div', 'copy', 'deg'])
            x = [field.elem(r, p) for _ in range(n - 1)]
            s = dict(o=o, x=[str(q) for q in x]); t = o
            if o in ('add', 'sub'):
                b = hom(r.choice([1, 2, 30, 55]), deg)
                if r.random() < .4: b.update({e: v for e, v in list(a.items())[:r.randrange(1, 60)]})
                s['b'] = js(b); t += ' ' + tok(b)
            if o in ('scale', 'div'):
                q = field.elem(r, p) or 2
                s['c'] = str(q); t += ' %d' % q
            st.append(s); toks.append(t + ' ' + S(x))
        K.add('ff calcseq %d %d %s %d %s' % (p, n, tok(a), len(st), ' '.join(toks)), k='ff', op='calcseq', p=str(p), n=n, a=js(a), st=st)

def big(r):
    q = r.randrange(8)
    v = 0 if q == 0 else r.randrange(1, 20) if q < 4 else r.randrange(1, 10**r.randrange(1, 50)) if q < 7 else 2**r.randrange(1, 130)
    return v if r.random() < .5 else -v

def rncalls(c, K):
    r = c.rng
    for _ in range(c.n(160, 3000)):
        g = r.choice([1, 1, 2, 6, 30, 10**12])
        a = (big(r) * g, (big(r) or 1) * r.choice([1, g])); b = (big(r) * r.choice([1, g]), (big(r) or 3) * r.choice([1, g]))
        if r.random() < .25: b = (b[0], a[1])
        if r.random() < .1: b = a
        if r.random() < .1: b = (-a[0], a[1])
        if r.random() < .1: b = (a[0] * 7, a[1] * 7)
        m = dict(k='rn', a=[str(x) for x in a])
        for op in ('new', 'neg'): K.add('rn %s %d %d' % (op, a[0], a[1]), op=op, **m)
        for op in ('eq', 'mul', 'mulq', 'addq', 'subq', 'addself', 'subself', 'mulself', 'gcd'): K.add('rn %s %d %d %d %d' % (op, a[0], a[1], b[0], b[1]), op=op, b=[str(x) for x in b], **m)
        n = r.randrange(1, 5)
        e1, e2 = [r.randrange(5) for _ in range(n)], [r.randrange(5) for _ in range(n)]
        if r.random() < .4: e2 = list(e1); r.shuffle(e2)
        t = 'mon %%s %d 2 %s %d %d %s %d %d' % (n, S(e1), a[0], a[1], S(e2), b[0], b[1])
        for op in ('mul', 'neg', 'cmp'): K.add(t % op, k='mon', op=op, a=[[e1, str(a[0]), str(a[1])], [e2, str(b[0]), str(b[1])]])

def polcalls(c, K):
    r = c.rng
    for _ in range(c.n(120, 2500)):
        n, p = r.randrange(1, 5), r.choice(field.PRIMES)
        d = {}
        for _ in range(r.choice([0, 1, 1, 2, 4, 9])):
            q = (big(r) * r.choice([1, 1, 1, p]), abs(big(r)) or 1)
            if q[1] % p == 0: q = (q[0], 1)
            d[tuple(r.randrange(6) for _ in range(n))] = q
        a = [[list(e), str(v[0]), str(v[1])] for e, v in d.items()]
        t = '%d %d %d %s' % (p, n, len(d), ' '.join('%s %d %d' % (S(e), v[0], v[1]) for e, v in d.items()))
        for op in ('toff', 'sort', 'clear'): K.add('pol %s %s' % (op, t), k='pol', op=op, p=str(p), a=a)
        if len(d) < 2 or all(v[0] for v in d.values()): K.add('pol zero %s' % t, k='pol', op='zero', p=str(p), a=a)
        b = (big(r), big(r) or 1)
        K.add('pol scale %s %d %d' % (t, b[0], b[1]), k='pol', op='scale', p=str(p), a=a, b=[str(x) for x in b])

def upcalls(c, K):
    r = c.rng
    def up(p, lo=1, hi=8, pad=True):
        v = [field.elem(r, p) for _ in range(r.randrange(lo, hi))]
        if pad and r.random() < .3: v += [0] * r.randrange(1, 4)
        return v
    def T(v): return '%d %s' % (len(v), S(v))
    for _ in range(c.n(100, 1500)):
        p = r.choice(field.PRIMES + [101, 65537])
        a, b = up(p), up(p)
        q = r.random()
        if q < .2: b = list(a)
        elif q < .3: b = [(p - x) % p for x in a]
        J = dict(k='up', p=str(p), a=[str(x) for x in a])
        for op in ('add', 'sub', 'mul'): K.add('up %s %d %s %s' % (op, p, T(a), T(b)), op=op, b=[str(x) for x in b], **J)
        s = field.elem(r, p) or 5
        for op in ('scale', 'divs'): K.add('up %s %d %s %d' % (op, p, T(a), s), op=op, c=str(s), **J)
        K.add('up deg %d %s' % (p, T(a)), op='deg', **J)
        if any(a): K.add('up rev %d %s' % (p, T(a)), op='rev', **J)
        if any(a) and any(b):
            K.add('up divmod %d %s %s' % (p, T(a), T(b)), op='divmod', b=[str(x) for x in b], **J)
            K.add('up gcd %d %s %s' % (p, T(a), T(b)), op='gcd', b=[str(x) for x in b], **J)
    for _ in range(c.n(20, 120)):
        p = r.choice([101, 103, 1009, 65537])
        rs = [r.choice([0, 1, p - 1, r.randrange(p)]) for _ in range(r.randrange(1, 5))]
        a = [r.randrange(1, p)]
        for x in rs: a = [((a[i - 1] if i else 0) - x * (a[i] if i < len(a) else 0)) % p for i in range(len(a) + 1)]
        K.add('up roots %d %s' % (p, T(a)), k='up', op='roots', p=str(p), a=[str(x) for x in a])

def check(c):
    for m in ('PolyAlgMC',): c.model(m)
    for fl in ('default', 'flint'):
        K = Calls(c, fl)
        ffcalls(c, K)
        if fl == 'default' or c.thorough: rncalls(c, K); polcalls(c, K); upcalls(c, K)
        K.decide()

ffv.main('C24', 'model_checking', check)
