"""C15: vectors of field numbers against Field.tla."""
from common import *
import field, json

def gen(c):
    r, L = c.rng, []
    for N in (2, 4, 8, 16, 32, 64, 128):
        for rep in range(c.n(2, 12) if N > 16 else c.n(6, 40)):
            for p in [r.choice(field.PRIMES), r.choice(field.SMALL)]:
                def vec(): return [field.elem(r, p) for _ in range(N)]
                def J(v): return ' '.join(map(str, v))
                x, y = vec(), vec()
                if rep % 3 == 1: x = [r.randrange(1, p) for _ in range(N)]
                if rep % 3 == 2: x = [r.randrange(1, p) for _ in range(N)]; x[r.choice([0, N - 1, r.randrange(N)])] = 0
                for op in ('id', 'copy', 'zero', 'iter', 'index', 'at', 'set', 'neg', 'plus', 'addself', 'subself', 'mulself', 'divself', 'not', 'fill'): L.append('V %s %d %d %s' % (op, N, p, J(x)))
                for op in ('add', 'sub', 'mul', 'div', 'addq', 'subq', 'mulq', 'divq', 'powf', 'powfs', 'eq', 'ne'): L.append('V %s %d %d %s %s' % (op, N, p, J(x), J(y)))
                for op in ('eq', 'ne', 'sub', 'div'): L.append('V %s %d %d %s %s' % (op, N, p, J(x), J(x)))
                z = list(x); k = r.choice([0, N - 1, r.randrange(N)]); z[k] = (z[k] + 1) % p
                for op in ('eq', 'ne', 'sub'): L.append('V %s %d %d %s %s' % (op, N, p, J(x), J(z)))
                for o in ('add', 'sub', 'mul', 'div'):
                    sc = r.choice([0, 1, p - 1, field.elem(r, p), r.randrange(p)])
                    for f in ('vs', 'sv', 'qs'): L.append('V %s%s %d %d %s %d' % (o, f, N, p, J(x), sc))
                    for f in ('vi', 'iv'): L.append('V %s%s %d %d %s %d' % (o, f, N, p, J(x), r.choice([0, 1, 2, 3, -1, -7, 2**31 - 1, r.randrange(-1000, 1000)])))
                u, w = field.elem(r, p), field.elem(r, p)
                for op in ('lt', 'le', 'gt', 'ge'):
                    for w in (w, u): L.append('V %s %d %d %s %s' % (op, N, p, J([u] * N), J([w] * N)))
                for e in (0, 1, 2, 3, -1, -2, 7, r.randrange(-1000, 1000)):
                    L.append('V powi %d %d %s %d' % (N, p, J(x), e)); L.append('V powi2 %d %d %s %d' % (N, p, J(x), e))
                L.append('V powv %d %d %s %s' % (N, p, J(x), J([r.choice([0, 1, 2, 3, -1, -2, 5, r.randrange(-50, 50)]) for _ in range(N)])))
    return L

def check(c):
    c.model('FieldMC')
    for flavor in ('default', 'flint'):
        L = gen(c)
        rc, out, e = field.run(c, flavor, L)
        if rc or len(out) != len(L):
            c.violation('crash:' + flavor, 'the %s backend ends the process (status %d) %s near operation %s' % (flavor, rc, e[-300:], L[len(out)][:300] if len(out) < len(L) else ''))
        for i, want in ffv.calls(c, 'FieldCalls', out):
            d = json.loads(out[i])
            c.violation('%s:%s:%d' % (flavor, d['op'], d['n']), 'p=%s arguments %s gives %s, expected %s' % (d['p'], d['a'], d['r'], want))
        c.add(**{'calls_' + flavor: len(out)})
        c.sample(out[0] if out else '')

ffv.main('C15', 'model_checking', check)
