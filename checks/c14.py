"""C14: scalar field arithmetic of both backends against Field.tla."""
from common import *
import field, json

def gen(c):
    r, L = c.rng, []
    ps = field.PRIMES + [p for p in field.all_primes()[::c.n(40, 3)]] + field.SMALL
    R = {'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1)}
    for p in ps:
        for op, (lo, hi) in R.items():
            for x in {field.integer(r, lo, hi, p) for _ in range(c.n(12, 40))} | {lo, hi, 0}: L.append('S %s %d %d' % (op, p, x))
            for x in (p, -p, p - 1, p + 1, 1 - p, -p - 1, 2 * p, -2 * p, 7 * p, -7 * p):
                if lo <= x <= hi: L.append('S %s %d %d' % (op, p, x))
        for _ in range(c.n(12, 60)):
            m = r.choice([1, p, p, 10**r.randrange(1, 60), 2**r.randrange(1, 200)])
            L.append('S mpz %d %d' % (p, r.choice([-1, 1]) * (m * r.randrange(0, 5) + r.randrange(-3, 4))))
            L.append('S mpz %d %d' % (p, r.choice([-1, 1]) * r.randrange(10**r.randrange(1, 90))))
            s = str(r.choice([0, 1, p, p - 1, p + 1, 2 * p, p * p, 2**63, 2**64 - 1, 2**64, 10**r.randrange(60), r.randrange(10**r.randrange(1, 80))]))
            L.append('S str %d %s' % (p, '0' * r.choice([0, 0, 0, 1, 17, 18, 20, 40]) + s))
        for _ in range(c.n(6, 20)):
            x, y = field.elem(r, p), field.elem(r, p)
            for op in ('copy', 'out', 'neg', 'plus', 'not', 'zero', 'addself', 'subself', 'mulself', 'divself'): L.append('S %s %d %d' % (op, p, x))
            for op in ('add', 'sub', 'mul', 'div', 'addq', 'subq', 'mulq', 'divq', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'powf'): L.append('S %s %d %d %d' % (op, p, x, y))
            for op in ('eq', 'ne', 'le', 'lt', 'sub', 'div'): L.append('S %s %d %d %d' % (op, p, x, x))
            for op, (lo, hi) in (('powi32', R['i32']), ('powi64', R['i64']), ('powu32', R['u32']), ('powu64', R['u64'])):
                L.append('S %s %d %d %d' % (op, p, x, field.integer(r, lo, hi, p)))
                L.append('S %s %d %d %d' % (op, p, x, r.choice([0, 1, 2, 3, 5])))
            L.append('S powi32 %d %d %d' % (p, x, -r.choice([1, 2, 3, 5, 17])))
    # all pairs of small fields and boundary values of large ones
    for p in (2, 3, 5):
        for x in range(p):
            for y in range(p):
                for op in ('add', 'sub', 'mul', 'div', 'addq', 'subq', 'mulq', 'divq', 'eq', 'lt', 'powf'): L.append('S %s %d %d %d' % (op, p, x, y))
    for p in field.PRIMES[:c.n(1, 3)]:
        B = [0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1, 2**31, 2**32, 2**32 - 1, 2**62, 3037000499, 3037000500]
        for x in B:
            for y in B:
                for op in ('add', 'sub', 'mul', 'div', 'subq', 'addq', 'powf'): L.append('S %s %d %d %d' % (op, p, x, y))
    return L

def check(c):
    c.model('FieldMC')
    for flavor in ('default', 'flint'):
        L = gen(c)
        if flavor == 'flint': L = [l for l in L if not (l.split()[1] == 'powu64' and int(l.split()[4]) >= 2**63)]  # outside the backend's exponent type
        rc, out, e = field.run(c, flavor, L)
        if rc or len(out) != len(L):
            c.violation('crash:' + flavor, 'the %s backend ends the process (status %d) %s near operation %s' % (flavor, rc, e[-300:], L[len(out)] if len(out) < len(L) else ''))
        for i, want in ffv.calls(c, 'FieldCalls', out):
            d = json.loads(out[i])
            c.violation('%s:%s:%s' % (flavor, d['op'], ','.join([d['p']] + d['a'])), 'gives %s, expected %s' % (d['r'], want))
        c.add(**{'calls_' + flavor: len(out)})
        c.sample(out[0] if out else '')

ffv.main('C14', 'model_checking', check)
