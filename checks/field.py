"""Operands for the field checks (C14, C15)."""
import random
import common, ffv
PRIMES = [9223372036854775783, 9223372036854775643, 9223372036854775549, 9223372036854775507]
SMALL = [3, 5, 7, 101, 65537, 2147483647, 4294967291, 1000000007]

def all_primes():
    import re
    return [int(x) for x in re.findall(r'"(\d{15,})"', open(ffv.SPEC + '/Primes.tla').read())]

def elem(r, p):
    k = r.randrange(10)
    if k == 0: return 0
    if k == 1: return 1 % p
    if k == 2: return p - 1
    if k == 3: return (p - 1 - r.randrange(4)) % p
    if k == 4: return (p // 2 + r.randrange(-2, 3)) % p
    if k == 5: return r.randrange(20) % p
    if k == 6: return (1 << r.randrange(63)) % p
    if k == 7: return ((1 << r.randrange(1, 64)) - 1) % p
    return r.randrange(p)

def integer(r, lo, hi, p):
    c = [lo, lo + 1, hi, hi - 1, 0, 1, -1, p, p - 1, p + 1, -p, -p + 1, -p - 1, 2 * p, -2 * p, p // 2, -(p // 2), 1 << 62, 1 << 63, (1 << 64) - 1, -(1 << 63), -(1 << 62), -(1 << 31), (1 << 31) - 1, 1 << 31, 1 << 32]
    c = [x for x in c if lo <= x <= hi]
    return r.choice(c) if r.random() < .6 else (r.randint(lo, hi) if r.random() < .5 else max(lo, min(hi, r.randint(-200, 200))))

def run(c, flavor, text):
    b = ffv.build('seq_field-' + flavor, ['seq_field.cpp'], flavor)
    ip, op = c.work + '/in-%s.txt' % flavor, c.work + '/out-%s.ndjson' % flavor
    open(ip, 'w').write('\n'.join(text) + '\n')
    rc, o, e = ffv.sh([b, ip, op], cwd=c.work, timeout=300)
    out = [l for l in open(op).read().split('\n') if l]
    return rc, out, e
