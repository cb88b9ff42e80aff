"""Parser histories (C12, C13): generation, execution by harness/seq_parse, validation against ParserTrace."""
import json, os, re
import common, ffv
VARS = ['x', 'y', 's12', 'Zz', 'abcdefghijklmnop', 'x1', 'x10']

def number(r):
    k = r.randrange(12)
    if k < 6: return str(r.randrange(1, 60))
    if k == 6: return str(r.randrange(1, 10**18))
    if k == 7: return str(r.randrange(10**16, 10**19))
    if k == 8: return str(r.randrange(10**18, 10**r.choice([19, 20, 25, 40, 80])))
    if k == 9: return str(r.choice([9223372036854775783, 9223372036854775782, 9223372036854775784, 2**63, 2**64, 2**64 - 1, 10**18, 10**18 - 1, 999999999999999999]))
    if k == 10: return '0' * r.randrange(1, 3) + str(r.randrange(1, 100))
    return str(r.randrange(2, 10))

def expo(r): return r.choice(['2', '2', '3', '1', '0', '5', '10', '17', '100', '(2)', '(-1)', '(-1)', '(-2)', '(-3)', '(-10)', '(+2)', '(-0)', '63', '1000'])

def rand_expr(r, vs, depth):
    """random expression of the language of Expr.tla"""
    def atom(d):
        k = r.random()
        if d <= 0 or k < .55: return r.choice(vs) if r.random() < .6 else number(r)
        return '(' + expr(d - 1) + ')'
    def fact(d):
        a = atom(d)
        return a + '^' + expo(r) if r.random() < .25 else a
    def term(d):
        s = fact(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): s += r.choice('**/') + fact(d)
        return s
    def expr(d):
        s = r.choice(['', '', '', '-', '+']) + term(d)
        for _ in range(r.choice([0, 1, 1, 2, 3])): s += r.choice(['+', '+', '-', '-', '+-', '-+']) + term(d)
        return s
    return expr(depth)

def enumerate_exprs(c, cfg):
    res = ffv.tlc('ExprGen', cfg, workers=ffv.NCPU)
    if res.rc: raise ffv.InfraError('ExprGen: ' + res.out[-2000:])
    c.add(states=res.distinct, transitions=res.generated)
    return sorted(set(re.findall(r'<<"X", "([^"]*)">>', res.out)))

def dress(r, t, vs):
    """the same expression with other variables and numbers (exponents are kept)"""
    t = re.sub(r'\^(\(-1\)|2)', lambda m: '^\x03%s\x04' % (m.group(1) if r.random() < .5 else expo(r)), t)
    out = ''
    for part in re.split(r'(\x03[^\x04]*\x04)', t):
        if part.startswith('\x03'): out += part[1:-1]
        else: out += re.sub('x|2', lambda m: r.choice(vs) if m.group(0) == 'x' else number(r), part)
    return out

def values(r, n, w, p):
    return ' '.join(str(r.randrange(1, p) if r.random() < .8 else r.choice([1, 2, 3, p - 1, p // 2])) for _ in range(n * w))

def primes():
    return [int(x) for x in re.findall(r'"(\d{15,})"', open(ffv.SPEC + '/Primes.tla').read())]

def new(kind, eq, keep, pi, vs, fs): return ['N %s %d %d %d %d %s %d' % (kind, eq, keep, pi, len(vs), ' '.join(vs), len(fs))] + list(fs)

def run(c, flavor, histories, ident):
    """executes the histories (lists of lines), validates them; reports violations"""
    b = ffv.build('seq_parse-' + flavor, ['seq_parse.cpp'], flavor)
    nproc = ffv.NCPU
    def one(q):
        hs = histories[q::nproc]
        d = os.path.join(c.work, '%s-%s-%d' % (ident, flavor, q)); os.makedirs(d, exist_ok=True)
        ip, op = d + '/in.txt', d + '/out.ndjson'
        open(ip, 'w').write('\n'.join('\n'.join(h) for h in hs) + '\n')
        rc, o, e = ffv.sh([b, ip, op], cwd=d, timeout=300)
        out = [l for l in open(op).read().split('\n') if l]
        return rc, out, e, hs
    lines, groups, owner = [], [], []
    for rc, out, e, hs in ffv.pmap(one, range(min(nproc, len(histories)))):
        st = [i for i, l in enumerate(out) if l.startswith('{"e":"new"')] + [len(out)]
        for a, bb, h in zip(st, st[1:], hs):
            groups.append((len(lines) + a, len(lines) + bb)); owner.append(h)
        if rc:
            h = hs[max(0, len(st) - 2)]
            c.violation('%s-crash:%s' % (flavor, ffv.digest('\n'.join(h))[:10]), 'the process ended with status %d: %s; after %s; history: %s' % (rc, e[-300:].strip(), out[-1][:300] if out else '', ' | '.join(h)[:1500]))
        lines += out
    bad = ffv.calls(c, 'ParserTrace', lines, groups=groups)
    seen = set()
    for i, want in bad:
        g = max(k for k, (a, _) in enumerate(groups) if a <= i)
        if g in seen: continue
        seen.add(g)
        h = owner[g]
        c.violation('%s:%s' % (flavor, ffv.digest('\n'.join(h))[:10]), '%s; at event %d of the history: %s; history: %s' % (want[:500], i - groups[g][0], lines[i][:300], ' | '.join(h)[:1500]))
    c.add(**{'histories_' + flavor: len(histories), 'events': len(lines)})
    c.sample(lines[0][:300] if lines else '')

class M:
    """number modulo 2^61-1; only used to choose expressions that are defined somewhere"""
    q = 2**61 - 1
    def __init__(self, v): self.v = v % M.q
    def __add__(self, o): return M(self.v + o.v)
    def __sub__(self, o): return M(self.v - o.v)
    def __mul__(self, o): return M(self.v * o.v)
    def __truediv__(self, o):
        if not o.v: raise ZeroDivisionError
        return M(self.v * pow(o.v, -1, M.q))
    def __neg__(self): return M(-self.v)
    def __pos__(self): return self
    def __pow__(self, e):
        if e < 0 and not self.v: raise ZeroDivisionError
        return M(pow(self.v, e, M.q))

def defined(x):
    t = re.sub(r'\^(\([+-]?\d+\)|\d+)', lambda m: '**(%d)' % int(m.group(1).strip('()')), x)
    t = re.sub(r'(\*\*\(-?\d+\))|\b(\d+)\b', lambda m: m.group(1) or 'M(%d)' % int(m.group(2)), t)
    try:
        eval(t, {'M': M, **{v: M(12345678901 * (k + 1)) for k, v in enumerate(VARS)}})
        return True
    except ZeroDivisionError: return False
