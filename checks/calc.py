"""Stand-alone calls (C16, C21, C23, C24): the driver's lines and their meaning for the specification."""
import json, random
import common, ffv, field
P1, P2 = field.PRIMES[0], field.PRIMES[1]

class Calls:
    def __init__(self, c, flavor='default'): self.c, self.flavor, self.lines, self.meta = c, flavor, [], []
    def add(self, line, **meta): self.lines.append(line); self.meta.append(meta)
    def run(self):
        """returns the list of (json text for the specification, line)"""
        c = self.c
        b = ffv.build('seq_calc-' + self.flavor, ['seq_calc.cpp'], self.flavor)
        out, lines, meta = [], list(self.lines), list(self.meta)
        start, k = 0, 0
        while start < len(lines):
            k += 1
            ip, op = c.work + '/calc-%d.txt' % k, c.work + '/calc-%d.out' % k
            open(ip, 'w').write('\n'.join(lines[start:]) + '\n')
            rc, o, e = ffv.sh([b, ip, op], cwd=c.work, timeout=600)
            res = [l for l in open(op).read().split('\n') if l]
            out += res
            if rc == 0 and len(res) == len(lines) - start: break
            bad = start + len(res)
            c.violation('ends:%s' % lines[bad][:40], 'the process ends (status %d) in the call %s: %s' % (rc, lines[bad][:300], (o + e)[-300:]))
            out.append(None); start = bad + 1
            if k > 20: break
        r = []
        for i, x in enumerate(out):
            if x is None: continue
            m = dict(meta[i])
            post = m.pop('post', None)
            v = json.loads(x)
            if post:
                for mm, vv in post(v): r.append((json.dumps(dict(m, r=vv, **mm)), lines[i]))
            else: r.append((json.dumps(dict(m, r=v)), lines[i]))
        return r
    def decide(self, module='CalcCalls', **kw):
        r = self.run()
        bad = ffv.calls(self.c, module, [a for a, b in r], **kw)
        for i, want in bad:
            d = json.loads(r[i][0])
            self.c.violation('%s:%s:%s' % (d['k'], d['op'], ffv.digest(r[i][1])[:8]), 'call "%s" (%s) returned %s; specification: %s' % (r[i][1][:600], self.flavor, json.dumps(d['r'])[:400], want[:400]))
        self.c.add(**{'calls_' + self.flavor: len(r)})
        if r: self.c.sample(r[0][0][:300]); self.c.sample(r[-1][0][:300])

def S(v): return ' '.join(map(str, v))
