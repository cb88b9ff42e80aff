"""C26: insertion of replacement tables (Insert, InsertMC, InsertTrace)."""
import json, os, re, shutil
import common, ffv, parser
P = [9223372036854775783, 9223372036854775643, 9223372036854775549]
VARS = ['x', 'y', 's12', 'Zz', 'x1', 'T1', 'mF', 'Ax', 'd']
FAMS = ['F', 'T', 'T1', 'T10', 'AT1', 'box', 'INT', 'xbox', 'Top2', 'op', 'B', 'A1', 'LongFamilyName']

def coef(r, vs, small):
    def number(): return str(r.randrange(1, 30)) if small else parser.number(r)
    def atom(d):
        if d <= 0 or r.random() < .5: return r.choice(vs) if r.random() < .6 else number()
        return '(' + expr(d - 1) + ')'
    def fact(d):
        a = atom(d)
        if r.random() < .25: a += '^' + (r.choice(['2', '3', '(2)', '(-1)', '(-2)']) if small else parser.expo(r))
        return a
    def term(d):
        s = fact(d)
        for _ in range(r.choice([0, 0, 1, 1, 2])): s += r.choice('**/') + fact(d)
        return s
    def expr(d):
        s = r.choice(['', '', '-']) + term(d)
        for _ in range(r.choice([0, 1, 1, 2])): s += r.choice('+-') + term(d)
        return s
    while True:
        c = r.choice([lambda: '(' + expr(2) + ')', lambda: term(1), lambda: term(2), lambda: number()])()
        t = re.sub(r'\^(\([+-]?\d+\)|\d+)', lambda m: '**(%d)' % int(m.group(1).strip('()')), c)
        t = re.sub(r'(\*\*\(-?\d+\))|\b(\d+)\b', lambda m: m.group(1) or 'M(%d)' % int(m.group(2)), t)
        try: eval(t, {'M': parser.M, **{v: parser.M(12345678901 * (k + 1)) for k, v in enumerate(vs)}})
        except ZeroDivisionError: continue
        return c

def dress(r, s):
    """white space around operators"""
    style = r.randrange(4)
    if style == 0: return s
    return re.sub(r'->|[+\-*/,(){}\[\]]', lambda m: m.group(0) if r.random() < .7 else r.choice(['%s ', ' %s', '\n%s', '%s\n', '\t%s', ' %s ']) % m.group(0), s)

def term_text(t): return t[0] + t[1] + ('*' + t[2] if t[2] else '')
def text(ts): return ''.join(term_text(t) for t in ts)

class Job:
    """an expression, tables, and how they are given"""
    def __init__(s, r, small=False):
        s.vars = r.sample(VARS, r.choice([1, 2, 2, 3]) if small else r.choice([1, 2, 3, 5]))
        s.fams = r.sample(FAMS, r.choice([1, 1, 2, 3, 5]))
        def fn(): return r.choice(s.fams) + '[' + ','.join(str(r.choice([0, 1, 1, 2, -1, 10])) for _ in range(r.choice([1, 2, 3]))) + ']'
        s.pool = [fn() for _ in range(r.choice([2, 3, 5, 8]))]
        pick = lambda: r.choice(s.pool) if r.random() < .9 else fn()
        def terms(k, signed):
            ts = []
            for q in range(k):
                sg = r.choice('++-') if q or r.random() < .5 else ''
                ts.append([sg, pick(), coef(r, s.vars, small) if r.random() < .85 else ''])
            return ts
        s.amp = terms(r.choice([1, 1, 2, 3, 4, 6]), True)
        s.tables, seen = [], set()
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            rs = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                f = pick()
                if f in seen and not (r.random() < .03): continue
                seen.add(f)
                rs.append([f, terms(r.choice([0, 1, 1, 2, 2, 4]), True)])
            if rs: s.tables.append(rs)
        s.bad = None
        s.r = r
    def write(s, d, names):
        r = s.r
        a = text(s.amp)
        if s.bad == 'unknown': a += r.choice('+-') + 'Unknown[1,2]*3'
        if s.bad == 'front': a = '2*' + a.lstrip('+-')
        a = dress(r, r.choice(['%s', '{%s}']) % a) + r.choice(['', ';', ';\n', '\n', ';\nignored'])
        open(os.path.join(d, names[0]), 'w').write(a)
        for n, rs in zip(names[1:], s.tables):
            t = ','.join(f + '->' + (text(ts) if ts else '0') for f, ts in rs)
            open(os.path.join(d, n), 'w').write(dress(r, r.choice(['{%s}', '{%s}', '%s']) % t) + r.choice(['', '\n']))
    def events(s):
        o = [dict(e='new', vars=s.vars, fams=s.fams), dict(e='amp', text=text(s.amp), ts=s.amp)]
        for rs in s.tables: o.append(dict(e='table', text=','.join(f + '->' + (text(ts) if ts else '0') for f, ts in rs), rs=rs))
        if s.bad: o.append(dict(e='bad'))
        return o

def direct(a):
    """the parser itself"""
    b, j, d = a
    r = j.r
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    names = ['amp'] + ['tab%d' % k for k in range(len(j.tables))]
    j.write(d, names)
    L = ['V ' + ' '.join(j.vars), 'F ' + ' '.join(j.fams), 'A amp']
    L += [r.choice('TU') + ' ' + n for n in names[1:]]
    L += ['C', 'B']
    for _ in range(2):
        k = r.randrange(3)
        L.append('P %d' % k)
        for w in r.sample([1, 2, 8], 2): L.append('E %d ' % w + ' '.join(str(r.choice([r.randrange(P[k]), r.randrange(P[k]), r.randrange(1, 50), P[k] - 1])) for _ in range(w * len(j.vars))))
    open(d + '/in.txt', 'w').write('\n'.join(L) + '\n')
    rc, o, e = ffv.sh([b, 'in.txt', 'out.ndjson'], cwd=d, timeout=60)
    out = [json.loads(l) for l in open(d + '/out.ndjson').read().split('\n') if l]
    done = bool(out) and out[-1]['e'] == 'end'
    ev = j.events() + [x for x in out if x['e'] != 'end'] + [dict(e='fin', ok=done and rc == 0)]
    if rc not in (0, 1): ev[-1]['crash'] = rc
    return ev, rc, e, L

LINE = re.compile(r'^\s*\+\s*(\w+\[[^\]]*\])\*(.*)$')
def read_out(p):
    """file of results -> terms; None if it has another form"""
    ls = open(p).read().split('\n')
    if ls[0] != '{' or '}' not in ls: return None
    ts = []
    for l in ls[1:ls.index('}')]:
        m = LINE.match(l)
        if not m: return None
        ts.append(['+', m.group(1), m.group(2)])
    return ts

def tool(a):
    """the executable"""
    b, j, d, flavor = a
    r = j.r
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/config'); os.makedirs(d + '/replacements')
    mode = r.choice(['interp', 'interp', 'save', 'ni'])
    names = ['expr'] + ['replacements/t%d.m' % k for k in range(len(j.tables))]
    indir = r.random() < .3
    if indir: os.makedirs(d + '/in'); names[0] = 'in/expr'
    j.write(d, names)
    open(d + '/config/functions', 'w').write(r.choice(['', '# functions\n']) + '\n'.join(j.fams) + r.choice(['', '\n', '\n\n']))
    open(d + '/config/vars', 'w').write(r.choice(['', '# variables\n']) + '\n'.join(' ' * r.randrange(2) + v for v in j.vars) + r.choice(['', '\n']))
    skip = []
    if r.random() < .3:
        skip = sorted(set(r.sample(j.pool, min(2, len(j.pool)))))
        open(d + '/config/skip_functions', 'w').write('\n'.join(skip) + '\n')
    cmd = [b]
    if r.random() < .6: cmd += ['-p', str(r.choice([1, 2, 3]))]
    if r.random() < .5: cmd += ['-bs', str(r.choice([1, 2, 8, 64]))]
    if flavor != 'flint' or r.random() < .4: cmd += ['-nfs']
    if mode == 'save': cmd += ['-s']
    if mode == 'ni': cmd += ['-ni']
    cmd += [r.choice(['in', 'in/']) if indir else names[0]]
    ev = j.events()
    log = ''
    for q in range(r.choice([1, 2, 2]) if mode == 'save' else 1):
        rc, o, e = ffv.sh(cmd, cwd=d, timeout=100)
        log = e[-600:]
        if rc: ev.append(dict(e='fin', ok=False)); break
        bf = d + '/basis_functions_expr'
        if os.path.exists(bf): ev.append(dict(e='basis', ms=open(bf).read().split('\n')[:-1]))
        if mode == 'ni':
            ts = []
            cd = d + '/coefficients_expr'
            for f in sorted(os.listdir(cd)) if os.path.isdir(cd) else []:
                t = read_out(cd + '/' + f)
                if t is None or len(t) != 1 or t[0][1] + '.m' != f: t = [['+', 'Unreadable[]', '1']]
                ts += t
            ev.append(dict(e='out', skip=skip, ts=ts))
        elif os.path.exists(d + '/out_expr'):
            t = read_out(d + '/out_expr')
            ev.append(dict(e='out', skip=skip, ts=t if t is not None else [['+', 'Unreadable[]', '1']]))
        else: ev.append(dict(e='out', skip=skip, ts=[]))
        ev.append(dict(e='fin', ok=True))
    return ev, rc, log, cmd[1:]

def merge(a):
    """merging files of results"""
    b, j, d, _ = a
    r = j.r
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/parts')
    cut = sorted(r.randrange(len(j.amp) + 1) for _ in range(2))
    parts = [p for p in (j.amp[:cut[0]], j.amp[cut[0]:cut[1]], j.amp[cut[1]:]) if p]
    if r.random() < .7:
        for q, p in enumerate(parts):
            for t in p: t[0] = t[0] or '+'
            open(d + '/parts/f%d' % q, 'w').write(dress(r, '{' + text(p) + '}') + r.choice(['', ';', '\n', ';\n']))
    else: 
        for t in j.amp: t[0] = t[0] or '+'
        for q, p in enumerate(parts): open(d + '/parts/f%d' % q, 'w').write('{\n' + ''.join('%s %s\n' % (t[0], term_text(['', t[1], t[2]])) for t in p) + '}\n')
    rc, o, e = ffv.sh([b, '-m', r.choice(['parts', 'parts/'])], cwd=d, timeout=60)
    j.tables = []
    ev = j.events()
    mf = d + '/parts_merged.out'
    if rc == 0 and os.path.exists(mf):
        s = re.sub(r'\s', '', open(mf).read())
        ts, ok = [], s[:1] == '{' and s[-1:] == '}'
        s = s[1:-1]
        while s and ok:
            m = re.match(r'([+-])(\w+\[[^\]]*\])', s)
            if not m: ok = False; break
            s = s[m.end():]
            c = ''
            if s[:1] == '*':
                k, dep = 1, 0
                while k < len(s) and (dep or s[k] not in '+-'): dep += (s[k] == '(') - (s[k] == ')'); k += 1
                c, s = s[1:k], s[k:]
            ts.append([m.group(1), m.group(2), c])
        ev.append(dict(e='merged', ts=ts if ok else [['+', 'Unreadable[]', '1']]))
    ev.append(dict(e='fin', ok=rc == 0))
    return ev, rc, e[-300:], ['-m']

def submit(c, name, res, todo):
    lines, groups, src = [], [], []
    for q, (ev, rc, err, what) in enumerate(res):
        groups.append((len(lines), len(lines) + len(ev))); src.append(q)
        lines += [json.dumps(x) for x in ev]
    seen = set()
    for i, want in ffv.calls(c, 'InsertTrace', lines, groups=groups):
        g = max(k for k, (a, _) in enumerate(groups) if a <= i)
        if g in seen: continue
        seen.add(g)
        ev, rc, err, what = res[g]
        d = todo[g][2]
        fs = [os.path.join(p, f) for p, _, x in os.walk(d) for f in x if not p.startswith(d + '/ff_save')]
        c.violation('%s:%s' % (name, ffv.digest(json.dumps(ev[:4]))[:10]), 'requirement not met: %s; event %s; status %s %s; %s; input %s' % (want[:400], lines[i][:300], rc, err[-200:].strip(), what, json.dumps(ev[1:4])[:900]), fs[:12])
    c.add(**{name: len(res), 'events': len(lines)})
    for x in lines[1:3]: c.sample(x[:300])

def check(c):
    r = c.rng
    c.model('InsertMC'); c.model('InsertMC', 'InsertMC2')
    import random
    rr = lambda: random.Random(r.randrange(1 << 60))
    b = ffv.build('seq_insert-default', ['seq_insert.cpp'], 'default')
    todo = []
    for q in range(c.n(300, 8000)):
        j = Job(rr())
        if j.r.random() < .04: j.bad = j.r.choice(['unknown', 'front'])
        todo.append((b, j, os.path.join(c.work, 'p%d' % q)))
    submit(c, 'parser', ffv.pmap(direct, todo), todo)
    for fl, num in [('default', c.n(50, 1200)), ('flint', c.n(30, 1200))]:
        t = ffv.build('ff_insert-' + fl, [ffv.REPO + '/ff_insert.cpp'], fl)
        todo = []
        for q in range(num):
            j = Job(rr(), small=True)
            if j.r.random() < .04: j.bad = 'unknown'
            todo.append((t, j, os.path.join(c.work, '%s%d' % (fl, q)), fl))
        submit(c, 'tool-' + fl, ffv.pmap(tool, todo), todo)
        if fl == 'default':
            todo = [(t, Job(rr()), os.path.join(c.work, 'm%d' % q), fl) for q in range(c.n(30, 500))]
            submit(c, 'merge', ffv.pmap(merge, todo), todo)

if __name__ == '__main__': ffv.main('C26', 'model_checking', check)
