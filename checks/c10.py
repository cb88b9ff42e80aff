"""C10: the thread pool. Design: ThreadPoolImpl (locks and notifications) implements ThreadPool and terminates.
Code: histories of the real pool under the deterministic scheduler, with preemption at every memory access of the pool,
are explained by ThreadPool."""
from common import *
import json, re

def program(r):
    thr = r.choice([0, 1, 1, 2, 2, 2, 3, 4])
    m = r.randint(1, 8)
    kids = {}
    tasks = []
    free = list(range(m))
    r.shuffle(free)
    top = []
    for i in range(m): tasks.append([r.choice('TTPKQ'), r.choice([0, 0, 1, 3, 8]), 0, []])
    # a forest: some tasks are submitted by other tasks
    order = list(range(m))
    for i in order:
        if i and r.random() < .3:
            p = r.randrange(i)
            if sum(len(t[3]) for t in tasks) < 4: tasks[p][3].append(i); continue
        top.append(i)
    for t in tasks:
        if t[0] in 'KQ' and r.random() < .3: t[2] = 1
    nc = r.choice([1, 1, 1, 2, 3])
    prog = [[] for _ in range(nc)]
    for i in top:
        c = r.randrange(nc)
        if r.random() < .15 and nc > 1: c = 0
        prog[c].append('s%d' % i)
    style = r.choice(['none', 'wait', 'kill', 'mix', 'mix', 'allwait'])
    for c in range(nc):
        ops = prog[c]
        extra = {'none': [], 'wait': ['w'], 'allwait': ['w'], 'kill': ['k'], 'mix': ['w', 'k', 'z', 'y3', 'f']}[style]
        if c and style == 'kill': extra = ['w', 'z']
        k = r.choice([0, 1, 2, 4]) if style != 'allwait' else 2
        for _ in range(k if extra else 0):
            e = r.choice(extra)
            if e == 'k' and any('k' in o for j, o in enumerate(prog) if j != c): e = 'w'
            if e == 'f':
                e = 'f%d' % r.randrange(m)
            if e == 'w' and r.random() < .2: ops += ['w', 'w', 'w']
            else: ops.insert(r.randint(0, len(ops)), e)
    return 'pool %d %d %d %d %d %s %d %s' % (thr, r.randrange(1, 1 << 30), r.choice([1, 1, 2, 2, 3, 4, 5, 6]), r.choice([0, 0, 1, 1, 3, 10]), m,
        ' '.join('%s %d %d %d %s' % (t[0], t[1], t[2], len(t[3]), ' '.join(map(str, t[3]))) for t in tasks), nc,
        ' '.join('%d %s' % (len(o), ' '.join(o)) for o in prog))

def record(c, b, progs, tag):
    """histories (lists of lines) of the programs; a program whose run is cut short ends its process"""
    out = []
    left = list(progs)
    k = 0
    while left:
        ip, op = os.path.join(c.work, '%s-%d.in' % (tag, k)), os.path.join(c.work, '%s-%d.out' % (tag, k))
        k += 1
        with open(ip, 'w') as f: f.write('\n'.join(left) + '\n')
        ffv.sh([b, ip, op], timeout=700)
        hs = []
        for l in open(op):
            if '"e":"pool"' in l: hs.append([])
            hs[-1].append(l.strip())
        if not hs: raise ffv.InfraError('pool harness wrote nothing')
        out += list(zip(left, hs))
        if len(hs) == len(left) and not ('"stuck"' in hs[-1][-1] or '"signal"' in hs[-1][-1]): break
        left = left[len(hs):]
        if k > 30: break
    return out

def check(c):
    for cfg in ['ThreadPoolImpl23'] + (['ThreadPoolImpl33', 'ThreadPoolImpl34'] if c.thorough else []): c.model('ThreadPoolImpl', cfg)
    b = ffv.build('pool', ['sched.cpp', 'tsanhook.cpp', 'pool.cpp'], hooked=('pool.cpp',))
    progs = [program(c.rng) for _ in range(c.n(6000, 100000))]
    nb = ffv.NCPU * c.n(1, 8)
    hs = sum(ffv.pmap(lambda q: record(c, b, progs[q::nb], 'p%d' % q), range(nb)), [])
    seen = {json.loads(h[-1]).get('h') for _, h in hs}
    c.add(programs=len(hs), distinct_schedules=len(seen), events=sum(len(h) for _, h in hs))
    c.sample(hs[0][0])
    def val(q):
        part = hs[q::nb]
        p = os.path.join(c.work, 'v%d.ndjson' % q)
        starts, k = [], 1
        with open(p, 'w') as f:
            for _, h in part: starts.append(k); k += len(h); f.write('\n'.join(h) + '\n')
        r = ffv.tlc('ThreadPoolTrace', env=dict(TRACE=p, SINGLE='0'), heap='3g')
        if r.rc or '"ACCEPTED"' not in r.out: raise ffv.InfraError('ThreadPoolTrace: ' + r.out[-2000:])
        done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', r.out)}
        c.add(states=r.distinct, transitions=r.generated)
        return [x for s, x in zip(starts, part) if s not in done]
    bad = sum(ffv.pmap(val, range(nb)), [])
    c.add(traces_validated_against_impl=len(hs) - len(bad))
    for prog, h in bad[:3]:
        p = os.path.join(c.work, 'bad.ndjson')
        with open(p, 'w') as f: f.write('\n'.join(h) + '\n')
        r = ffv.tlc('ThreadPoolTrace', env=dict(TRACE=p, SINGLE='1'))
        m = re.search(r'<<"REACHED", (\d+)>>', r.out)
        k = int(m.group(1)) if m else 0
        c.violation('pool:' + ffv.digest(prog)[:10], 'no behaviour of the pool explains event %d: %s\nprogram %s\nhistory:\n%s' % (k + 1, h[k] if k < len(h) else '', prog, '\n'.join(h)), [p])

ffv.main('C10', 'model_checking', check)
