"""C07: processes that die at a file-system operation and are resumed (ProbeFlowTrace with the Crash action)."""
import json, re
from common import *

FOREIGN = 'does not match the black-box result!', 'does not match the black box!'
REFUSALS = ('Validation file not found!', "Please remove the directory 'ff_save' and start from the beginning.")
KINDS = ['rat', 'poly', 'const', 'zero', 'mono', 'dense']

def base(r):
    n = r.choice([1, 2, 2, 3])
    scan = 1 if n > 1 and r.random() < .33 else None
    sc = scen.rand_scenario(r, n=n, items=r.choice([1, 2, 2, 3]), kinds=KINDS, sizes=[1, 2, 2], tags=1, scan=scan, safe=1 if not scan and r.random() < .25 else None)
    # probes are written to disk half an hour after the first of a field
    if r.random() < .6: sc.kw['tstep'] = r.choice([10 ** 10, 10 ** 11, 10 ** 12])
    return sc

def former(r, sc):
    """a process that leaves the saved state of a different reconstruction in the directory"""
    return dict(_fns=[scen.rand_fn(r, sc.n, None, 2) for _ in range(r.choice([1, 2, 3, 4]))], limit=[r.choice([1, 1, 2, 3])], sseed=r.randrange(1, 1 << 30))

def chain(r, sc, points, before=.25):
    ch = [dict(crashat=k, crashmode=m, sseed=r.randrange(1, 1 << 30), resume=1 if q else None) for q, (k, m) in enumerate(points)]
    ch.append(dict(resume=1, sseed=r.randrange(1, 1 << 30)))
    if r.random() < before:
        ch[0]['_new'] = 1
        ch.insert(0, former(r, sc))
    return sc.but(fslog=1, _chain=ch)

def place(path):
    """a path below ff_save -> what it is"""
    p = path[len('ff_save/'):] if path.startswith('ff_save/') else path
    m = re.fullmatch(r'(states|probes)/(\d+)_(\d+)\.gz', p)
    if m: return dict(d=m.group(1), i=int(m.group(2)), k=int(m.group(3)), n=p)
    return dict(d='valid' if p == 'validation.gz' else 'scan' if p == 'scan' else 'tmp' if p.startswith('tmp/') else 'other', i=0, k=0, n=p)

OPS = dict(open_trunc='open', open_w='open', open_append='append', write='write', rename='rename', unlink='unlink')
def operations(x):
    """the file-system operations of a run that were carried out"""
    out = []
    for q in x.stages:
        if q is x.stages[0] or q.sc.get('_new'): out.append(dict(op='begin', items=len(q.sc.fns), to=place('')))
        ev = [e for e in q.events() if e['e'] == 'fs']
        if q.rc == 77 and ev and (q.sc.get('crashmode') == 0 or (q.sc.get('crashmode') == 1 and ev[-1]['op'] != 'write')): ev = ev[:-1]
        for e in ev:
            if e['op'] not in OPS: continue
            o = dict(op=OPS[e['op']], to=place(e['b'] if e['op'] == 'rename' else e['a']))
            if e['op'] == 'rename': o['from'] = place(e['a'])
            out.append(o)
    return out

def files(c, runs):
    ok = [x for x in runs if len(x.stages) and all(os.path.exists(q.trace) for q in x.stages)]
    nb = min(ffv.NCPU, len(ok))
    def one(g):
        bad, xs = [], ok[g::nb]
        n = 0
        while xs and len(bad) < 2:
            p, starts, k = os.path.join(c.work, 'files-%d.ndjson' % g), [], 1
            with open(p, 'w') as f:
                for x in xs:
                    starts.append(k)
                    for o in operations(x): f.write(json.dumps(o) + '\n'); k += 1
            v = ffv.validate('SaveTrace', p)
            n += v.line
            if v.ok: break
            q = max(i for i, a in enumerate(starts) if a <= v.line)
            bad.append((xs[q], operations(xs[q])[v.line - starts[q]], v.why))
            xs = xs[q + 1:]
        return bad, n
    for bad, n in ffv.pmap(one, range(nb)):
        c.add(trace_lines=n, states=n, transitions=n)
        for x, o, why in bad:
            c.violation('files:' + ffv.digest(x.sc.text())[:10], 'requirement not met: %s; operation %s; scenario\n%s' % (why, json.dumps(o), x.sc.text()[:600]), [os.path.join(x.dir, 'scenario.txt'), x.trace])
    c.add(traces_validated_against_impl=len(ok))

def message(run):
    t = [x for x in re.sub(r'\x1b\[[0-9;]*m', '', run.err + run.out).strip().split('\n') if x]
    return t[-1] if t else ''

def check(c):
    r = c.rng
    b = ffv.build_recon('default')
    c.model('SaveProtocol', 'SaveProtocol3' if c.thorough else 'SaveProtocol')
    # every operation of some scenarios, before it, in the middle of it
    scs = []
    bases = [base(r).but(fslog=1) for _ in range(c.n(4, 60))]
    ops = 0
    for x in scen.run_many(c, b, bases, name='base'):
        if x.rc:
            c.violation('base:' + ffv.digest(x.sc.text())[:10], 'a run that saves its state fails: %s %s' % (x.abnormal(), x.sc.text()[:500]), [os.path.join(x.dir, 'scenario.txt')])
            continue
        for e in x.events():
            if e['e'] != 'fs': continue
            for m in ([0, 1, 2] if e['op'] == 'write' else [0, 2]):
                ops += 1
                s = chain(r, x.sc, [(e['k'], m)], 0)
                s.kw['_chain'][0].pop('sseed')         # the schedule of the run that was recorded
                scs.append(s)
    # random points, up to three crashes
    for _ in range(c.n(900, 20000)):
        scs.append(chain(r, base(r), [(int(2 ** r.uniform(2, 8)), r.choice([0, 0, 1, 2])) for _ in range(r.choice([1, 1, 2, 2, 3]))]))
    refused = died = processes = 0
    for chunk in [scs[i:i + 1500] for i in range(0, len(scs), 1500)]:
        runs, good = scen.run_many(c, b, chunk), []
        for x in runs:
            processes += len(x.stages)
            died += sum(1 for q in x.stages if q.rc == 77)
            msg = message(x.stages[-1])
            if x.rc == 1 and msg.endswith(REFUSALS + FOREIGN) and len(x.stages) > 1:
                # allowed only as long as there is nothing to continue: before validation.gz, or the scan, is complete
                ops_ = operations(x)
                ops_ = ops_[max(k for k, o in enumerate(ops_) if o['op'] == 'begin'):]
                # or as long as the state of a former reconstruction is still there
                early = not any(o['op'] == 'unlink' and o['to']['d'] == 'valid' for o in ops_) if msg.endswith(FOREIGN) else not any(o['op'] == 'rename' and o['to']['d'] == 'valid' for o in ops_) if msg.endswith(REFUSALS[0]) else \
                        bool(x.sc.get('scan')) and not os.path.exists(os.path.join(x.dir, 'ff_save/scan'))
                if early: refused += 1; continue
                c.violation('refused:' + ffv.digest(x.sc.text())[:10], 'a saved state is refused: %s; operations %s\n%s' % (msg, [q.sc.get('crashat') for q in x.stages], x.sc.text()[:600]), [os.path.join(x.dir, 'scenario.txt'), x.trace])
            elif x.rc:
                again = scen.execute(b, x.sc, x.dir + '.again')
                if again.rc == 0: c.add(unrepeated=1); continue
                c.violation('resume:' + ffv.digest(x.sc.text())[:10], 'a run that was resumed after a crash does not complete: %s; operations %s\n%s'
                            % (x.stages[-1].abnormal() + ' ' + msg, [q.sc.get('crashat') for q in x.stages], x.sc.text()[:600]), [os.path.join(x.dir, 'scenario.txt'), x.trace])
            else: good.append(x)
        files(c, runs)
        scen.validate_runs(c, b, good, 'result resume order line', ident='crash')
    c.add(processes=processes, crashes=died, refused_before_first_complete_save=refused, operations_enumerated=ops)

if __name__ == '__main__': ffv.main('C07', 'model_checking', check)
