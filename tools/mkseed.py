#!/usr/bin/env python3
"""Plants a bug in a scratch worktree (/tmp/sw), confirms its demonstration and writes seeded/<id>/.
Usage: mkseed.py SPEC.py   where SPEC.py defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (C++ main file), LIB (flavour)"""
import sys, os, subprocess, json, shutil, glob
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SW = '/tmp/sw'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
FL = {'default': ('-DDEFAULT', ''), 'flint': ('-DFLINT -I/usr/include/flint', '-lflint')}
def demo_sh(lib, timeout):
    d, l = FL[lib]
    return '''#!/bin/bash
# Run with cwd = the repository after its build: exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/ffdemo.XXXXXX) || exit 3
g++ -std=c++14 -O1 %s -I"$R/_build/%s/include" -I"$R/source/include" "$D/demo.cpp" "$R/_build/%s/libfirefly.a" %s -lgmp -lz -lpthread -o "$T/demo" || { rm -rf "$T"; exit 3; }
(cd "$T" && timeout %d ./demo >"$T/out" 2>&1); rc=$?
tail -n 5 "$T/out" | cut -c1-300
rm -rf "$T"
exit $rc
''' % (d, lib, lib, l, timeout)
def build(flavour):
    """library of the worktree in /tmp/sw/_build/<flavour>"""
    b = SW + '/_build/' + flavour
    os.makedirs(b + '/o', exist_ok=True)
    if not os.path.isdir(b + '/include'): shutil.copytree('/repo/_build/%s/include' % flavour, b + '/include')
    d = FL[flavour][0]
    procs = []
    for s in glob.glob(SW + '/source/*.cpp'):
        procs.append((s, subprocess.Popen('g++ -std=c++14 -O2 %s -DFIREFLY_ROOT_DIR=\\"x\\" -I%s/include -I%s/source/include -c %s -o %s/o/%s.o' % (d, b, SW, s, b, os.path.basename(s)), shell=True, stderr=subprocess.PIPE, text=True)))
    for s, p in procs:
        e = p.communicate()[1]
        if p.returncode: print(s, e[:3000]); sys.exit(1)
    r = sh('rm -f %s/libfirefly.a; ar rcs %s/libfirefly.a %s/o/*.o' % (b, b, b))
    assert r.returncode == 0, r.stderr
def main():
    g = {}
    for a in sys.argv[1:]:
        g = {}
        exec(open(a).read(), g)
        i = g['ID']; lib = g.get('LIB', 'default'); d = V + '/seeded/' + i
        if not os.path.isdir(SW): assert sh('git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD' % SW).returncode == 0
        sh('git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD); git -C %s checkout -- .' % (SW, SW))
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(demo_sh(lib, g.get('TIMEOUT', 120))); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(g['DEMO'])
        json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        head = sh('git -C %s rev-parse HEAD' % SW).stdout.strip() + lib
        mark = '/tmp/seeds/clean-' + lib
        build(lib)
        reps = g.get('REPS', 2)
        for k in range(reps):
            r = sh('bash %s/demo.sh' % d, cwd=SW)
            print(i, 'clean rc', r.returncode, r.stdout.strip()[-200:], r.stderr.strip()[-1500:])
            if r.returncode: return 1
        for f, old, new in g['EDITS']:
            s = open(SW + '/' + f).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(SW + '/' + f, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % SW).stdout)
        build(lib)
        bad = 0
        for k in range(reps):
            r = sh('bash %s/demo.sh' % d, cwd=SW)
            print(i, 'patched rc', r.returncode, r.stdout.strip()[-200:], r.stderr.strip()[-1500:])
            bad += r.returncode not in (0, 3)
        sh('git -C %s checkout -- .' % SW)
        if bad != reps: print('NOT DEMONSTRATED', i); return 1
        print('OK', i)
    return 0
sys.exit(main())
