#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id> from a description (edits and a demonstration) after confirming, in a
scratch copy of /repo, that the patched tree builds and passes the tests and that the demonstration tells them apart.

@ id PROPERTY
needs: ...
breaks: ...
# path in the repository
<<<<
old
====
new
>>>>
demo:
C++ program, exit 0 when the property holds
"""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles the sources of the repository in the current directory with stand-ins for ROS and runs demo.cpp against them.
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 "$H/gen_msgs.py" "$R" "$T/gen" || exit 2
CXX="g++ -std=c++17 -O1 -w -I$H/stubs -I$T/gen -I$R/include -isystem /usr/include/eigen3 -I$H"
for f in "$R"/src/*.cpp; do $CXX -c "$f" -o "$T/$(basename "$f" .cpp).o" & done
$CXX -c "$H/demo.cpp" -o "$T/demo.obj" & wait
$CXX "$T"/*.o "$T/demo.obj" -o "$T/demo" -lceres -lglog -lpthread || exit 2
cd "$T" && timeout 200 ./demo
'''


def sh(cmd, cwd=None, t=300):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def parse(text):
    for blk in re.split(r'^@ ', text, flags=re.M)[1:]:
        head, demo = blk.split('\ndemo:\n', 1)
        lines = head.split('\n')
        pid, prop = lines[0].split()
        needs = [l[6:].strip() for l in lines if l.startswith('needs:')][0]
        breaks = [l[7:].strip() for l in lines if l.startswith('breaks:')][0]
        edits, cur = [], None
        for m in re.finditer(r'^# (\S+)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', head, flags=re.M | re.S):
            if m.group(1):
                cur = m.group(1)
            else:
                edits.append((cur, m.group(2), m.group(3)))
        yield pid, prop, needs, breaks, edits, demo


def main():
    for f in sys.argv[1:]:
        for pid, prop, needs, breaks, edits, demo in parse(open(f).read()):
            T = tempfile.mkdtemp(prefix='plant')
            R = T + '/repo'
            sh('git clone -q /repo %s' % R)
            try:
                for fn, old, new in edits:
                    p = os.path.join(R, fn)
                    s = open(p).read()
                    if s.count(old) != 1:
                        print(pid, 'REJECTED: edit matches %d times in %s: %s' % (s.count(old), fn, old[:60]))
                        break
                    open(p, 'w').write(s.replace(old, new))
                else:
                    rc, diff = sh('git diff', R)
                    # lines of the original repository only
                    base = sh('git log --format=%H --reverse | head -1', R)[1].strip()
                    added = set()
                    for fn in {e[0] for e in edits}:
                        bl = sh('git blame -s -l HEAD -- %s' % fn, R)[1].splitlines()
                        added |= {(fn, l.split(')', 1)[1][1:]) for l in bl if not l.startswith('^' + base[:39])}
                    cur = None
                    bad = []
                    for l in diff.splitlines():
                        if l.startswith('--- a/'):
                            cur = l[6:]
                        elif l.startswith('-') and not l.startswith('---') and (cur, l[1:]) in added and l[1:].strip() not in ('', '{', '}'):
                            bad.append(l)
                    if bad:
                        print(pid, 'REJECTED: touches lines of own commits:', bad[:3])
                        continue
                    D = T + '/demo'
                    os.makedirs(D)
                    shutil.copytree(VERIF + '/stubs', D + '/stubs')
                    shutil.copy(VERIF + '/lib/gen_msgs.py', D)
                    shutil.copy(VERIF + '/replay/rig.hpp', D)
                    open(D + '/demo.cpp', 'w').write(demo)
                    open(D + '/demo.sh', 'w').write(DEMO)
                    os.chmod(D + '/demo.sh', 0o755)
                    rb, ob = sh('bash %s/demo.sh' % D, R)
                    ra, oa = sh('bash %s/demo.sh' % D, '/repo')
                    if ra != 0 or rb in (0, 2):
                        print(pid, 'REJECTED: demo gives %d unpatched, %d patched' % (ra, rb), (oa if ra else ob)[-1500:])
                        continue
                    # the ordinary tests still pass with it
                    rc1, o1 = sh('git -C /repo apply --check -', '/') if False else (0, '')
                    open(T + '/p.diff', 'w').write(diff)
                    if sh('git -C /repo status --porcelain')[1].strip():
                        print('repo not clean')
                        return 1
                    sh('git -C /repo apply %s/p.diff' % T)
                    try:
                        b, ob1 = sh('bash /opt/vp/build.sh')
                        t, ot = sh('bash /opt/vp/test.sh %s/out.json' % T)
                        passed = open(T + '/out.json').read() if os.path.exists(T + '/out.json') else ''
                    finally:
                        sh('git -C /repo checkout -- .')
                    base_tests = json.load(open('/opt/vp/BASELINE.json'))['stable']
                    try:
                        ps = json.loads(passed)
                        okset = set(ps.get('passed', ps.get('pass', [])))
                    except Exception:
                        okset = set()
                    miss = [x for x in base_tests if x not in okset]
                    if b or miss:
                        print(pid, 'REJECTED: build %d, tests failing %s' % (b, miss), (ob1 if b else passed)[-600:])
                        continue
                    out = os.path.join(VERIF, 'seeded', pid)
                    if os.path.isdir(out):
                        shutil.rmtree(out)
                    shutil.copytree(D, out)
                    open(out + '/patch.diff', 'w').write(diff)
                    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
                    print(pid, 'kept; demo says:', ob.strip()[-200:])
            finally:
                shutil.rmtree(T)
    sh('bash /opt/vp/build.sh')


sys.exit(main())
