#!/usr/bin/env python3
"""Development aid: applies small edits to scratch copies of the repository and runs the checks on them.
usage: mutants.py FILE [pattern]; FILE holds blocks  'id property[,property] file' / '<<<<' old '====' new '>>>>'
A property written ~P means: the edit keeps behaviour, P has to stay quiet."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(path):
    out, cur = [], None
    txt = open(path).read()
    for m in re.finditer(r'^@ (\S+) (\S+)\n((?:.*\n)*?)(?=^@ |\Z)', txt, re.M):
        edits, f = [], None
        for e in re.finditer(r'(?:^# (\S+)\n)?^<<<<\n((?:.*\n)*?)====\n((?:.*\n)*?)>>>>\n', m.group(3), re.M):
            f = e.group(1) or f
            edits.append((f, e.group(2), e.group(3)))
        rev = re.search(r'^revert (\S+)', m.group(3), re.M)
        out.append((m.group(1), m.group(2).split(','), edits, rev.group(1) if rev else None))
    return out


def run(m):
    name, props, edits, rev = m
    d = tempfile.mkdtemp(prefix='mut_')
    res = []
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
        if rev:
            diff = subprocess.run(['git', '-C', '/repo', 'show', rev], capture_output=True, text=True).stdout
            r = subprocess.run(['patch', '-R', '-p1', '-s', '-d', d], input=diff, capture_output=True, text=True)
            if r.returncode:
                return name, [('?', 'revert does not apply: ' + r.stdout[:200])]
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return name, [('?', 'edit matches %d times' % s.count(old))]
            open(p, 'w').write(s.replace(old, new))
        for pr in props:
            quiet = pr.startswith('~')
            pr = pr.lstrip('~')
            env = dict(os.environ, NDT_REPO=d, NDT_EVIDENCE=d + '/ev')
            r = subprocess.run([sys.executable, HERE + '/check.py', pr], capture_output=True, text=True, env=env, cwd=HERE, timeout=900)
            und = r.stdout.count('undecided:')
            vio = [l.strip()[:230] for l in r.stdout.splitlines() if 'violated:' in l or 'undecided:' in l or 'error:' in l]
            st = {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, 'rc%d' % r.returncode)
            good = (r.returncode == 0) if quiet else (r.returncode == 1)
            res.append((pr, ('ok   ' if good else 'BAD  ') + st + (' (%d undecided)' % und if und else ''), vio[:4] if not good or und else vio[:1], (r.stdout + r.stderr)[-500:] if r.returncode > 1 else ''))
    finally:
        shutil.rmtree(d)
    return name, res


if __name__ == '__main__':
    ms = load(sys.argv[1])
    if len(sys.argv) > 2:
        ms = [m for m in ms if re.search(sys.argv[2], m[0]) or any(re.search(sys.argv[2], p) for p in m[1])]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
        for name, res in ex.map(run, ms):
            for r in res:
                print(name, *r[:2])
                for v in r[2] if len(r) > 2 else []:
                    print('      ', v)
                if len(r) > 3 and r[3]:
                    print(r[3])
            sys.stdout.flush()
