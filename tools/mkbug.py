#!/usr/bin/env python3
"""plant one bug: tools/mkbug.py FILE.bug   (FILE.bug: a python file defining ID, PROPERTY, EDITS [(old,new)], DEMO (C++), NEEDS, BREAKS)
confirms in a scratch copy: builds, stable tests pass, demo passes clean and fails patched; then runs the check against the copy."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# run in /repo; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
g++ -std=c++11 -O1 -w %s-I "$PWD" -o "$T/demo" "$D/demo.cpp" || { rm -rf "$T"; exit 3; }
timeout 60 "$T/demo"
R=$?
rm -rf "$T"
exit $R
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {'SAN': False, 'HELPER': None}
    exec(open(sys.argv[1]).read(), ns)
    quick = '--nocheck' in sys.argv
    notest = '--notest' in sys.argv
    W = tempfile.mkdtemp(prefix='bug_')
    try:
        R = os.path.join(W, 'repo')
        sh('git -C /repo worktree prune; cp -a /repo %s' % R)
        f = os.path.join(R, 'strtk.hpp'); s = open(f, encoding='latin-1', newline='').read()
        nl = '\r\n' if '\r\n' in s else '\n'
        for e in ns['EDITS']:
            old, new = e[0].replace('\n', nl), e[1].replace('\n', nl); n = e[2] if len(e) > 2 else None
            k = s.count(old)
            if k == 0 or (k > 1 and n is None): print('edit matches %d times: %r' % (k, old)); return 1
            i = -1
            for _ in range((n or 0) + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(f, 'w', encoding='latin-1', newline='').write(s)
        D = os.path.join(V, 'seeded', ns['ID']); os.makedirs(D, exist_ok=True)
        open(os.path.join(D, 'patch.diff'), 'wb').write(subprocess.run(['git', '-C', R, 'diff', '--no-color'], stdout=subprocess.PIPE).stdout)
        open(os.path.join(D, 'demo.cpp'), 'w').write(ns['DEMO'])
        open(os.path.join(D, 'demo.sh'), 'w').write(DEMO_SH % ('-fsanitize=address,undefined -fno-sanitize-recover=all ' if ns['SAN'] else '')); os.chmod(os.path.join(D, 'demo.sh'), 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(D, 'meta.json'), 'w'), indent=1)
        a = sh('sh %s/demo.sh' % D, cwd='/repo'); b = sh('sh %s/demo.sh' % D, cwd=R)
        print('demo clean rc=%d patched rc=%d  %s' % (a.returncode, b.returncode, b.stdout[-200:].strip()))
        if a.returncode != 0 or b.returncode in (0, 3): print(a.stdout[-1000:]); print('BAD DEMO'); return 1
        if not notest:
            # the test scripts work on /repo: apply, build, test, undo
            print(sh('git -C /repo apply %s/patch.diff' % D).stdout)
            try:
                x = sh('bash /opt/vp/build.sh'); 
                if x.returncode: print('BUILD FAILS', x.stdout[-2000:]); return 1
                sh('bash /opt/vp/test.sh %s/out.json' % W)
                st = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open(W + '/out.json'))
                ok = set()
                def walk(v):
                    if isinstance(v, dict):
                        for k, z in v.items():
                            if k in st and z in ('pass', 'passed', True, 'PASS', 0): ok.add(k)
                            walk(z)
                    elif isinstance(v, list):
                        for z in v: walk(z)
                walk(o)
                if isinstance(o, dict) and isinstance(o.get('passed'), list): ok |= set(o['passed']) & st
                print('stable tests passing: %d/%d %s' % (len(ok), len(st), sorted(st - ok)[:5]))
            finally:
                sh('git -C /repo checkout -- .')
        if not quick:
            c = sh('VERIF_REPO=%s python3-vt %s/check.py %s' % (R, V, ns['PROPERTY'])); print(c.stdout[-700:])
    finally:
        shutil.rmtree(W, ignore_errors=True)
sys.exit(main())
