#!/usr/bin/env python3-vt
"""plant.py FILE.py [ID..]: FILE defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=C++ text)}.
Writes seeded/<id>/ and verifies it: builds, stable tests pass, demo passes clean / fails patched, and what the property's check says."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w -fno-access-control -DHAVE_CSTDDEF -I"$R/_build/include" -I"$R/include" -I"$R" -I/usr/include/eigen3 -I/usr/include/coin -I"$D" "$D/demo.cpp" -o "$T/demo" \\
  -L"$R/_build" -lcrocoddyl -Wl,-rpath,"$R/_build" -lboost_serialization -lboost_filesystem -lboost_system -lipopt -pthread || exit 2
cd "$T" && timeout 120 ./demo
'''


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable():
    sh('bash /opt/vp/test.sh /tmp/bugs/out.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open('/tmp/bugs/out.json'))
    ok = set(o.get('passed', o.get('pass', [])))
    return base <= ok, o if not base <= ok else ''


def clean():
    s = sh('git -C %s status --porcelain' % R).stdout
    return not s.strip()


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:] or list(bugs)
    assert clean(), 'repo not clean'
    ok = {}
    # clean demos first
    for i in ids:
        b = bugs[i]
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        for f, old, new in b['edits']:
            p = os.path.join(R, f); s = open(p).read()
            n = s.count(old)
            if n < 1 or (n > 1 and not b.get('first')): print(i, 'EDIT does not apply: %d matches of %r' % (n, old[:60])); sh('git -C %s checkout -- .' % R); break
            open(p, 'w').write(s.replace(old, new, 1))
        else:
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % R).stdout)
            sh('git -C %s checkout -- .' % R)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.cpp'), 'w').write(b['demo'])
            for h in ('h.hpp', 'models.hpp', 'integ.hpp'):
                if h in b['demo'] or h == 'h.hpp' or (h == 'models.hpp' and 'integ.hpp' in b['demo']): shutil.copy(os.path.join(V, 'harness', h), d)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            ok[i] = b
    r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0
    for i in list(ok):
        r = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R)
        if r.returncode: print(i, 'DEMO FAILS ON THE CLEAN TREE', r.returncode, r.stdout[-1500:]); del ok[i]
    for i, b in ok.items():
        a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
        if a.returncode: print(i, 'no apply', a.stdout); continue
        try:
            r = sh('bash /opt/vp/build.sh')
            if r.returncode: print(i, 'DOES NOT BUILD', r.stdout[-1500:]); continue
            t, o = stable()
            if not t: print(i, 'TESTS FAIL', str(o)[:600]); continue
            r = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R)
            if r.returncode in (0, 2): print(i, 'DEMO DOES NOT FAIL', r.returncode, r.stdout[-800:]); continue
            c = sh('timeout 900 python3-vt check.py %s' % b['prop'], cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print('%-6s %s demo ok (%s) | check rc=%d %s' % (i, b['prop'], r.stdout.strip().splitlines()[-1][:90] if r.stdout.strip() else '', c.returncode, 'CAUGHT ' + ('(no input)' if v and 'no-failing' in v[0] else '(replayed)') if c.returncode == 1 and v else 'MISSED'))
            for l in c.stdout.splitlines():
                if not l.startswith('VIOLATION'): print('       ', l[:230])
        finally:
            sh('git -C %s checkout -- .' % R)
        sys.stdout.flush()
    sh('bash /opt/vp/build.sh')


main()
