#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: turn edit specs into /verif/seeded/<id> (patch, demo, meta) and confirm each in /repo (undone afterwards).
A spec file defines S = {id: dict(property, edits=[(file, old, new)...], needs, breaks, demo=C++ source)}."""
import sys, os, json, subprocess, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('VP_R', '/repo')
DEMO = r'''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken. Run with cwd = the repository, after its build.
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
VP_REPO="$PWD" python3 "$D/port.py" "$T/src" || exit 3
A=""; for t in BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER; do A="$A -D__GCC_ATOMIC_${t}_LOCK_FREE=2"; done
clang++-18 -std=c++17 -w -O0 -g -pthread -fno-strict-aliasing -ffp-contract=off -fms-extensions -fms-compatibility -fms-compatibility-version=19 -fdelayed-template-parsing -D_WIN32_WINNT=0x0600 $A -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1 -I"$D/shim" -include vp_pre.h -I"$T/src" -I/opt/vp/nntl/include @SAN@ "$D/demo.cpp" -c -o "$T/demo.o" && clang++-18 -std=c++17 -w -O1 -pthread @SAN@ "$T/demo.o" "$D/env.cpp" -o "$T/demo" || exit 4
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def one(i, s):
    d = os.path.join(os.environ.get('VP_OUT', os.path.join(H, 'seeded')), i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not sh('git -C %s status --porcelain -uno' % R).stdout, 'repo dirty'
    try:
        for f, a, b in s['edits']:
            p = os.path.join(R, f); t = open(p, 'rb').read(); crlf = b'\r\n' in t
            A, B = (x.replace('\r\n', '\n').encode('latin-1') for x in (a, b))
            if crlf: A, B = A.replace(b'\n', b'\r\n'), B.replace(b'\n', b'\r\n')
            assert t.count(A) == 1, (i, f, 'old text occurs %d times' % t.count(A))
            open(p, 'wb').write(t.replace(A, B))
        open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', R, 'diff', '--binary'], stdout=subprocess.PIPE).stdout)
        open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(DEMO.replace('@SAN@', s.get('san', ''))); os.chmod(d + '/demo.sh', 0o755)
        shutil.copy(H + '/port/port.py', d); shutil.copy(H + '/tools/seeds/env.cpp', d); 'blas.h' in s['demo'] and shutil.copy(H + '/harness/blas.h', d); shutil.copytree(H + '/port/shim', d + '/shim'); shutil.copytree(H + '/port/_extern', d + '/_extern')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh' if R == '/repo' else 'true'); bad = b.returncode
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json' if R == '/repo' else 'echo {} > /tmp/seed_out.json'); base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/seed_out.json'))
        demo = sh('bash %s/demo.sh' % d, cwd=R)
        chk = None
        if '--check' in sys.argv: chk = sh('python3 run.py %s' % s['property'], cwd=H)
    finally: sh('git -C %s checkout -- .' % R)
    clean = sh('bash %s/demo.sh' % d, cwd=R)
    print(i, 'build rc', bad, 'tests', json.dumps(out)[:200], '| demo patched rc', demo.returncode, '| clean rc', clean.returncode)
    if demo.returncode in (0, 3, 4): print('   DEMO DOES NOT FAIL:', '\n'.join([l for l in demo.stdout.decode().splitlines() if 'rror' in l or 'FAIL' in l][:5]))
    if clean.returncode: print('   DEMO FAILS ON CLEAN:', clean.stdout.decode()[-500:])
    if bad: print(b.stdout.decode()[-500:])
    if chk: print('   check rc', chk.returncode, chk.stdout.decode()[-600:])
g = {}; exec(open(sys.argv[1]).read(), g)
ids = [a for a in sys.argv[2:] if a[0] != '-'] or list(g['S'])
for i in ids: one(i, g['S'][i])
R != '/repo' or sh('bash /opt/vp/build.sh')
