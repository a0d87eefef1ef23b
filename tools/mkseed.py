#!/usr/bin/env python3
"""dev tool: mkseed.py <dir-with: edit.py|patch.diff, demo.cpp, meta.json> -- builds patch, validates in a scratch copy"""
import sys, os, subprocess, json, shutil, tempfile
d = os.path.abspath(sys.argv[1]); W = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
DEMO = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken. cwd = /repo after the build
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R="$PWD"
g++ -std=c++11 -O1 -march=x86-64-v3 -maes -mpclmul -mrdseed -w -I"$R" "$D/demo.cpp" -o "$T/demo" -L"$R/_build" -lemp-tool -lcrypto -pthread -Wl,-rpath,"$R/_build" || exit 3
cd "$T" && timeout 120 ./demo
'''
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
subprocess.check_call(['cp', '-a', '/repo', W + '/repo']); R = W + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, **k)
def build():
    sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh" % (R, W))
    if not os.path.exists(R + '/_clean'):
        shutil.rmtree(R + '/_build', ignore_errors=True); open(R + '/_clean', 'w')
    r = sh('bash %s/build.sh' % W, capture_output=True, text=True)
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); raise SystemExit('build failed')
try:
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True); print('demo on unchanged:', r0.returncode, (r0.stdout + r0.stderr)[-300:])
    if len(sys.argv) > 2 and os.path.exists(sys.argv[2]):
        subprocess.check_call(['python3', sys.argv[2]], cwd=R)
        p = sh('git diff', capture_output=True, text=True).stdout; open(d + '/patch.diff', 'w').write(p)
    else: sh('git apply ' + d + '/patch.diff', check=True)
    build()
    r1 = sh('bash %s/demo.sh' % d, capture_output=True, text=True); print('demo on patched:', r1.returncode, (r1.stdout + r1.stderr)[-300:])
    sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh" % (R, W))
    t = sh('bash %s/test.sh %s/out.json' % (W, W), capture_output=True, text=True)
    o = json.load(open(W + '/out.json')); print('tests failed:', o['failed'], 'passed', len(o['passed']))
    print('SEED OK' if r0.returncode == 0 and r1.returncode != 0 and len(o['passed']) == 17 else 'SEED BAD')
finally: shutil.rmtree(W)
