#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from tools/seeds/*.py and confirms each one.

Every tools/seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new[, nth from 1])]
and DEMO (C++ body of a program that returns 0 when the property holds).
  seeds.py gen [ids]       write patch.diff, demo.sh, demo.cpp, meta.json
  seeds.py confirm [ids]   in a scratch copy bind-mounted over /repo in a private mount
                           namespace: build + demo on the clean tree, then apply, build,
                           stable tests, demo on the changed tree
  seeds.py detect [ids]    apply to a scratch copy, run that property's quick check there
Nothing here is used by the checks.
"""
import difflib, glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# Builds demo.cpp against the library in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
R=$PWD
objs=$(ls "$R"/core/*.x11.opt.debug.64.o "$R"/modules/*.o "$R"/modules/*/*.o "$R"/platform/*.x11.opt.debug.64.o 2>/dev/null | sort -u)
g++ -w -O1 -std=gnu++14 -DUSING_SFW -D_REENTRANT -DDEBUG_ENABLED -fno-rtti %(flags)s-I"$R" -I"$R/platform" "$here/demo.cpp" \\
  -Wl,--start-group "$R"/libmlpp.x11.opt.debug.64.a "$R"/platform/libplatform.x11.opt.debug.64.a -Wl,--end-group \\
  -lpthread -ldl %(libs)s -o "$out/demo" || exit 2
cd "$out" && timeout 120 ./demo
rc=$?
[ $rc -eq 0 ] && echo "demo: property holds" || echo "demo: property broken (rc=$rc)"
exit $rc
'''
PRE = '''// %(id)s: demonstration for property %(prop)s
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "platform/sfw.h"
#define EXPECT(c) do { if (!(c)) { printf("FAILED: %%s (line %%d)\\n", #c, __LINE__); return 1; } } while (0)
'''

def load(i):
    ns = {'FLAGS': '', 'LIBS': ''}
    exec(open(f'{V}/tools/seeds/{i}.py').read(), ns)
    return ns

def ids(a):
    return a or sorted(os.path.basename(p)[:-3] for p in glob.glob(f'{V}/tools/seeds/*.py'))

def gen(i):
    n = load(i)
    files = {}
    for e in n['EDITS']:
        f, o, w = e[:3]
        s = files.setdefault(f, [open(f'{REPO}/{f}').read()] * 2)
        cur = s[1]
        c = cur.count(o)
        k = e[3] if len(e) > 3 else None
        if k is None:
            assert c == 1, (i, f, o, c)
            cur = cur.replace(o, w)
        else:
            pos = -1
            for _ in range(k):
                pos = cur.index(o, pos + 1)
            cur = cur[:pos] + w + cur[pos + len(o):]
        files[f] = [s[0], cur]
    d = ''
    for f, (a, b) in files.items():
        out = []
        for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f):
            out.append(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n')
        d += ''.join(out)
    o = f'{V}/seeded/{i}'
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.sh', 'w').write(DEMO_SH % {'flags': n['FLAGS'] + ' ' if n['FLAGS'] else '', 'libs': n['LIBS']})
    open(o + '/demo.cpp', 'w').write(PRE % {'id': i, 'prop': n['PROPERTY']} + n['DEMO'].lstrip('\n'))
    json.dump({'property': n['PROPERTY'], 'needs': n['NEEDS'], 'what_it_breaks': n['BREAKS']}, open(o + '/meta.json', 'w'), indent=1)

CONF = r'''
set -e
mount --bind "$W" /repo
cd /repo
for id in $IDS; do
  git checkout -q -- . 
  bash /opt/vp/build.sh >/tmp/seed_$id.log 2>&1
  if (bash /verif/seeded/$id/demo.sh) >>/tmp/seed_$id.log 2>&1; then a=0; else a=$?; fi
  git apply /verif/seeded/$id/patch.diff
  b=0; bash /opt/vp/build.sh >>/tmp/seed_$id.log 2>&1 || b=1
  if (bash /verif/seeded/$id/demo.sh) >>/tmp/seed_$id.log 2>&1; then p=0; else p=$?; fi
  t=skip; if [ "${NOTEST:-}" = "" ]; then bash /opt/vp/test.sh /tmp/seed_$id.json >>/tmp/seed_$id.log 2>&1 || true
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/seed_$id.json'))
print(len([x for x in b if x not in r['passed']]))"); fi
  echo "$id clean_demo=$a build=$b patched_demo=$p stable_tests_lost=$t"
done
'''
def confirm(l):
    w = tempfile.mkdtemp(prefix='seedw', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', w], check=True)
        env = dict(os.environ, W=w, IDS=' '.join(l))
        subprocess.run(['unshare', '-m', 'bash', '-c', CONF], env=env)
    finally:
        shutil.rmtree(w)

DET = r'''
mount --bind "$W" /repo
cd /verif
for id in $IDS; do
  git -C /repo checkout -q -- .
  git -C /repo apply /verif/seeded/$id/patch.diff
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  timeout 900 python3 run.py $p >/tmp/seed_det_$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 ^VIOLATION /tmp/seed_det_$id.log)"
done
'''
def detect(l):
    w = tempfile.mkdtemp(prefix='seedw', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', w], check=True)
        env = dict(os.environ, W=w, IDS=' '.join(l))
        subprocess.run(['unshare', '-m', 'bash', '-c', DET], env=env)
    finally:
        shutil.rmtree(w)

if __name__ == '__main__':
    l = ids(sys.argv[2:])
    if sys.argv[1] == 'gen':
        for i in l: gen(i)
    elif sys.argv[1] == 'confirm': confirm(l)
    elif sys.argv[1] == 'detect': detect(l)
