#!/usr/bin/env python3
"""Make and validate a planted bug: mkseed.py SPEC.py
SPEC.py defines: ID, PROPERTY, FILE, OLD, NEW (lists allowed: EDITS=[(file, old, new[, count])]), DEMO (C++), NEEDS, BREAKS, DEFS(optional)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.environ.get('SEED_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken. Run in the repository's directory.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
inc=$(find "$PWD/include" -type d | awk '{n=gsub("/","/"); print n, $0}' | sort -n | cut -d' ' -f2- | sed 's/^/-I/')
g++ -std=c++17 -include utility -fpermissive -w -O0 -DNDEBUG -DUSE_VIRTUAL_FUNCTIONS -DUSE_DYNAMIC_ASSERTIONS -DCOOLDIFF_SCALAR_TYPE=2 @DEFS@ $inc -isystem /usr/include/eigen3 "$d/demo.cpp" $(find "$PWD/src" -name '*.cpp') -o "$w/demo" -lpthread
rc=$?
if [ $rc -eq 0 ]; then timeout 120 "$w/demo"; rc=$?; fi
rm -rf "$w"
exit $rc
'''
PRE = '''#include "CoolDiff.hpp"
#include <cmath>
#include <cstdio>
static int bad = 0;
static void near(const char* what, double got, double want) { if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) { std::printf("%s: got %.12g, expected %.12g\\n", what, got, want); bad = 1; } }
'''
R = os.environ.get('COOLDIFF_REPO', '/repo')
def sh(c, cwd, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, 'seeded', s['ID']); os.makedirs(d, exist_ok=True)
    sc = tempfile.mkdtemp(prefix='/tmp/seedwt.'); wt = sc + '/r'
    ok = False
    try:
        sh('git clone -q %s %s' % (R, wt), '/')
        edits = s.get('EDITS') or [(s['FILE'], s['OLD'], s['NEW'])]
        for e in edits:
            p = os.path.join(wt, e[0]); t = open(p).read(); n = e[3] if len(e) > 3 else 1
            c = t.count(e[1]); assert c >= n, (e[0], 'found %d times' % c)
            if len(e) > 3:   # n-th occurrence
                i = -1
                for _ in range(n): i = t.index(e[1], i + 1)
                t = t[:i] + e[2] + t[i + len(e[1]):]
            else:
                assert c == 1, (e[0], 'found %d times' % c); t = t.replace(e[1], e[2])
            open(p, 'w').write(t)
        diff = sh('git diff', wt).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(PRE + s['DEMO'])
        open(d + '/demo.sh', 'w').write(SH.replace('@DEFS@', s.get('DEFS', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, R)
        b = sh('bash %s/demo.sh' % d, wt)
        print('demo clean rc', a.returncode, a.stdout[-300:]); print('demo patched rc', b.returncode, b.stdout[-300:])
        # the repository's tests on the patched tree: build in the copy
        env = tests(wt)
        print('tests', env)
        ok = a.returncode == 0 and b.returncode != 0 and env == 'ok'
        print(s['ID'], 'KEPT' if ok else 'REJECTED')
    finally:
        shutil.rmtree(sc, ignore_errors=True)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
def tests(wt):
    """the stable tests of the patched copy, built like /opt/vp/build.sh does but in the copy"""
    b = wt + '/_b2'
    r = sh('cmake -S . -B %s -G Ninja -Wno-dev -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ "-DCMAKE_CXX_FLAGS=-include utility" -DENABLE_ROBIN_HOOD_MAP=OFF -DCMAKE_DISABLE_FIND_PACKAGE_GTest=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DENABLE_EXAMPLE_BUILD=OFF -DENABLE_TEST_BUILD=ON && ninja -C %s CoolDiff OpsTest MatTest' % (b, b), wt, 900)
    if r.returncode: return 'build failed ' + r.stdout[-500:]
    sh('ctest --test-dir %s -j4 --timeout 300 --output-junit %s/j.xml; python3 /opt/vp/results.py %s/t.json junit:%s/j.xml' % (b, b, b, b), wt, 900)
    t = json.load(open(b + '/t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    return 'ok' if not failing(t, base) else 'failing: %s' % failing(t, base)[:5]
def failing(t, base):
    def names(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'tests'):
                if k in x and isinstance(x[k], list): return set(x[k])
        return set(x)
    return sorted(names(base) - names(t))
main(sys.argv[1])
