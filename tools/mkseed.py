#!/usr/bin/env python3
"""Plants bugs: python3 tools/mkseed.py BATCH.py

BATCH.py defines SEEDS, a list of (id, property, [(file, old, new), ...], needs, what_it_breaks, demo),
where demo is the text of a C++ program which fails when the bug is there. Each one is confirmed in a
scratch copy of /repo (builds, tests pass, the demonstration tells the trees apart) and kept as seeded/<id>/.
No check uses this."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository; exit status 0 if the behaviour is as it should be
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
g++ -std=c++17 -O1 -w %s -I. "$here/demo.cc" -o "$out/demo" || exit 3
cd "$out" && timeout 200 ./demo
'''
PRE = '''#include <math.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <vector>
using std::min;
using std::max;
#define CHECK(x) do { if (!(x)) { std::printf("line %d: %s\\n", __LINE__, #x); return 1; } } while (0)
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def make(seed, repo):
    sid, prop, edits, needs, breaks, demo = seed[:6]
    flags = seed[6] if len(seed) > 6 else ''
    sh('git checkout -q -- .', repo)
    d = '%s/seeded/%s' % (VERIF, sid)
    for f, old, new in edits:
        p = repo + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            return '%s: %d matches of %r in %s' % (sid, t.count(old), old, f)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.cc', 'w').write(PRE + demo)
    open(d + '/demo.sh', 'w').write(DEMO % flags)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    # the project's own tests, with the change
    t = sh('make -s -B -k -j2 CXX=g++ $(ls *_test.cc | sed s/.cc//) 2>&1 | tail -20; for t in *_test.cc; do '
           'timeout 120 ./${t%.cc} >/dev/null 2>&1 || { echo FAIL $t; exit 1; }; done', repo + '/tests')
    if t.returncode:
        return '%s: tests fail: %s' % (sid, t.stdout.decode()[-1000:])
    a = sh(d + '/demo.sh', repo)
    sh('git checkout -q -- .', repo)
    b = sh(d + '/demo.sh', repo)
    if b.returncode:
        return '%s: the demonstration fails without the change: %s' % (sid, b.stdout.decode()[-1000:])
    if not a.returncode or a.returncode == 3:
        return '%s: the demonstration passes with the change %s' % (sid, a.stdout.decode()[-1000:])
    return None


def worker(seeds):
    repo = tempfile.mkdtemp(prefix='mkseed-') + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    while seeds:
        s = seeds.pop(0)
        e = make(s, repo)
        if e:
            shutil.rmtree('%s/seeded/%s' % (VERIF, s[0]), ignore_errors=True)
        print(e or s[0] + ' ok', flush=True)
    shutil.rmtree(os.path.dirname(repo))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    seeds = [s for s in ns['SEEDS'] if not only or s[0] in only]
    pool = [threading.Thread(target=worker, args=(seeds,)) for _ in range(6)]
    for t in pool:
        t.start()
    for t in pool:
        t.join()


main()
