#!/usr/bin/env python3
"""Runs the checks against planted bugs: python3 tools/runseeds.py [ID...]

Each bug is applied to a scratch copy of /repo and the check of its property is run on that copy."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = '%s/seeded/%s' % (VERIF, sid)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seedrun-')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/repo'])
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=tmp + '/repo')
        e = dict(os.environ, VERIF_REPO=tmp + '/repo')
        p = subprocess.run(['python3', VERIF + '/tools/check.py', prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=VERIF)
        return sid, prop, p.returncode, p.stdout.decode()
    finally:
        shutil.rmtree(tmp)


ids = sys.argv[1:] or sorted(os.path.basename(x) for x in glob.glob(VERIF + '/seeded/*') if os.path.exists(x + '/meta.json'))
bad = []
with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as pool:
    for sid, prop, rc, text in pool.map(one, ids):
        print('%-28s %s %s %s' % (sid, prop, {0: 'MISSED', 1: 'caught', 2: 'ERROR'}.get(rc, rc),
                                  (text.strip().splitlines() or [''])[0][:150]), flush=True)
        if rc != 1:
            bad.append(sid)
print('%d of %d caught; not: %s' % (len(ids) - len(bad), len(ids), bad))
