#!/usr/bin/env python3
"""developer tool: confirm planted bugs (demo passes before, fails after, tests pass) and run a check on them.
usage: seed_try.py [--notest] ID..."""
import json
import os
import subprocess
import sys
V = '/verif'
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable(out):
    d = json.load(open(out))
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    p = d.get('passed', d.get('pass', []))
    return [t for t in b if t not in p]


notest = '--notest' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
built_dirty = False
for i in ids:
    d = '%s/seeded/%s' % (V, i)
    meta = json.load(open(d + '/meta.json'))
    cpp = '.cpp' in open(d + '/patch.diff').read() or '.h\n' in open(d + '/patch.diff').read()
    if built_dirty:
        sh('bash /opt/vp/build.sh')
        built_dirty = False
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode:
        print(i, 'patch does not apply', a.stderr)
        continue
    try:
        rb = sh('bash /opt/vp/build.sh') if not notest or cpp else None
        built_dirty = cpp
        missing = []
        if not notest:
            rt = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            missing = stable('/tmp/seed_t.json')
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        c = sh('python3 check.py %s' % meta['property'], cwd=V)
        vl = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  ->')]
        ok = r0.returncode == 0 and r1.returncode != 0 and not missing and (rb is None or rb.returncode == 0)
        print(i, meta['property'], 'VALID' if ok else 'INVALID(demo0=%d demo1=%d lost=%s build=%s)' % (
            r0.returncode, r1.returncode, missing[:3], rb.returncode if rb else '-'), 'check=%d' % c.returncode, (vl or ['-'])[0][:260])
        if r0.returncode:
            print(r0.stdout[-500:], r0.stderr[-500:])
    finally:
        sh('git -C %s checkout -- .' % R)
if built_dirty:
    sh('bash /opt/vp/build.sh')
