"""developer tool: mkseed(id, prop, file, old, new, needs, breaks, demo_py) writes seeded/<id>/"""
import json
import os
import subprocess
V = '/verif'
R = '/repo'
DEMO = '''#!/bin/bash
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d)
cd "$W" || exit 9
/opt/venv/bin/python "$D/demo.py"
rc=$?
cd /
rm -rf "$W"
exit $rc
'''


def mkseed(id, prop, edits, needs, breaks, demo):
    d = '%s/seeded/%s' % (V, id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run('git -C /repo diff --quiet', shell=True).returncode == 0
    try:
        for e in edits:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else None             # which occurrence, 0-based
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1 or n is not None and s.count(old) > n, (id, f, s.count(old), old)
            parts = s.split(old)
            n = n or 0
            open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run('git -C /repo checkout -q -- .', shell=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(demo)
    if 'from kit import' in demo:
        open(d + '/kit.py', 'w').write(open(os.path.join(V, 'tools', 'seedkit.py')).read())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
