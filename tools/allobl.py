#!/usr/bin/env python3
"""developer tool: run every obligation of every property once (DT_REPO selects the tree).
usage: allobl.py [--py|--cpp] [--json OUT] [name-filter...]"""
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import check                                           # noqa
from rules.registry import PROPS                       # noqa
from rules.base import preload                         # noqa


def collect(args):
    obls = []
    seen = set()
    for pid in PROPS:
        for o in PROPS[pid]['obligations']():
            k = o.name + '|' + str(getattr(o, 'keys', ''))+ '|' + str(getattr(o, 'spec', ''))
            if k in seen:
                continue
            seen.add(k)
            cpp = bool(o.mods())
            if '--py' in args and cpp or '--cpp' in args and not cpp:
                continue
            o.pid = pid
            obls.append(o)
    return obls


if __name__ == '__main__':
    args = sys.argv[1:]
    out = None
    if '--json' in args:
        i = args.index('--json')
        out = args[i + 1]
        del args[i:i + 2]
    flt = [a for a in args if not a.startswith('--')]
    obls = [o for o in collect(args) if not flt or any(f in o.name for f in flt)]
    mods = []
    for o in obls:
        for m in o.mods():
            if m not in mods:
                mods.append(m)
    t0 = time.time()
    preload(mods)
    check._OBLS[:] = obls
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(check.run_one, [(i, 1, 'quick') for i in range(len(obls))], chunksize=1)
    cnt = {}
    d = {}
    for o, r in zip(obls, res):
        if r.status == 'violated':
            r.findings = [f for f in r.findings if f.key() not in check.known_findings(o.pid)]
            r.status = 'violated' if r.findings else 'holds'
        cnt[r.status] = cnt.get(r.status, 0) + 1
        d[o.pid + ' ' + o.name] = [r.status, r.info.get('reason', ''), r.info.get('function', ''), r.info.get('inlined', []), r.info.get('wall_s')]
        if r.status != 'holds':
            print(r.status, o.pid, o.name, (r.info.get('reason') or (r.findings[0].text if r.findings else ''))[:300])
    print(cnt, '%.0f s' % (time.time() - t0))
    if out:
        json.dump(d, open(out, 'w'), indent=1)
