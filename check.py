#!/usr/bin/env python3
"""check.py <PROPERTY> - decide one property of /repo's current source by static analysis."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from rules.base import Broken, preload, Finding, Result, Rule      # noqa
from rules.registry import PROPS                     # noqa


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                key, _, txt = line[len('known: property=%s ' % pid):].partition(' :: ')
                out[key.strip()] = txt.strip()
    return out


_OBLS = []


def run_one(a):
    i, seed, tier = a
    o = _OBLS[i]
    t = time.time()
    try:
        r = o.run(seed, tier)
    except Broken as e:
        # what this obligation is about is no longer there under its name: no verdict on it
        r = Result(o.name, 'rule' if isinstance(o, Rule) else 'congruence')
        r.status = 'undecided'
        r.info = {'reason': str(e)}
    except Exception as e:
        r = Result(o.name, 'rule' if isinstance(o, Rule) else 'congruence')
        r.status = 'undecided'
        r.info = {'reason': 'analysis failed: %s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-2000:]}
    r.info['wall_s'] = round(time.time() - t, 2)
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[pid]
    obls = spec['obligations']()
    mods = []
    for o in obls:
        for m in o.mods():
            if m not in mods:
                mods.append(m)
    preload(mods)
    _OBLS[:] = obls
    if len(obls) > 1 and os.environ.get('DT_SERIAL') is None:
        import multiprocessing as mp
        with mp.get_context('fork').Pool(min(8, len(obls))) as pool:
            results = pool.map(run_one, [(i, seed, tier) for i in range(len(obls))], chunksize=1)
    else:
        results = [run_one((i, seed, tier)) for i in range(len(obls))]
    if all(r.status == 'undecided' for r in results):
        raise Broken('no obligation of %s can be decided: %s' % (pid, results[0].info.get('reason')))
    known = known_findings(pid)
    bad = []
    quiet = []
    for r in results:
        for f in r.findings:
            (quiet if f.key() in known else bad).append(f)
    print('property %s: %s' % (pid, spec['title']))
    for r in results:
        i = r.info
        if r.kind == 'congruence':
            print('  %-9s %s: %s vs %s  (%s nodes, %s gates %s both ways, %s loops, %s valuations)%s' % (
                r.status, r.name, i.get('function'), i.get('reference'), i.get('nodes'), i.get('gates'), i.get('gates_both'),
                i.get('loops'), i.get('valuations'), ' ' + i['reason'] if 'reason' in i else ''))
        else:
            print('  %-9s %s: %s instances %s' % (r.status, r.name, i.get('instances'), i.get('reason', '')))
    for f in quiet:
        print('KNOWN-FINDING: property=%s %s :: %s' % (pid, f.key(), known[f.key()]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    undec = [r.name for r in results if r.status == 'undecided']
    cov = dict(
        explanation='static analysis of /repo source: %d obligations (%d congruence of a function\'s gated value graph with its reference '
                    'definition, %d extraction/table rules); nothing of /repo is executed' % (
                        len(results), sum(r.kind == 'congruence' for r in results), sum(r.kind == 'rule' for r in results)),
        obligations=len(results), discharged=sum(1 for r in results if r.status == 'holds'), undecided=undec,
        functions=sorted({r.info['function'] for r in results if 'function' in r.info}),
        gates=sum(r.info.get('gates', 0) for r in results), gates_seen_both_ways=sum(r.info.get('gates_both', 0) for r in results),
        value_graph_nodes=sum(r.info.get('nodes', 0) for r in results),
        rule_instances=sum(r.info.get('instances', 0) for r in results if r.kind == 'rule'),
        valuations=sum(r.info.get('valuations', 0) for r in results),
        details=[dict(name=r.name, kind=r.kind, status=r.status, **{k: v for k, v in r.info.items() if k not in ('calls',)}) for r in results],
        findings=[f.text for f in bad], known_findings=[f.text for f in quiet])
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2)), fh, indent=1, default=str)
    if bad:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in bad:
                fh.write('%s\n  at %s\n  %s\n' % (f.key(), f.where, f.text))
        for f in bad:
            print('  -> %s: %s' % (f.rule, f.text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('ok %s: %d obligations, %d undecided, %.1f s' % (pid, len(results), len(undec), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Broken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
