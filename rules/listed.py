"""Particles listed by a user module: every item is a complete, consistent particle record."""
import ast
import os
import re
from .base import Rule, Finding, Broken, REPO, Cfg, pyworld
from engine.compare import build
from engine.graph import Graph
from engine.evalg import Evaluator
from engine.build import Undecided

SKIP = {'UserParticles_2D_H_He_e.py'}        # outdated module, see C24


def distributions():
    """(module, function) of every function of a *Distribution* class with one parameter"""
    out = []
    for fn in sorted(os.listdir(REPO)):
        if not re.match(r'UserParticles.*\.py$', fn) or fn in SKIP:
            continue
        t = ast.parse(open(os.path.join(REPO, fn)).read())
        for c in t.body:
            if isinstance(c, ast.ClassDef) and 'Distribution' in c.name:
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        ps = [a.arg for a in f.args.args if a.arg != 'self']
                        if ps == ['type']:
                            out.append((fn[:-3], '%s.%s' % (c.name, f.name)))
    return out


def is_records(v):
    return isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and all(isinstance(x, tuple) for x in v[1]) and len(v[1]) > 0


def check(w, mod, q, bad):
    from .base import find
    f = find(w, mod, q)
    if f is None:
        raise Broken('%s.%s is gone' % (mod, q))
    g = Graph()
    cfg = Cfg(hints={'arg0': ['listed', 'other']}, sym_attrs={'UNIQUE_ID_COUNTER'})
    b = build(g, w, f, cfg, mod, f.cls)
    dim = re.search(r'_([123])D', mod)
    seen_list = seen_other = False
    ids_by_seed = []
    for s in range(12):
        ev = Evaluator(g, s, cfg.hints, ['listed', 'other'])
        for k, c, st, v in b.comps:
            if not ev.truth(ev.ev(c, ev.top)):
                continue
            if k != 'return':
                seen_other = True
                continue
            if v is None:
                bad('nothing', 'returns nothing')
                continue
            val = ev.ev(v, ev.top)
            if not is_records(val):
                bad('form', 'does not return (number of particles, tuple of particle records)')
                continue
            seen_list = True
            n, recs = val
            if ev.num(n) != len(recs):
                bad('count', 'reports %s particles but lists %d' % (n, len(recs)))
            ids = []
            for i, r in enumerate(recs):
                d, rest = divmod(len(r) - 5, 3)
                if rest or d not in (1, 2, 3) or dim and d != int(dim.group(1)):
                    bad('length', 'record %d has %d items; a record has position, initial position and velocity, then weight, bit flags, cell index, unique id and crossings' % (i, len(r)))
                    continue
                if len(r) != len(recs[0]):
                    bad('length', 'records of different lengths')
                for j in range(d):
                    if not ev.eq(r[j], r[d + j]):
                        bad('initial', 'record %d: coordinate %d of the initial position is not that of the position' % (i, j))
                wgt, flags, cell, uid, crossings = r[3 * d:]
                if not ev.num(wgt) > 0:
                    bad('weight', 'record %d has weight %s' % (i, wgt))
                if ev.num(flags) not in (0, 2):
                    bad('flags', 'record %d has bit flags %s: only the trajectory flag (2) may be set' % (i, flags))
                if ev.num(cell) != -1:
                    bad('cell', 'record %d has cell index %s before the cell is known' % (i, cell))
                if ev.num(crossings) != 0:
                    bad('crossings', 'record %d starts with %s crossings' % (i, crossings))
                ids.append(ev.num(uid))
            if len(set(ids)) != len(ids):
                bad('ids', 'two records have the same unique id')
            counter = None
            n = st.heap.get('attr:UNIQUE_ID_COUNTER')
            if n is not None:
                upd = list(ev.ev(n, ev.top).upd.values())
                if upd:
                    counter = ev.num(upd[0])
            ids_by_seed.append((ids, counter))
    if not seen_list:
        bad('form', 'lists no particles for type "listed"')
    if not seen_other:
        bad('type', 'accepts a type other than "listed"')
    for i in range(min((len(x[0]) for x in ids_by_seed), default=0)):
        vals = {x[0][i] for x in ids_by_seed}
        if len(vals) > 1:                                 # taken from the counter
            for ids, counter in ids_by_seed:
                if counter is None or counter <= ids[i]:
                    bad('counter', 'the unique id of record %d is taken from the counter, which is not advanced past it' % i)
                    break


def rule():
    w = pyworld()
    fs = []
    inst = distributions()
    for mod, q in inst:
        where = mod + '.py'
        done = set()

        def bad(kind, text):
            if kind not in done:
                done.add(kind)
                fs.append(Finding('listed', '%s %s.%s' % (kind, mod, q), where, '%s.%s: %s' % (mod, q, text)))
        try:
            check(w, mod, q, bad)
        except Undecided as e:
            raise Undecided('%s.%s: %s' % (mod, q, e))
    return fs, dict(instances=len(inst), functions=['%s.%s' % x for x in inst])


def listed():
    return [Rule('listed', rule, minimum=5)]
