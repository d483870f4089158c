#!/usr/bin/env python3
"""developer aid: show loop signatures and observables of code and reference under one valuation
   dbg.py module:function OBLIGATION [valuation]"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from rules import base                                         # noqa
from engine.compare import build, observe, run_big             # noqa
from engine.graph import Graph                                 # noqa
from engine.evalg import Evaluator, H                          # noqa
from engine.build import Cfg                                   # noqa


def main():
    m, f = sys.argv[1].split(':')
    o = [x for x in getattr(importlib.import_module('rules.' + m), f)() if x.name == sys.argv[2]][0]
    val = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    w = base.pyworld() if o.lang == 'py' else base.cppworld(o.lang[4:])[0]
    fn = base.find(w, o.module, o.qual)
    sw = base.specworld()
    sm, sq = o.spec.split(':')
    sf = sw.get(sm, sq)
    scls = sf.cls if sf is not None else None
    if sf is None:
        scls, nm = sq.split('.')
        sf = sw.method(scls, nm)
    kw = dict(o.cfg)
    si, sk = kw.pop('spec_inline', set()), kw.pop('spec_cfg', {})
    cfg = Cfg(**kw)
    k2 = dict(kw)
    k2.update(sk)
    cfg2 = Cfg(**k2)
    cfg2.inline = set(cfg2.inline) | set(si)
    cfg2.sigworld = w
    g = Graph()
    cb = build(g, w, fn, cfg, 'c', o.cls_of(fn))
    sb = build(g, sw, sf, cfg2, 's', scls)
    strings = sorted(cb.b.strings | sb.b.strings)
    strings = [s for s in strings if len(s) < 40][:40] + ['?']
    evs = []
    for x in (cb, sb):
        ev = Evaluator(g, H('seed', 1, val), cfg.hints, strings)
        obs = observe(ev, x, cfg)
        evs.append((ev, obs))
    a, b = evs[0][1], evs[1][1]
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            print('DIFF', k, a.get(k), b.get(k))
    for lab, (ev, obs) in zip('cs', evs):
        print('=====', lab)

        def walk(ctx, depth, seen):
            for key, R in list(ctx.memo.items()):
                if not (isinstance(key, tuple) and key[0] == 'loop'):
                    continue
                lid = key[1]
                L = g.loops[lid]
                print('  ' * depth + lid, L.prov[1:], 'ctx', id(ctx) % 1000)
                print('  ' * depth + '   outs', [x[0] for x in R.outs])
                for v in sorted(L.init):
                    s = R.sig.get(v)
                    ini = R.inits[v]
                    nx = [ev.hv(ev.ev(L.next[v], cc)) % 100000 if x[0] == 'next' else None for cc, x in zip(R.ctxs, R.outs)]
                    print('  ' * depth + '   %-28s init %5d sig %s next %s' % (v, ev.hv(ini) % 100000, s % 100000 if s else None, nx))
                if depth < DEPTH:
                    for cc in R.ctxs[:NC]:
                        walk(cc, depth + 2, seen)
        walk(ev.top, 0, set())


DEPTH = int(os.environ.get('DEPTH', '2'))
NC = int(os.environ.get("NC", "2"))
run_big(main)
