"""Obligation: two functions (code vs reference definition) have congruent value graphs."""
import fnmatch
import sys
from fractions import Fraction
import threading
from .graph import Graph
from .evalg import Evaluator, HeapVal, Trace, Sym, H, shash, hcanon, MASK, EvalError
from .build import Builder, Undecided

sys.setrecursionlimit(200000)


class Built:
    def __init__(self, comps, b):
        self.comps = comps
        self.b = b


def build(graph, world, func, cfg, label, cls=None):
    b = Builder(graph, world, cfg, label)
    b.pending = []
    b.accs = []
    comps = b.run(func, cls)
    r = Built(comps, b)
    r.escaped = escaped(graph, comps)
    return r


def escaped(g, comps):
    """fresh objects that are stored in something or returned"""
    seen = set()
    todo = []
    vals = []
    for k, c, st, v in comps:
        todo.extend(st.heap.values())
        if v is not None:
            todo.append(v)
            vals.append(v)
    loops = set()

    def expand(lid):
        if lid in loops:
            return []
        loops.add(lid)
        L = g.loops[lid]
        r = list(L.init.values()) + list(L.next.values())
        for e in L.exits:
            r.append(e[1])
            r.extend(x for x in e[2].values())
        for d in L.rv:
            r.extend(d.values())
        return r
    while todo:
        n = todo.pop()
        if n is None or n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('hstore',):
            vals.append(n.args[3])
        elif n.op == 'hmap':
            vals.append(n.args[2])
        if n.op in ('phi', 'loopout', 'K'):
            todo.extend(expand(n.args[0]))
        for a in n.args:
            if hasattr(a, 'op'):
                todo.append(a)
    out = {}
    seen = set()
    while vals:
        n = vals.pop()
        if n is None or n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'alloc':
            out[n.id] = n
        elif n.op in ('tuple', 'list', 'append', 'slice', 'ref', 'content', 'shared'):
            vals.extend(a for a in n.args if hasattr(a, 'op'))
        elif n.op == 'ite':
            vals.extend(n.args[1:])
        elif n.op in ('phi', 'loopout'):
            L = g.loops[n.args[0]]
            v = n.args[1]
            vals.append(L.init.get(v))
            vals.append(L.next.get(v))
            vals.extend(e[2].get(v) for e in L.exits)
    return [out[i] for i in sorted(out)]


def ign(part, pats):
    return any(fnmatch.fnmatch(part, p) for p in pats)


def observe(ev, built, cfg):
    """observables of one function under one valuation"""
    out = {}
    chosen = None
    for k, c, st, v in built.comps:
        if ev.truth(ev.ev(c, ev.top)):
            chosen = (k, st, v)
            break
    if chosen is None:
        return {'kind': 'none'}
    k, st, v = chosen
    out['kind'] = k
    if k == 'raise':
        return out
    heaps = {}
    for p, n in st.heap.items():
        heaps[p] = ev.ev(n, ev.top)
    val = ev.ev(v, ev.top) if v is not None else None

    def deep(x, d=3):
        if isinstance(x, tuple):
            return H(4, *[deep(y, d) for y in x])
        if isinstance(x, Sym) and x.alloc and d > 0:
            tot = 0
            for p, hp in heaps.items():
                for kk, vv in hp.upd.items():
                    if hp.roots.get(kk[0]) == x.root:
                        tot += H('e', kk[0], kk[1] if isinstance(kk[1], int) else shash(kk[1]), deep(vv, d - 1))
                for b2, a in hp.sl.items():
                    if hp.roots.get(b2) == x.root:
                        tot += H('sl', b2, a)
                if x.h in ev.alloc_ids and p == 'elem:alloc@%d' % ev.alloc_ids[x.h].id and hp.base != H('hinit', shash(hcanon(hp.part))):
                    tot += H('hb', hp.base)
            return H('alloc', x.h, tot & MASK, x.sh) if x.sh else H('alloc', x.h, tot & MASK)
        return ev.hv(x)

    if v is not None:
        out['ret'] = deep(val)
        if isinstance(val, tuple):
            for i, x in enumerate(val):
                out['ret[%d]' % i] = deep(x)
    el = 0
    for p, hp in heaps.items():
        if ign(p, cfg.ignore_parts):
            continue
        h = ev.heap_hash(hp, deep)
        h0 = H('hinit', shash(hcanon(p)))
        if h == h0:
            continue
        if p.startswith('elem:alloc@'):
            continue
        if p.startswith('elem:'):
            el += h
            out['elem:' + p[5:]] = h
        else:
            out[p] = h
    # what fresh objects stored somewhere contain
    fresh = 0
    for n in built.escaped:
        hp = heaps.get('elem:alloc@%d' % n.id)
        if hp is None:
            continue
        for kk, vv in hp.upd.items():
            fresh += ev.entry_hash(hp, kk, vv, deep)
        for b2, a in hp.sl.items():
            fresh += H('sl', b2, a)
        for r, t2 in hp.hav.items():
            fresh += H('hvx', r, t2)
        if hp.base != H('hinit', shash(hcanon(hp.part))):
            fresh += H('hb', hp.base)
    if fresh:
        out['elem:alloc'] = fresh & MASK
        el += fresh
    if el:
        out['elem'] = el & MASK
    t = st.tr.get('')
    if t is not None:
        out['trace'] = ev.hv(ev.ev(t, ev.top))
    return out


def alloc_labels(g, built, cfg, seed, strings):
    """name fresh objects stored in attributes after the attribute, the others by their order: the order in which
    a function creates its objects is not observable"""
    lab = {}
    seen = {}
    for i in range(4):
        ev = Evaluator(g, H('seed', seed, i), cfg.hints, strings)
        for k, c, st, v in built.comps:
            if not ev.truth(ev.ev(c, ev.top)):
                continue
            for p, n in st.heap.items():
                hp = ev.ev(n, ev.top)
                if not p.startswith('attr:'):
                    continue
                for kk, vv in hp.upd.items():
                    if isinstance(vv, Sym) and vv.alloc and vv.h in ev.alloc_ids and hp.roots.get(kk[0]) not in ev.allocs:
                        m = ev.alloc_ids[vv.h]
                        x = (p, kk[0])
                        if m.id not in lab or x < lab[m.id]:
                            lab[m.id] = x
            break
        for n in ev.alloc_ids.values():
            seen[n.id] = n
    if not lab:
        return {}
    out = {}
    groups = {}
    for n in sorted(seen.values(), key=lambda n: n.args[1]):
        if n.id in lab:
            out[n.id] = H('lab', shash(lab[n.id][0]), lab[n.id][1])
        else:
            k = (n.args[0],) + tuple(a.id for a in n.args[2:])
            out[n.id] = groups.get(k, 0)
            groups[k] = out[n.id] + 1
    return out


class Verdict:
    def __init__(self, status, keys=(), detail='', stats=None):
        self.status, self.keys, self.detail, self.stats = status, list(keys), detail, stats or {}


def run_big(fn):
    """run with a large stack (value graphs are deep)"""
    res = {}

    def go():
        try:
            res['v'] = fn()
        except BaseException as e:    # noqa
            res['e'] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in res:
        raise res['e']
    return res['v']


NOATTR = {'alloc', 'phi', 'const', 'varargs', 'kwargs', 'list', 'tuple', 'uf', 'append'}


def base_name(k):
    return k.split(':', 1)[1].split('[')[0]


SMALL = 4000        # small graphs get more valuations
EXTRA = 40          # extra valuations per number that only the code compares with, and for equalities only the code tests


def compare(code, spec, cfg_code, cfg_spec=None, samples=120, seed=1, observe_keys=None, ignore_keys=(), stop=6, attrs=None):
    """code/spec: (world, func, cls)"""
    cfg_spec = cfg_spec or cfg_code

    def go():
        g = Graph()
        g.side = 'code'
        try:
            cb = build(g, code[0], code[1], cfg_code, 'c', code[2] if len(code) > 2 else None)
        except Undecided as e:
            return Verdict('undecided', detail='code: %s' % e)
        g.side = 'spec'
        sb = build(g, spec[0], spec[1], cfg_spec, 's', spec[2] if len(spec) > 2 else None)
        total = samples * min(8, max(1, SMALL // g.n))
        strings = sorted(cb.b.strings | sb.b.strings)
        strings = [s for s in strings if len(s) < 40][:40] + ['?']
        bad = {}
        wit = None
        n = 0
        nones = 0
        kinds = {}
        cover = {}
        try:
            labels = {id(x): alloc_labels(g, x, cfg_code, seed, strings) for x in (cb, sb)}
        except EvalError as e:
            return Verdict('undecided', detail='eval: %s' % e)
        own = g.thresholds.get('code', set()) - g.thresholds.get('spec', set())
        own = [x if isinstance(x, int) else Fraction(x) for x in sorted(own) if x == x and abs(x) != float('inf')][:8]
        far = [x for x in own if x != 0 and (abs(x) < Fraction(1, 100) or abs(x) > 100)]
        modes = [None] * total + [('const', own)] * (EXTRA * len(own)) + [('scale', far)] * (EXTRA * len(far))
        if g.ties.get('code', set()) - g.ties.get('spec', set()):
            modes += [('pool', None)] * EXTRA
        for i, mode in enumerate(modes):
            res = []
            for x in (cb, sb):
                ev = Evaluator(g, H('seed', seed, i), cfg_code.hints, strings)
                ev.relabel = labels[id(x)]
                ev.mode = mode
                try:
                    res.append(observe(ev, x, cfg_code))
                except EvalError as e:
                    return Verdict('undecided', detail='eval: %s' % e)
                if x is cb:
                    for k, s in ev.cover.items():
                        cover.setdefault(k, set()).update(s)
            n += 1
            a, b = res
            kinds[a['kind']] = kinds.get(a['kind'], 0) + 1
            keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
            if 'kind' in keys:
                keys = ['kind']
            else:
                if 'elem' not in keys:
                    keys = [k for k in keys if not k.startswith('elem:')]
                else:
                    keys = [k for k in keys if k != 'elem' or not any(q.startswith('elem:') for q in keys)]
                if 'ret' in keys and any(k.startswith('ret[') for k in keys):
                    keys.remove('ret')
            keys = [k for k in keys if not ign(k, ignore_keys)]
            if attrs is not None:
                # attributes the repository did not have when the reference was written are private additions
                keys = [k for k in keys if not k.startswith(('attr:', 'elem:')) or base_name(k) in attrs or base_name(k) in NOATTR
                        or base_name(k).startswith('arg')]
            if observe_keys is not None:
                keys = [k for k in keys if ign(k, observe_keys)]
            for k in keys:
                bad[k] = bad.get(k, 0) + 1
            if keys:
                if wit is None:
                    wit = (i, keys, a.get('kind'), b.get('kind'))
                if len(bad) and sum(bad.values()) >= stop:
                    break
        both = sum(1 for s in cover.values() if len(s) == 2)
        st = dict(valuations=n, gates=len(cover), gates_both=both, nodes=g.n, stmts=cb.b.stats['stmts'], loops=cb.b.stats['loops'],
                  calls=sorted(cb.b.calls), inlined=sorted(cb.b.inlined), kinds=kinds)
        if bad:
            wr = {}
            for k in bad:
                p = k if not k.startswith('heap:') else k[5:]
                wr[k] = sorted({'%s:%s' % (w[0], w[1]) for w in cb.b.writes.get(p, ()) if w})
            v = Verdict('different', sorted(bad), 'valuation %d: %s' % (wit[0], wit[1:]), st)
            v.writes = wr
            return v
        return Verdict('equal', stats=st)
    return run_big(go)
