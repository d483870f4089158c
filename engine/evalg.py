"""Value-number hashing of a gated value graph (random interpretation, Gulwani & Necula).

A *valuation* gives every input symbol, every uninterpreted-function application and every
loop-carried value a pseudo-random value; arithmetic and comparisons are exact over the rationals.
Loops are never iterated: the loop-carried values of a loop get values derived from a canonical
colour-refinement signature (initial value + effect of one symbolic body pass), so two loops whose
variables are congruent get the same values whatever the variables are called.

Two graphs whose observables hash equally under every valuation tried are taken as congruent;
a difference under one valuation is a proof that the two value graphs denote different functions.
"""
import hashlib
from fractions import Fraction
from .graph import Node, fold, trunc_div

MASK = (1 << 61) - 1
_sh = {}


def shash(s):
    r = _sh.get(s)
    if r is None:
        r = int.from_bytes(hashlib.blake2b(s.encode(), digest_size=7).digest(), 'big')
        _sh[s] = r
    return r


def H(*p):
    return hash(tuple(shash(x) if isinstance(x, str) else x for x in p)) & MASK


class Sym:
    __slots__ = ('h', 'root', 'num', 'alloc', 'none', 'sv', 'sh')

    def __init__(self, ev, h, root=None, dom=None, alloc=False):
        self.h = h
        self.root = h if root is None else root
        self.alloc = alloc
        self.num = ev.pick(h, dom)
        self.none = (dom is None) and H('none', h, ev.seed) % 100 < 25
        self.sv = None
        self.sh = 0


class Trace:
    """effect trace: calls on one receiver are ordered, calls on different receivers commute"""
    __slots__ = ('base', 'ch')

    def __init__(self, base, ch=None):
        self.base = base
        self.ch = ch or {}

    @property
    def h(self):
        if not self.ch:
            return self.base
        tot = 0
        for k, v in self.ch.items():
            tot += H('ch', k, v)
        return H('trace', self.base, tot & MASK)

    def chan(self, k):
        return self.ch.get(k) or H('c0', self.base, k)

    def add(self, k, x):
        d = dict(self.ch)
        d[k] = H('t', self.chan(k), x)
        return Trace(self.base, d)


class HeapVal:
    __slots__ = ('base', 'upd', 'hav', 'roots', 'sl', 'part')

    def __init__(self, base, part):
        self.base = base
        self.part = part
        self.upd = {}
        self.hav = {}
        self.sl = {}
        self.roots = {}

    def copy(self):
        h = HeapVal(self.base, self.part)
        h.upd = dict(self.upd)
        h.hav = dict(self.hav)
        h.sl = dict(self.sl)
        h.roots = dict(self.roots)
        return h


class Ctx:
    __slots__ = ('loop', 'vals', 'memo', 'parent', 'k')

    def __init__(self, loop, vals, k, parent):
        self.loop = loop
        self.vals = vals
        self.k = k
        self.memo = {}
        self.parent = parent


class LoopRes:
    __slots__ = ('sig', 'ctxs', 'outs', 'inits')


class EvalError(Exception):
    pass


class Evaluator:
    ROUNDS = 2
    J = 3

    def __init__(self, graph, seed, hints=None, strings=()):
        self.g = graph
        self.relabel = {}           # alloc node -> order-independent name
        self.alloc_ids = {}
        self.seed = seed
        self.hints = hints or {}
        self.strings = list(strings) or ['?']
        self.top = Ctx(None, {}, None, None)
        self.cover = {}
        self.steps = 0
        self.mode = None            # ('const'|'scale', numbers) or ('pool', None): unusual values to try
        self.scratch = {H('c', shash(repr(('global', '__G__'))))}

    # ---- values --------------------------------------------------------------------------
    def vary(self, r, h, dom):
        """values chosen for conditions that only the code (not the reference) tests"""
        kind, own = self.mode
        q = (H('vary', h, self.seed) >> 4) % 8
        if kind == 'pool':
            return 1 + (r >> 8) % 2 if q < 4 else None
        c = own[(r >> 8) % len(own)]
        if kind == 'scale':
            if q < 4 and dom in (None, 'float', 'unit'):
                return c * Fraction((r >> 20) % 33 - (16 if dom != 'unit' else 0), 8)
            return None
        if q < 3 and dom != 'unit':
            v = c + ((r >> 40) % 3 - 1)
            if v > 0 or dom in (None, 'float') or v == 0 and dom == 'nonneg':
                return v
        elif q < 6 and dom != 'unit':
            return (r >> 8) % 20 + (dom == 'pos')
        return None

    def pick(self, h, dom=None):
        r = H('pick', h, self.seed)
        if self.mode is not None and dom in (None, 'nonneg', 'float', 'pos', 'unit'):
            v = self.vary(r, h, dom)
            if v is not None:
                return v
        if dom is not None:
            if callable(dom):
                return dom(self.seed, r >> 8)
            if dom == 'nonneg':
                m = r % 10
                return (r >> 8) % 5 if m < 8 else (r >> 8) % 1000
            if dom == 'pos':
                return 1 + (r >> 8) % 4
            if dom == 'float':
                m = r % 16
                if m < 2:
                    return 0
                if m < 8:
                    return Fraction((r >> 8) % 33 - 16, 8)
                return Fraction((r >> 8) % 4001 - 2000, 1 + (r >> 24) % 7)
            if dom == 'obj':
                return Fraction((r >> 8) % 4001 - 2000, 1 + (r >> 24) % 7)
            if dom == 'unit':
                return Fraction((r >> 8) % 11, 10)
            return dom[(r >> 8) % len(dom)]
        m = r % 100
        if m < 55:
            return (0, 1, 2, 3, 1, 0, 2, -1)[(r >> 8) % 8]
        if m < 75:
            return (r >> 8) % 12 - 3
        if m < 90:
            return Fraction((r >> 8) % 49 - 24, 8)
        return Fraction((r >> 8) % 2000001 - 1000000, 1 + (r >> 32) % 9)

    def sym(self, h, root=None, dom=None, alloc=False):
        r = Sym(self, h, root, dom, alloc)
        return r.num if isinstance(r.num, (str, tuple)) or r.num is None else r

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, Sym):
            return v.num
        return self.pick(self.hv(v))

    def hv(self, v):
        """value hash"""
        if isinstance(v, bool):
            return H(1, int(v), 1, False)
        if isinstance(v, int):
            return H(1, abs(v), 1, v < 0)
        if isinstance(v, Fraction):
            return H(1, abs(v.numerator), v.denominator, v < 0)
        if isinstance(v, Sym):
            n = v.num
            if v.alloc:
                return H(9, v.h, v.sh) if v.sh else H(9, v.h)
            return H(1, abs(n), 1, n < 0) if isinstance(n, int) else H(1, abs(n.numerator), n.denominator, n < 0)
        if isinstance(v, str):
            return H(2, shash(v))
        if v is None:
            return 3333
        if isinstance(v, tuple):
            return H(4, *[self.hv(x) for x in v])
        if isinstance(v, Trace):
            return v.h
        if isinstance(v, HeapVal):
            return self.heap_hash(v)
        raise EvalError('hv %r' % (v,))

    def ident(self, v):
        """identity hash (used when a value is the base of a memory access)"""
        if isinstance(v, Sym):
            return v.h
        return self.hv(v)

    def root(self, v):
        return v.root if isinstance(v, Sym) else self.hv(v)

    def truth(self, v):
        if isinstance(v, Sym):
            return (not v.none) and v.num != 0
        if isinstance(v, (bool, int, Fraction, str, tuple)):
            return bool(v)
        if v is None:
            return False
        return True

    def sval(self, v):
        if v.sv is None:
            v.sv = self.strings[H('sv', v.h, self.seed) % len(self.strings)]
        return v.sv

    def eq(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            s, o = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(o, Sym):
                return self.sval(o) == s
            return False
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            return o.none if isinstance(o, Sym) else False
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
            return bool(H('teq', self.hv(a) ^ self.hv(b), self.seed) & 1)
        if isinstance(a, bool) and isinstance(b, Sym):
            return (not b.none) and self.truth(b) == a
        if isinstance(b, bool) and isinstance(a, Sym):
            return (not a.none) and self.truth(a) == b
        if isinstance(a, Sym) and isinstance(b, Sym) and a.h == b.h:
            return True
        return self.num(a) == self.num(b)

    # ---- heaps ---------------------------------------------------------------------------
    def hkey(self, k):
        return self.hv(k)

    def heap_get(self, hp, base, key, dom):
        bh, rt = self.ident(base), self.root(base)
        k = self.hkey(key)
        u = hp.upd
        if (bh, k) in u:
            return u[(bh, k)]
        if (bh, 'ALL') in u:
            v = u[(bh, 'ALL')]
            if isinstance(v, (int, Fraction)):
                return v
            return self.sym(H('idx', self.hv(v), k))
        if rt in hp.hav:
            v = self.sym(H('hv', hp.hav[rt], bh, k, shash(hp.part)), dom=dom)
        else:
            v = self.sym(H('ld', hp.base, bh, k), dom=dom)
        if bh in hp.sl:
            return self.sym(H('sl', hp.sl[bh], self.ident(v)))
        return v

    def heap_set(self, hp, base, key, val):
        hp = hp.copy()
        bh, rt = self.ident(base), self.root(base)
        hp.roots[bh] = rt
        if isinstance(key, tuple) and key and key[0] == '$slice':
            lo, hi, st = key[1:]
            if (lo is None or self.num(lo) == 0) and hi is None and st is None:
                for kk in [kk for kk in hp.upd if kk[0] == bh]:
                    del hp.upd[kk]
                hp.sl.pop(bh, None)
                hp.upd[(bh, 'ALL')] = val
            else:
                acc = H('slc', hp.sl.get(bh, 0), self.hv(key), self.hv(val))
                for kk in [kk for kk in hp.upd if kk[0] == bh]:
                    hp.upd[kk] = self.sym(H('slu', self.hv(hp.upd[kk]), acc))
                hp.sl[bh] = acc
            return hp
        hp.upd[(bh, self.hkey(key))] = val
        return hp

    def heap_havoc(self, hp, base, tag):
        hp = hp.copy()
        rt = self.root(base)
        for kk in [kk for kk in hp.upd if hp.roots.get(kk[0]) == rt]:
            del hp.upd[kk]
        for b in [b for b in hp.sl if hp.roots.get(b) == rt]:
            del hp.sl[b]
        hp.hav[rt] = H('hav', tag, hp.hav.get(rt, 0))
        return hp

    def initial(self, hp, bh, k):
        if k == 'ALL':
            return None
        rt = hp.roots.get(bh)
        if rt in hp.hav:
            return H('ld', hp.hav[rt], bh, k)
        return H('ld', hp.base, bh, k)

    def entry_hash(self, hp, kk, v, deep=None):
        bh, k = kk
        if isinstance(v, Sym) and v.h == self.initial(hp, bh, k):
            return 0
        return H('e', bh, k if isinstance(k, int) else shash(k), deep(v) if deep else self.hv(v))

    def heap_hash(self, hp, deep=None):
        tot = 0
        own = hp.part.startswith('elem:alloc@')
        for kk, v in hp.upd.items():
            if own:
                pass
            elif hp.roots.get(kk[0]) in self.allocs or hp.roots.get(kk[0]) in self.scratch:
                continue
            tot += self.entry_hash(hp, kk, v, deep)
        for b, a in hp.sl.items():
            if own:
                pass
            elif hp.roots.get(b) in self.allocs or hp.roots.get(b) in self.scratch:
                continue
            tot += H('slx', b, a)
        for r, t in hp.hav.items():
            tot += H('hvx', r, t)
        if tot == 0:
            return hp.base
        return H('heap', hp.base, tot & MASK)

    allocs = frozenset()

    # ---- evaluation ----------------------------------------------------------------------
    def ctx_for(self, loops, ctx):
        while ctx.loop is not None and ctx.loop not in loops:
            ctx = ctx.parent
        return ctx

    def ev(self, n, ctx):
        c = self.ctx_for(n.loops, ctx)
        m = c.memo
        if n.id in m:
            return m[n.id]
        self.steps += 1
        r = getattr(self, 'e_' + n.op, None)
        if r is not None:
            v = r(n, c)
        else:
            v = self.e_arith(n, c)
        m[n.id] = v
        return v

    def e_const(self, n, c):
        v = n.args[0]
        if isinstance(v, tuple):
            return self.sym(H('c', shash(repr(v))), dom=None)
        return v

    def dom(self, name):
        return self.hints.get(name)

    def e_sym(self, n, c):
        s = self.sym(H('s', shash(n.args[0])), dom=self.dom(n.args[0]))
        if isinstance(s, Sym) and s.none and (n.args[0] in ('self', 'arg0')):
            s.none = False
        return s

    def e_alloc(self, n, c):
        num = self.relabel.get(n.id, n.args[1])
        h = H('al', shash(n.args[0]), num, *[self.hv(self.ev(a, c)) for a in n.args[2:]])
        s = self.sym(h, alloc=True)
        s.none = False
        self.alloc_ids[h] = n
        s.num = 1
        self.allocs = self.allocs | {s.root}
        return s

    def e_shared(self, n, c):
        v = self.ev(n.args[0], c)
        if not isinstance(v, Sym):
            return v
        s = Sym(self, v.h, v.root, None, v.alloc)
        s.num, s.none, s.sh = v.num, v.none, 1
        return s

    def e_phi(self, n, c):
        while c.loop != n.args[0]:
            c = c.parent
            if c is None:
                raise EvalError('phi out of loop')
        return c.vals[n.args[1]]

    def e_K(self, n, c):
        while c.loop != n.args[0]:
            c = c.parent
        return c.k

    def e_ite(self, n, c):
        t = self.truth(self.ev(n.args[0], c))
        s = self.cover.setdefault(n.args[0].id, set())
        s.add(t)
        return self.ev(n.args[1] if t else n.args[2], c)

    def e_and(self, n, c):
        return self.truth(self.ev(n.args[0], c)) and self.truth(self.ev(n.args[1], c))

    def e_or(self, n, c):
        return self.truth(self.ev(n.args[0], c)) or self.truth(self.ev(n.args[1], c))

    def e_not(self, n, c):
        return not self.truth(self.ev(n.args[0], c))

    def e_truth(self, n, c):
        return self.truth(self.ev(n.args[0], c))

    def e_eq(self, n, c):
        return self.eq(self.ev(n.args[0], c), self.ev(n.args[1], c))

    def e_ne(self, n, c):
        return not self.e_eq(n, c)

    def e_is(self, n, c):
        return self.e_eq(n, c)

    def e_isnot(self, n, c):
        return not self.e_eq(n, c)

    def text(self, v):
        if isinstance(v, Sym):
            v = v.num
        return v if isinstance(v, str) else None

    def e_lt(self, n, c):
        a, b = self.ev(n.args[0], c), self.ev(n.args[1], c)
        x, y = self.text(a), self.text(b)
        if x is not None and y is not None:
            return x < y
        return self.num(a) < self.num(b)

    def e_le(self, n, c):
        a, b = self.ev(n.args[0], c), self.ev(n.args[1], c)
        x, y = self.text(a), self.text(b)
        if x is not None and y is not None:
            return x <= y
        return self.num(a) <= self.num(b)

    def e_in(self, n, c):
        a, b = self.ev(n.args[0], c), self.ev(n.args[1], c)
        if isinstance(b, tuple):
            return any(self.eq(a, x) for x in b)
        return bool(H('in', self.hv(a), self.ident(b), self.seed) & 1)

    def e_notin(self, n, c):
        return not self.e_in(n, c)

    def e_tuple(self, n, c):
        return tuple(self.ev(a, c) for a in n.args)

    e_list = e_tuple

    def e_slicekey(self, n, c):
        return ('$slice',) + tuple(self.ev(a, c) for a in n.args)

    def e_append(self, n, c):
        l, x = self.ev(n.args[0], c), self.ev(n.args[1], c)
        if isinstance(l, tuple):
            return l + (x,)
        return self.sym(H('app', self.ident(l), self.hv(x)))

    def e_item(self, n, c):
        t, i = self.ev(n.args[0], c), n.args[1]
        if isinstance(t, tuple) and -len(t) <= i < len(t):
            return t[i]
        return self.sym(H('item', self.ident(t), i), dom=self.dom(n.tag) if n.tag else None)

    def e_uf(self, n, c):
        name = n.args[0]
        f = getattr(self, 'uf_' + name, None)
        a = [self.ev(x, c) for x in n.args[1:]]
        if f is not None:
            r = f(*a)
            if r is not NotImplemented:
                return r
        return self.sym(H('uf', shash(name), *[self.hv(x) for x in a]),
                        dom=self.dom(name) if name in self.hints else None)

    # identity-sensitive uf: the first argument is an object
    def e_ufo(self, n, c):
        name = n.args[0]
        a = [self.ev(x, c) for x in n.args[1:]]
        return self.sym(H('ufo', shash(name), *([self.ident(a[0])] + [self.hv(x) for x in a[1:]] if a else [])),
                        dom=self.dom(name) if name in self.hints else None)

    def e_ref(self, n, c):
        b, i = self.ev(n.args[0], c), self.ev(n.args[1], c)
        s = self.sym(H('ref', self.ident(b), self.hv(i)), root=self.root(b))
        s.none = False
        return s

    def e_slice(self, n, c):
        b = self.ev(n.args[0], c)
        a = [self.ev(x, c) for x in n.args[1:]]
        if isinstance(b, tuple):
            try:
                return b[slice(*[None if x is None else int(self.num(x)) for x in a])]
            except Exception:
                pass
        if (a[0] is None or (isinstance(a[0], int) and a[0] == 0)) and a[1] is None and a[2] is None:
            return b
        s = self.sym(H('slice', self.ident(b), *[self.hv(x) for x in a]), root=self.root(b))
        s.none = False
        return s

    def uf_abs(self, x):
        return abs(self.num(x))

    def uf_min(self, *a):
        if len(a) < 2:
            return NotImplemented
        return min(self.num(x) for x in a)

    def uf_max(self, *a):
        if len(a) < 2:
            return NotImplemented
        return max(self.num(x) for x in a)

    def uf_len(self, x):
        if isinstance(x, (tuple, str)):
            return len(x)
        return self.sym(H('len', self.ident(x)), dom='nonneg')

    def uf_int(self, x):
        n = self.num(x)
        return trunc_div(n.numerator, n.denominator) if isinstance(n, Fraction) else n

    def uf_float(self, x):
        return self.num(x) if not isinstance(x, Sym) else x

    def uf_bool(self, x):
        return self.truth(x)

    def uf_floor(self, x):
        return self.num(x).__floor__()

    def uf_ceil(self, x):
        return self.num(x).__ceil__()

    def uf_str(self, x):
        if isinstance(x, str):
            return x
        return NotImplemented

    def uf_vecidx(self, v, i):
        return NotImplemented

    def e_arith(self, n, c):
        a = [self.ev(x, c) for x in n.args]
        op = n.op
        if op == 'add' and all(isinstance(x, str) for x in a):
            return a[0] + a[1]
        if op == 'add' and all(isinstance(x, tuple) for x in a):
            return a[0] + a[1]
        if op == 'add' and (isinstance(a[0], str) or isinstance(a[1], str)):
            return self.sym(H('cat', self.hv(a[0]), self.hv(a[1])))
        if op == 'mod' and isinstance(a[0], str):
            return self.sym(H('fmt', *[self.hv(x) for x in a]))
        if op == 'mul' and isinstance(a[0], tuple) and isinstance(a[1], int) and 0 <= a[1] < 20:
            return a[0] * a[1]
        v = [self.num(x) for x in a]
        if op == 'pow':
            e = v[1]
            if (isinstance(e, int) or e.denominator == 1) and abs(e) < 8 and not (v[0] == 0 and e < 0):
                r = Fraction(v[0]) ** int(e)
                return int(r) if r.denominator == 1 else r
            return self.sym(H('pow', *[self.hv(x) for x in v]))
        try:
            r = fold(op, *v)
        except ZeroDivisionError:
            return self.sym(H('div0', shash(op), self.hv(v[0])))
        except ValueError:
            raise EvalError('op ' + op)
        if isinstance(r, Fraction) and r.denominator == 1:
            r = int(r)
        return r

    def e_hinit(self, n, c):
        return HeapVal(H('hinit', shash(hcanon(n.args[0]))), n.args[0])

    def e_load(self, n, c):
        hp = self.ev(n.args[0], c)
        b = self.ev(n.args[1], c)
        k = self.ev(n.args[2], c)
        if n.args[1].op == 'const' and n.args[1].args[0] == ('global', '__G__'):
            v = self.heap_get(hp, b, k, self.dom(n.tag) if n.tag else None)
            if isinstance(v, Sym):
                self.scratch.add(v.root)
                v.none = False
            return v
        if isinstance(b, tuple) and not isinstance(k, (str, type(None))):
            i = self.num(k)
            if isinstance(i, int) and -len(b) <= i < len(b):
                return b[i]
        return self.heap_get(hp, b, k, self.dom(n.tag) if n.tag else None)

    def e_hstore(self, n, c):
        return self.heap_set(self.ev(n.args[0], c), self.ev(n.args[1], c), self.ev(n.args[2], c), self.ev(n.args[3], c))

    def e_hhavoc(self, n, c):
        return self.heap_havoc(self.ev(n.args[0], c), self.ev(n.args[1], c), self.hv(self.ev(n.args[2], c)))

    def e_hmap(self, n, c):
        return self.heap_havoc(self.ev(n.args[0], c), self.ev(n.args[1], c), H('map', self.hv(self.ev(n.args[2], c))))

    def e_col(self, n, c):
        return self.sym(H('col', self.heap_hash(self.ev(n.args[0], c)), self.ident(self.ev(n.args[1], c)), shash(n.args[2])))

    def e_tinit(self, n, c):
        return Trace(1)

    def e_teff(self, n, c):
        t = self.ev(n.args[0], c)
        a = n.args[3:]
        k = 0
        if n.args[2]:
            k = self.ident(self.ev(a[0], c))
            a = a[1:]
        x = H('e', shash(n.args[1]), *[self.hv(self.ev(y, c)) for y in a])
        return t.add(k, x)

    def e_chan(self, n, c):
        t = self.ev(n.args[0], c)
        if len(n.args) > 1:
            return self.sym(t.chan(self.ident(self.ev(n.args[1], c))))
        return self.sym(t.chan(0))

    def e_content(self, n, c):
        """hash of a call argument together with what is stored under it"""
        a = self.ev(n.args[0], c)
        rt = self.root(a)
        h = self.hv(a)
        tot = 0
        for hn in n.args[1:]:
            hp = self.ev(hn, c)
            for kk, v in hp.upd.items():
                if hp.roots.get(kk[0]) == rt:
                    tot += self.entry_hash(hp, kk, v) if hp.base else 0
            for b, x in hp.sl.items():
                if hp.roots.get(b) == rt:
                    tot += H('sl', b, x)
            if rt in hp.hav:
                tot += H('hav', hp.hav[rt])
            if hp.base != H('hinit', shash(hcanon(hp.part))):
                tot += H('hb', hp.base)
        if tot == 0:
            return a
        s = self.sym(H('ct', h, tot & MASK), root=rt)
        return s

    # ---- loops ---------------------------------------------------------------------------
    def mkval(self, like, h):
        if isinstance(like, HeapVal):
            return HeapVal(h, like.part)
        if isinstance(like, Trace):
            return Trace(h)
        if isinstance(like, bool):
            return bool((H('b', h, self.seed) >> 5) & 1)
        if isinstance(like, (int, Fraction)):
            return self.pick(h, 'nonneg' if like >= 0 else None)
        if isinstance(like, tuple):
            return self.sym(h)
        return self.sym(h)

    def outcome(self, L, ctx):
        for e in L.exits:
            if self.truth(self.ev(e[1], ctx)):
                return e[0], e[2], e
        return 'next', L.next, None

    def loop(self, lid, ctx):
        L = self.g.loops[lid]
        c = self.ctx_for(L.outer_deps(), ctx)
        key = ('loop', lid)
        if key in c.memo:
            return c.memo[key]
        R = LoopRes()
        R.inits = {v: self.ev(n, c) for v, n in L.init.items()}
        sig = {v: H('phi', self.hv(x)) for v, x in R.inits.items()}

        def ctxs(tag):
            out = [Ctx(lid, dict(R.inits), 0, c)]
            for j in range(1, self.J + 1):
                vals = {v: self.mkval(R.inits[v], H('v', sig[v], tag, j)) for v in L.phi}
                out.append(Ctx(lid, vals, self.pick(H('K', tag, j), 'nonneg'), c))
            return out

        for r in range(self.ROUNDS):
            cs = ctxs(r)
            acc = {v: [] for v in L.phi}
            for cc in cs[1:]:
                if self.outcome(L, cc)[0] == 'next':
                    for v in L.phi:
                        acc[v].append(self.hv(self.ev(L.next[v], cc)))
            sig = {v: H('r', sig[v], *acc[v]) for v in L.phi}
        R.sig = sig
        R.ctxs = ctxs(99)
        R.outs = [self.outcome(L, cc) for cc in R.ctxs]
        c.memo[key] = R
        return R

    def e_loopout(self, n, c):
        lid, var, group = n.args[:3]
        L = self.g.loops[lid]
        R = self.loop(lid, c)
        acc = []
        for cc, (k, env, e) in zip(R.ctxs, R.outs):
            g = k if k in ('next', 'raise') else 'out'
            acc.append(shash(g))
            if g == 'next':
                acc.append(self.hv(self.ev(L.next[var], cc)) if var in L.next else 0)
            elif g == 'out':
                if var[0] == '$val':
                    x = L.rv[var[1]].get(id(e))
                    acc.append(self.hv(self.ev(x, cc)) if x is not None else 7)
                else:
                    acc.append(self.hv(self.ev(env[var], cc)))
        h = H('out', R.sig.get(var, 0), *acc)
        return self.mkval(R.inits.get(var) if var[0] != '$val' else None, h)


def hcanon(part):
    """elements of arrays share one initial memory whatever the partition is called"""
    return 'elem' if part.startswith('elem:') else part
