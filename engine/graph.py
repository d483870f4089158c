"""Hash-consed gated value graph (a gated-SSA style value-numbering representation).

Nodes are immutable and shared.  `loops` is the set of loop ids whose loop-carried values a node
depends on; it drives memoisation and loop-invariance tests.
"""
from fractions import Fraction


class Node:
    __slots__ = ('op', 'args', 'id', 'loops', 'tag', 'prov')

    def __repr__(self):
        return show(self, 4)


def show(n, d=3):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'const':
        return repr(n.args[0])
    if n.op in ('sym', 'hinit', 'phi', 'K'):
        return '%s<%s>' % (n.op, ','.join(map(str, n.args)))
    if d == 0:
        return '..'
    return '%s(%s)' % (n.op, ', '.join(show(a, d - 1) for a in n.args))


class Graph:
    """Node factory with hash-consing and local simplification."""

    def __init__(self):
        self.table = {}
        self.n = 0
        self.loops = {}
        self.cur = None      # current provenance (file, line, function)
        self.thresholds = {}  # numbers values are compared with, by the side (code or reference) that does
        self.ties = {}       # pairs of values compared for equality, by side
        self.side = None

    # -- raw ---------------------------------------------------------------------------------
    def mk(self, op, *args, tag=None):
        key = (op,) + tuple(('n', a.id) if isinstance(a, Node) else (type(a).__name__, a) for a in args)
        if tag is not None:
            key += (('tag', tag),)
        if op in ('lt', 'le', 'eq', 'ne', 'mod'):
            for a in args:
                if a.op == 'const' and isinstance(a.args[0], (int, float, Fraction)) and not isinstance(a.args[0], bool) and a.args[0] not in (0, 1, -1, 2):
                    self.thresholds.setdefault(self.side, set()).add(a.args[0])
            if op in ('eq', 'ne') and all(a.op != 'const' for a in args):
                self.ties.setdefault(self.side, set()).add(frozenset(a.id for a in args))
        nd = self.table.get(key)
        if nd is not None:
            return nd
        nd = Node()
        nd.op = op
        nd.args = args
        nd.id = self.n
        self.n += 1
        lo = set()
        for a in args:
            if isinstance(a, Node):
                lo |= a.loops
        if op in ('phi', 'K'):
            lo.add(args[0])
        if op in ('loopout', 'loopkind'):
            L = self.loops[args[0]]
            lo |= L.outer_deps()
        nd.loops = frozenset(lo)
        nd.tag = tag
        nd.prov = self.cur
        self.table[key] = nd
        return nd

    def const(self, v):
        if isinstance(v, float):
            v = Fraction(str(v)) if v == v and v not in (float('inf'), float('-inf')) else 'float:' + str(v)
            if isinstance(v, Fraction) and v.denominator == 1:
                v = int(v)
        return self.mk('const', v)

    def isconst(self, n):
        return isinstance(n, Node) and n.op == 'const'

    TRUE = property(lambda s: s.mk('const', True))
    FALSE = property(lambda s: s.mk('const', False))

    # -- booleans ----------------------------------------------------------------------------
    def not_(self, a):
        if a.op == 'const' and not isinstance(a.args[0], tuple):
            return self.const(not a.args[0])
        if a.op == 'not':
            return a.args[0] if self.isbool(a.args[0]) else self.mk('truth', a.args[0])
        flip = {'eq': 'ne', 'ne': 'eq', 'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}
        if a.op in flip:
            return self.mk(flip[a.op], *a.args)
        if a.op == 'lt':
            return self.mk('le', a.args[1], a.args[0])
        if a.op == 'le':
            return self.mk('lt', a.args[1], a.args[0])
        return self.mk('not', a)

    BOOL = {'not', 'truth', 'eq', 'ne', 'is', 'isnot', 'in', 'notin', 'lt', 'le', 'and', 'or', 'loopkind'}

    def isbool(self, a):
        return a.op in self.BOOL or (a.op == 'const' and isinstance(a.args[0], bool))

    def truth(self, a):
        if a.op == 'const' and not isinstance(a.args[0], tuple):
            return self.const(bool(a.args[0]))
        if self.isbool(a):
            return a
        if a.op == 'list':
            return self.const(bool(a.args))
        if a.op == 'append':
            return self.TRUE
        if a.tag == 'list':             # a list that a loop fills
            return self.mk('lt', self.const(0), self.mk('uf', 'len', a))
        return self.mk('truth', a)

    def and_(self, a, b):
        a, b = self.truth(a), self.truth(b)
        if a.op == 'const':
            return b if a.args[0] else a
        if b.op == 'const':
            return a if b.args[0] else b
        if a is b:
            return a
        if a is self.not_(b):
            return self.FALSE
        return self.mk('and', a, b)

    def or_(self, a, b):
        a, b = self.truth(a), self.truth(b)
        if a.op == 'const':
            return a if a.args[0] else b
        if b.op == 'const':
            return b if b.args[0] else a
        if a is b:
            return a
        if a is self.not_(b):
            return self.TRUE
        return self.mk('or', a, b)

    def ite(self, c, a, b):
        if a is b:
            return a
        c = self.truth(c)
        if c.op == 'const':
            return a if c.args[0] else b
        if a.op == 'ite' and a.args[0] is c:
            a = a.args[1]
        if b.op == 'ite' and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        tag = a.tag if a.tag == b.tag else (a.tag or b.tag)
        return self.mk('ite', c, a, b, tag=tag)

    # -- arithmetic --------------------------------------------------------------------------
    def arith(self, op, *a):
        if all(x.op == 'const' for x in a):
            vs = [x.args[0] for x in a]
            if all(isinstance(v, (int, Fraction)) for v in vs):
                try:
                    r = fold(op, *vs)
                    if isinstance(r, Fraction) and r.denominator == 1:
                        r = int(r)
                    return self.const(r)
                except Exception:
                    pass
            if op == 'add' and all(isinstance(v, str) for v in vs):
                return self.const(vs[0] + vs[1])
        if op == 'add':
            if a[0].op == 'const' and a[0].args[0] == 0 and not isinstance(a[0].args[0], (bool, str)):
                return a[1]
            if a[1].op == 'const' and a[1].args[0] == 0 and not isinstance(a[1].args[0], (bool, str)):
                return a[0]
            if a[0].op in ('tuple', 'list') and a[1].op == a[0].op:
                return self.mk(a[0].op, *(a[0].args + a[1].args))
            # canonical commutation of numeric adds (strings/lists keep the order)
        return self.mk(op, *a)


def fold(op, *v):
    if op == 'add':
        return v[0] + v[1]
    if op == 'sub':
        return v[0] - v[1]
    if op == 'mul':
        return v[0] * v[1]
    if op == 'div':
        return Fraction(v[0]) / Fraction(v[1])
    if op == 'fdiv':
        return v[0] // v[1]
    if op == 'mod':
        return v[0] % v[1]
    if op == 'cdiv':
        return trunc_div(v[0], v[1])
    if op == 'cmod':
        return v[0] - v[1] * trunc_div(v[0], v[1])
    if op == 'neg':
        return -v[0]
    if op == 'pow':
        if isinstance(v[1], int) and abs(v[1]) < 12:
            return Fraction(v[0]) ** v[1]
        raise ValueError
    iv = [int(x) for x in v]
    if op == 'band':
        return iv[0] & iv[1]
    if op == 'bor':
        return iv[0] | iv[1]
    if op == 'bxor':
        return iv[0] ^ iv[1]
    if op == 'shl':
        return iv[0] << min(max(iv[1], 0), 64)
    if op == 'shr':
        return iv[0] >> min(max(iv[1], 0), 64)
    if op == 'inv':
        return ~iv[0]
    raise ValueError(op)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


class Loop:
    """Summary of one loop: loop-carried variables with their initial and next values, and exits."""

    def __init__(self, lid):
        self.id = lid
        self.init = {}       # var -> node
        self.phi = {}        # var -> phi node
        self.next = {}       # var -> node
        self.next_cond = None  # node: the iteration completes and the loop continues
        self.exits = []      # (kind, cond, {var: node}, value)
        self.rv = []         # values of return exits that are not loop variables
        self.prov = None
        self._deps = None

    def outer_deps(self):
        if self._deps is None:
            d = set()
            for n in self.init.values():
                d |= n.loops
            for n in self.next.values():
                d |= n.loops
            if self.next_cond is not None:
                d |= self.next_cond.loops
            for k, c, env, v in self.exits:
                d |= c.loops
                for n in env.values():
                    d |= n.loops
                if v is not None:
                    d |= v.loops
            d.discard(self.id)
            self._deps = frozenset(d)
        return self._deps
