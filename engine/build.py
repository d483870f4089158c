"""Abstract interpreter over Python syntax trees producing gated value graphs.

Statements are interpreted once, in all branches; control joins become `ite` gates; loops become
Loop summaries (initial / next values of the loop-carried state and the exits).  Nothing of the
analysed program is executed.
"""
import ast
import copy
import re
from fractions import Fraction
from .graph import Graph, Node, Loop


class Undecided(Exception):
    """the analysis cannot represent a construct; the obligation is left undecided"""


class State:
    __slots__ = ('loc', 'heap', 'tr')

    def __init__(self, loc=None, heap=None, tr=None):
        self.loc = loc or {}
        self.heap = heap or {}
        self.tr = tr or {}

    def copy(self):
        return State(dict(self.loc), dict(self.heap), dict(self.tr))

    def become(self, o):
        self.loc, self.heap, self.tr = o.loc, o.heap, o.tr


class Frame:
    def __init__(self, func, cls, module, selfname):
        self.func, self.cls, self.module, self.selfname = func, cls, module, selfname
        self.globals = set()


class Res:
    """result of a block: normal completion (cond, state) or None, and abrupt completions"""
    __slots__ = ('norm', 'abr')

    def __init__(self, norm, abr):
        self.norm, self.abr = norm, abr


class Cfg:
    def __init__(self, **kw):
        self.known = set()          # API names: compared as calls unless in inline
        self.inline = set()
        self.effects = {}           # name -> dict(pure, channel, modifies, reads, rec)
        self.fields = []            # record layout
        self.attr_consts = {}       # attr -> python value
        self.rec_attrs = set()
        self.structs = set()        # attributes holding structured arrays used as scratch
        self.struct_fields = []
        self.sym_attrs = set()      # class constants to be treated as arbitrary values
        self.arg_tags = {}          # parameter name -> tag
        self.arg_consts = {}        # parameter name -> python value
        self.hints = {}
        self.ignore_parts = set()
        self.ignore_calls = set()
        self.dot_dim = 0            # known length of the vectors given to dot()
        self.const_calls = {}       # call name -> python value (a configuration is fixed)
        self.rename_calls = {}
        self.pure_stmt = set()
        self.names = {}             # free names -> python constants
        self.lists = set()
        self.rec_cls = None         # C++ record class for methods on record references
        self.sigworld = None        # where signatures and purity of opaque callees are looked up
        self.__dict__.update(kw)


ALLOC = {'zeros', 'empty', 'ones', 'zeros_like', 'empty_like', 'dict', 'deque'}
IGNORED = {'print', 'flush', '__ignore__', '__assert__'}
# library calls with an effect, whether or not the result is used
IMPURE = {'create_group', 'create_dataset', 'close', 'write', 'File', 'mark', 'set_all', 'solve', 'assign', 'apply', 'uniform', 'normal', 'random', 'seed', 'rand',
          'randn', 'set_local', 'add_local', 'zero', 'append', 'update', 'pop', 'clear', 'insert', 'remove', 'savefig', 'input', 'open', 'set_values', 'set_value', 'axpy',
          'init', 'push_back', 'emplace_back', 'remove_overlap'}
ERRORS = {'exit', 'abort', '_exit', 'terminate', '__raise__', 'quit'}
BINOP = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'fdiv', ast.Mod: 'mod',
         ast.Pow: 'pow', ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor', ast.LShift: 'shl', ast.RShift: 'shr'}
CANON = {'fabs': 'abs', 'absolute': 'abs', 'np_abs': 'abs'}
MAXUNROLL = 24


class PromoFail(Exception):
    def __init__(self, part):
        self.part = part


def targets_of(x, kind=ast.Name):
    """names (or attribute names) the node x assigns"""
    ts = []
    if isinstance(x, (ast.Assign, ast.Delete)):
        ts = list(x.targets)
    elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.comprehension)):
        ts = [x.target]
    elif isinstance(x, ast.With):
        ts = [i.optional_vars for i in x.items if i.optional_vars is not None]
    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == '__set__':
        ts = [x.args[0]]
    out = []
    while ts:
        t = ts.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            ts = list(ts) + t.elts
        elif isinstance(t, ast.Starred):
            ts = list(ts) + [t.value]
        elif isinstance(t, kind):
            out.append(t.id if kind is ast.Name else t.attr)
    return out


def appended(body):
    """names of lists the statements append to"""
    return {x.func.value.id for q in body for x in ast.walk(q) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
            and x.func.attr in ('append', 'extend', 'push_back') and isinstance(x.func.value, ast.Name)}


def join_generators(stmts):
    """t = ((k, v) for ..) directly followed by a statement using dict(t) -> one statement"""
    out = []
    i = 0
    while i < len(stmts):
        s = stmts[i]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.GeneratorExp, ast.ListComp)) \
                and i + 1 < len(stmts) and isinstance(stmts[i + 1], (ast.Assign, ast.Return)):
            t = s.targets[0].id
            nx = stmts[i + 1]
            c = nx.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('dict', 'list', 'tuple', 'sum', 'set') and len(c.args) == 1 and isinstance(c.args[0], ast.Name) \
                    and c.args[0].id == t and not c.keywords:
                c2 = ast.copy_location(ast.Call(c.func, [s.value], []), c)
                n2 = ast.copy_location(ast.Assign(nx.targets, c2) if isinstance(nx, ast.Assign) else ast.Return(c2), nx)
                if isinstance(s.value, ast.ListComp):
                    out.append(s)
                out.append(n2)
                i += 2
                continue
        out.append(s)
        i += 1
    return out


def is_chain(e):
    """a place: self.x, self.x[k], d[k].y .. with plain names and constants as indices"""
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Attribute):
        return is_chain(e.value)
    if isinstance(e, ast.Subscript):
        s = e.slice
        return is_chain(e.value) and (isinstance(s, ast.Constant) or is_chain(s))
    return False


def as_ctx(e, ctx):
    e = copy.deepcopy(e)
    e.ctx = ctx()
    return e


class Rename(ast.NodeTransformer):
    def __init__(self, n, e, after, until):
        self.n, self.e, self.after, self.until = n, e, after, until

    def visit_Name(self, x):
        if x.id == self.n and isinstance(x.ctx, ast.Load) and self.after < (x.lineno, x.col_offset) < self.until:
            return ast.copy_location(as_ctx(self.e, ast.Load), x)
        return x

    def visit_AugAssign(self, x):
        self.generic_visit(x)
        t = x.target
        if isinstance(t, ast.Name) and t.id == self.n and self.after < (x.lineno, x.col_offset) < self.until:
            x.target = ast.copy_location(as_ctx(self.e, ast.Store), t)
        return x


def alias_lists(stmts):
    """a local name of a list that lives in an attribute: appending through the name is appending to the attribute"""
    top = [x for q in stmts for x in ast.walk(q)]
    nested = [x for x in top if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
    hidden = {y.id for x in nested for y in ast.walk(x) if isinstance(y, ast.Name)}
    lists = {}
    for x in top:
        for n in targets_of(x):
            v = getattr(x, 'value', None) if isinstance(x, ast.Assign) else None
            lists[n] = lists.get(n, True) and (isinstance(x, ast.AugAssign) or (v is not None and isinstance(v, (ast.List, ast.ListComp))))

    def listy(e):
        return isinstance(e, (ast.List, ast.ListComp)) or (isinstance(e, ast.Name) and lists.get(e.id, False)) \
            or (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (listy(e.left) or listy(e.right))) \
            or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'sorted'))
    grown = appended(stmts) | {x.target.id for x in top if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and listy(x.value)}
    grown -= hidden
    if not grown:
        return stmts
    work = None
    for x in top:
        if not isinstance(x, ast.Assign):
            continue
        pair = None
        places = [t for t in x.targets if isinstance(t, (ast.Attribute, ast.Subscript)) and is_chain(t)]
        names = [t.id for t in x.targets if isinstance(t, ast.Name) and t.id in grown]
        if len(x.targets) == 1 and names and isinstance(x.value, (ast.Attribute, ast.Subscript)) and is_chain(x.value):
            pair = names[0], x.value
        elif len(x.targets) == 1 and places and isinstance(x.value, ast.Name) and x.value.id in grown:
            pair = x.value.id, places[0]
        elif len(x.targets) == 2 and len(places) == 1 and len(names) == 1:
            pair = names[0], places[0]
        if pair is None:
            continue
        n, e = pair
        text = ast.unparse(e)
        after = (x.end_lineno, x.end_col_offset)
        used = {y.id for y in ast.walk(e) if isinstance(y, ast.Name)}
        # every later use must be reached through the alias statement: same block or deeper
        b, looped = block_of(stmts, x)
        if b is None:
            continue
        inside = {id(y) for q in b for y in ast.walk(q)}
        defs = [y for y in top if n in targets_of(y) and not isinstance(y, ast.AugAssign)]
        redef = next((q for q in b if q.lineno > after[0] and any(q is d for d in defs) and isinstance(q, ast.Assign)), None)
        until = (redef.end_lineno, redef.end_col_offset + 1) if redef is not None else (float('inf'), 0)
        if not all(id(y) in inside for y in top if isinstance(y, ast.Name) and y.id == n and after < (y.lineno, y.col_offset) < until):
            continue
        ok = n not in used and (len(defs) == 1 or not looped)
        for y in top:
            if y is x or not hasattr(y, 'lineno') or id(y) not in inside:
                continue
            late = after < (y.lineno, y.col_offset) < until and y is not redef
            ts = targets_of(y)
            if n in ts and late and not (isinstance(y, ast.AugAssign)):
                ok = False
            if late and used & set(ts):
                ok = False
            if late and isinstance(y, (ast.Assign, ast.AugAssign)):
                for t in (y.targets if isinstance(y, ast.Assign) else [y.target]):
                    if ast.unparse(t) == text or text.startswith(ast.unparse(t) + '.') or text.startswith(ast.unparse(t) + '['):
                        ok = False
        if not ok:
            continue
        if work is None:
            work = copy.deepcopy(stmts)
        r = Rename(n, e, after, until)
        work = [r.visit(q) for q in work]
    return stmts if work is None else work


def block_of(stmts, x, looped=False):
    """the statement list x is in, and whether it is inside a loop"""
    if any(q is x for q in stmts):
        return stmts, looped
    for q in stmts:
        lp = looped or isinstance(q, (ast.For, ast.While))
        subs = [getattr(q, f, None) for f in ('body', 'orelse', 'finalbody')] + [h.body for h in getattr(q, 'handlers', [])]
        for b in subs:
            if isinstance(b, list) and b:
                r = block_of(b, x, lp)
                if r[0] is not None:
                    return r
    return None, looped


class Builder:
    def __init__(self, graph, world, cfg, label=''):
        self.g = graph
        self.w = world
        self.cfg = cfg
        self.sw = cfg.sigworld or world
        self.label = label
        self.nloop = 0
        self.uid = 0
        self.nexc = 0
        self.allocs = {}
        self.alloc_at = {}          # fresh object -> loops it is created in
        self.lstack = []
        self.promo = {}             # attribute memory kept in a scalar during a loop: part -> (base, key, scalar)
        self.pw = {}
        self.closures = []
        self.depth = 0
        self.stack = []
        self.inlined = set()
        self.calls = set()
        self.strings = set()
        self.stats = {'stmts': 0, 'loops': 0, 'calls': 0}
        self.cols = {}     # column-valued nodes: id -> (index node -> element node)
        self.writes = {}   # part -> set of (file, line)

    recv = {}

    # ---------------------------------------------------------------------------- entry
    def run(self, func, cls=None, args=None):
        fr = Frame(func, cls or func.cls, func.module, None)
        self.recv = {}              # nodes known to be an object of one class
        st = State()
        ps = func.params
        for i, p in enumerate(ps):
            if args and p in args:
                st.loc[p] = args[p]
            elif p in self.cfg.arg_consts or i in self.cfg.arg_consts:
                st.loc[p] = self.pyconst(self.cfg.arg_consts[p if p in self.cfg.arg_consts else i])
            else:
                tag = self.cfg.arg_tags.get(p) or self.cfg.arg_tags.get(i)
                st.loc[p] = self.g.mk('sym', 'arg%d' % i, tag=tag)
        if func.cls and not func.static and ps:
            fr.selfname = ps[0]
            self.recv[st.loc[ps[0]].id] = fr.cls
        va = func.node.args
        if va.vararg:
            st.loc[va.vararg.arg] = self.g.mk('sym', 'varargs')
        if va.kwarg:
            st.loc[va.kwarg.arg] = self.g.mk('sym', 'kwargs')
        for a in va.kwonlyargs:
            st.loc[a.arg] = self.g.mk('sym', 'kw_' + a.arg)
        self.file = func.file
        r = self.body(func, fr, st)
        return r

    def body(self, func, fr, st):
        self.stack.append((func.file, func.qual()))
        try:
            if func.flat is None:
                func.flat = alias_lists(func.node.body)
            r = self.block(func.flat, st, fr)
        finally:
            self.stack.pop()
        comps = [a for a in r.abr]
        if r.norm is not None:
            comps.append(('return', r.norm[0], r.norm[1], self.g.const(None)))
        return comps

    def pyconst(self, v):
        g = self.g
        if isinstance(v, (list, tuple)):
            return g.mk('list' if isinstance(v, list) else 'tuple', *[self.pyconst(x) for x in v])
        if isinstance(v, str):
            self.strings.add(v)
        return g.const(v)

    def at(self, node):
        ln = getattr(node, 'lineno', None)
        if ln is not None and self.stack:
            f = getattr(node, 'srcfile', None) or self.stack[-1][0]
            self.g.cur = (f, ln, self.stack[-1][1])

    # ---------------------------------------------------------------------------- states
    def merge(self, c, a, b):
        g = self.g
        out = State()
        for k in set(a.loc) | set(b.loc):
            x = a.loc.get(k)
            y = b.loc.get(k)
            if x is None or y is None:
                u = self.undef()
                x = x if x is not None else u
                y = y if y is not None else u
            out.loc[k] = x if x is y else self.jn(c, x, y)
        for k in set(a.heap) | set(b.heap):
            x, y = self.hp(a, k), self.hp(b, k)
            out.heap[k] = x if x is y else g.ite(c, x, y)
        for k in set(a.tr) | set(b.tr):
            x, y = self.trc(a, k), self.trc(b, k)
            out.tr[k] = x if x is y else g.ite(c, x, y)
        return out

    def jn(self, c, x, y):
        # an undefined value on one side does not matter (its use would be an error)
        if x.op == 'sym' and x.args[0] == '$undef':
            return y
        if y.op == 'sym' and y.args[0] == '$undef':
            return x
        return self.g.ite(c, x, y)

    def undef(self):
        return self.g.mk('sym', '$undef')

    def hp(self, st, part):
        h = st.heap.get(part)
        return h if h is not None else self.g.mk('hinit', part)

    def trc(self, st, ch):
        t = st.tr.get(ch)
        return t if t is not None else self.g.mk('tinit', ch)

    # ---------------------------------------------------------------------------- memory
    def part_of(self, b):
        """memory partition of the elements of object b (by where the object comes from)"""
        op = b.op
        if op == 'load':
            return 'elem:' + (b.tag if isinstance(b.tag, str) and not b.tag.startswith('rec') else self.key_tag(b))
        if op == 'sym':
            return 'elem:' + b.args[0]
        if op in ('slice', 'ref'):
            return self.part_of(b.args[0])
        if op == 'const':
            return 'elem:' + (str(b.args[0][-1]) if isinstance(b.args[0], tuple) else 'const')
        if op == 'ite':
            x = b.args[1] if b.args[1].op != 'const' else b.args[2]
            return self.part_of(x)
        if op == 'phi':
            L = self.g.loops[b.args[0]]
            n = L.init.get(b.args[1])
            return self.part_of(n) if n is not None and n.op != 'const' else 'elem:phi'
        if op in ('uf', 'ufo'):
            return 'elem:' + b.args[0]
        if op == 'item':
            return self.part_of(b.args[0])
        if op == 'alloc':
            return 'elem:alloc@%d' % b.id
        if op == 'loopout':
            L = self.g.loops[b.args[0]]
            n = L.init.get(b.args[1])
            return self.part_of(n) if n is not None and n.op != 'const' else 'elem:phi'
        return 'elem:' + op

    def key_tag(self, b):
        k = b.args[2]
        return str(k.args[0]) if k.op == 'const' else self.part_of(b.args[1])[5:] + '[]'

    def split(self, base, key):
        """normalise slice-of-base accesses to the underlying object"""
        if base.op == 'slice' and key.op != 'slicekey' and not (key.op == 'const' and isinstance(key.args[0], str)):
            b, lo, hi, stp = base.args
            if stp.op == 'const' and stp.args[0] is None:
                if lo.op == 'const' and lo.args[0] in (None, 0):
                    return self.split(b, key)
                return self.split(b, self.g.arith('add', key, lo))
        return base, key

    def loc_part(self, base, key, kind):
        if kind == 'attr':
            return 'attr:' + key.args[0]
        if key.op == 'const' and isinstance(key.args[0], str):
            return 'fld:' + key.args[0]
        return self.part_of(base)

    # structured arrays: A[i]['x'] and A['x'][i] are one location
    def struct_root(self, b):
        if not self.cfg.structs:
            return None
        if b.op == 'slice':
            lo = b.args[1]
            if lo.op == 'const' and lo.args[0] in (None, 0):
                return self.struct_root(b.args[0])
            return None
        if b.op == 'load' and b.tag in self.cfg.structs:
            return b
        if b.op == 'ite':
            x, y = self.struct_root(b.args[1]), self.struct_root(b.args[2])
            if x is y or y is None and b.args[2].op == 'const':
                return x
            if x is None and b.args[1].op == 'const':
                return y
        return None

    def sfield(self, key):
        k = key.args[0] if key.op == 'const' else None
        if isinstance(k, int) and not isinstance(k, bool) and 0 <= k < len(self.cfg.struct_fields):
            return self.cfg.struct_fields[k]
        return k if isinstance(k, str) else None

    def colfn(self, v):
        return self.cols.get(v.id) or (lambda i: v)

    def sload(self, h, A, i, f):
        g = self.g
        if h.op == 'hmap' and h.args[1] is A:
            return self.colfn(h.args[2])(i)
        if h.op == 'hstore' and h.args[1].op == 'ref' and h.args[1].args[0] is A and h.args[1].args[1] is i:
            return h.args[3]
        if h.op == 'ite':
            return g.ite(h.args[0], self.sload(h.args[1], A, i, f), self.sload(h.args[2], A, i, f))
        return g.mk('load', h, g.mk('ref', A, i, tag='sref'), g.const(f))

    def scol(self, st, A, f):
        h = self.hp(st, 'fld:%s@%s' % (f, A.tag))
        n = self.g.mk('col', h, A, f)
        self.cols[n.id] = lambda i: self.sload(h, A, i, f)
        return n

    def sset(self, st, A, f, v):
        part = 'fld:%s@%s' % (f, A.tag)
        self.writes.setdefault(part, set()).add(self.g.cur)
        st.heap[part] = self.g.mk('hmap', self.hp(st, part), A, v)

    def load(self, st, base, key, kind='elem'):
        g = self.g
        if kind == 'elem' and self.cfg.structs:
            if base.tag == 'sref' and base.op == 'ref':
                f = self.sfield(key)
                if f is not None:
                    A = base.args[0]
                    return self.sload(self.hp(st, 'fld:%s@%s' % (f, A.tag)), A, base.args[1], f)
            if base.id in self.cols and key.op != 'slicekey':
                return self.cols[base.id](key)
            A = self.struct_root(base)
            if A is not None:
                if key.op == 'const' and isinstance(key.args[0], str):
                    return self.scol(st, A, key.args[0])
                if key.op != 'slicekey':
                    return g.mk('ref', A, key, tag='sref')
        if kind == 'elem':
            base, key = self.split(base, key)
            if base.op in ('tuple', 'list') and key.op == 'const' and isinstance(key.args[0], int):
                i = key.args[0]
                if -len(base.args) <= i < len(base.args):
                    return base.args[i]
            if base.op == 'ite' and base.args[1].op in ('tuple', 'list') and base.args[2].op in ('tuple', 'list'):
                return g.ite(base.args[0], self.load(st, base.args[1], key), self.load(st, base.args[2], key))
            if base.op in ('uf', 'ufo', 'loopout') and base.tag == 'tuple' and key.op == 'const' and isinstance(key.args[0], int):
                return self.item(base, key.args[0])
            if base.tag == 'recref' and key.op == 'const' and isinstance(key.args[0], int) and not isinstance(key.args[0], bool) \
                    and 0 <= key.args[0] < len(self.cfg.fields):
                key = g.const(self.cfg.fields[key.args[0]])
            if base.tag == 'rec' and not (key.op == 'const' and isinstance(key.args[0], str)):
                return g.mk('ref', base, key, tag='recref')
        part = self.loc_part(base, key, kind)
        if kind == 'attr' and part in self.promo:
            pb, pk, pn = self.promo[part]
            if pb is not base or pk is not key or pn not in st.heap:
                raise PromoFail(part)
            return st.heap[pn]
        h = self.hp(st, part)
        # store-to-load forwarding on syntactically identical locations
        while h.op == 'hstore':
            if h.args[1] is base and h.args[2] is key:
                return h.args[3].args[0] if h.args[3].op == 'shared' else h.args[3]
            if h.args[1] is base and h.args[2].op == 'const' and key.op == 'const' and h.args[2] is not key:
                h = h.args[0]
                continue
            break
        tag = None
        if kind == 'attr':
            tag = 'rec' if key.args[0] in self.cfg.rec_attrs else key.args[0]
        elif key.op == 'const' and isinstance(key.args[0], str):
            tag = key.args[0]
        elif kind == 'elem':
            tag = self.part_of(base)[5:] + '[]'
        h0 = self.hp(st, part)
        while h0.op == 'hstore' and h0.args[1] is base and h0.args[2].op == 'const' and key.op == 'const' and h0.args[2] is not key:
            h0 = h0.args[0]
        return g.mk('load', h0, base, key, tag=tag)

    def store(self, st, base, key, val, kind='elem'):
        g = self.g
        if kind == 'elem' and self.cfg.structs:
            if base.tag == 'sref' and base.op == 'ref':
                f = self.sfield(key)
                if f is not None:
                    part = 'fld:%s@%s' % (f, base.args[0].tag)
                    self.writes.setdefault(part, set()).add(g.cur)
                    st.heap[part] = g.mk('hstore', self.hp(st, part), base, g.const(f), val)
                    return
            if base.op == 'col' and key.op != 'slicekey':
                self.store(st, g.mk('ref', base.args[1], key, tag='sref'), g.const(base.args[2]), val)
                return
            A = self.struct_root(base)
            if A is not None:
                if key.op == 'const' and isinstance(key.args[0], str):
                    self.sset(st, A, key.args[0], val)
                    return
                B = self.struct_root(val)
                if key.op == 'slicekey':
                    vs = [(f, self.scol(st, B, f) if B is not None else val) for f in self.cfg.struct_fields]
                    for f, v in vs:
                        self.sset(st, A, f, v)
                    return
                ref = g.mk('ref', A, key, tag='sref')
                vs = [(f, self.load(st, val, g.const(f)) if val.tag == 'sref' else val) for f in self.cfg.struct_fields]
                for f, v in vs:
                    self.store(st, ref, g.const(f), v)
                return
            if base.op == 'col':
                self.sset(st, base.args[1], base.args[2], val)
                return
        if kind == 'elem':
            base, key = self.split(base, key)
            if base.tag == 'recref' and key.op == 'const' and isinstance(key.args[0], int) and not isinstance(key.args[0], bool) \
                    and 0 <= key.args[0] < len(self.cfg.fields):
                key = g.const(self.cfg.fields[key.args[0]])
            if base.tag == 'rec' and key.op != 'slicekey' and not (key.op == 'const' and isinstance(key.args[0], str)):
                ref = g.mk('ref', base, key, tag='recref')
                self.reccopy(st, ref, val)
                return
            if key.op == 'slicekey' and base.tag != 'rec':
                vv = self.vec(val, st)
                lo, hi, stp = key.args
                if vv is not None and stp.op == 'const' and stp.args[0] is None and lo.op == 'const' and lo.args[0] in (None, 0) \
                        and hi.op == 'const' and (hi.args[0] is None or hi.args[0] == len(vv)):
                    for i, x in enumerate(vv):
                        self.store(st, base, g.const(i), x)
                    return
        part = self.loc_part(base, key, kind)
        self.writes.setdefault(part, set()).add(g.cur)
        val = self.shared(val, base.loops | key.loops)
        if kind == 'attr':
            if part in self.promo:
                pb, pk, pn = self.promo[part]
                if pb is not base or pk is not key or pn not in st.heap:
                    raise PromoFail(part)
                st.heap[pn] = val
                return
            self.pw.setdefault(part, set()).add((base, key))
        st.heap[part] = g.mk('hstore', self.hp(st, part), base, key, val)

    def shared(self, val, loops):
        """one fresh object put in a different place by every pass of a loop"""
        if val.op == 'alloc' and (frozenset(self.lstack) - self.alloc_at.get(val.id, frozenset(self.lstack))) & loops:
            return self.g.mk('shared', val)
        return val

    def reccopy(self, st, ref, val):
        g = self.g
        vals = []
        for i, f in enumerate(self.cfg.fields):
            if val.op in ('tuple', 'list'):
                v = val.args[i] if i < len(val.args) else g.const(None)
            elif val.tag == 'recref' or val.op == 'ref':
                v = self.load(st, val, g.const(f))
            else:
                v = g.mk('uf', 'recfield', val, g.const(f))
            vals.append((f, v))
        for f, v in vals:
            self.store(st, ref, g.const(f), v)

    def item(self, node, i, tag=None):
        g = self.g
        if node.op in ('tuple', 'list') and i < len(node.args):
            return node.args[i]
        if node.op == 'ite':
            a, b = node.args[1], node.args[2]
            if a.op in ('tuple', 'list', 'ite', 'uf', 'ufo', 'loopout') and b.op in ('tuple', 'list', 'ite', 'uf', 'ufo', 'loopout'):
                return g.ite(node.args[0], self.item(a, i, tag), self.item(b, i, tag))
        if node.op in ('uf', 'ufo'):
            e = self.cfg.effects.get(node.args[0], {})
            rec = e.get('rec', ())
            if i in rec:
                tag = 'rec'
            if tag is None:
                tag = e.get('items', {}).get(i)
        return g.mk('item', node, i, tag=tag)

    # ---------------------------------------------------------------------------- blocks
    def block(self, stmts, st, fr):
        """st is consumed"""
        g = self.g
        cond = g.TRUE
        abr = []
        for s in join_generators(stmts):
            self.stats['stmts'] += 1
            self.at(s)
            r = self.stmt(s, st, fr)
            for k, c, s2, v in r.abr:
                c2 = g.and_(cond, c)
                if not (c2.op == 'const' and not c2.args[0]):
                    abr.append((k, c2, s2, v))
            if r.norm is None:
                return Res(None, abr)
            cond = g.and_(cond, r.norm[0])
            st = r.norm[1]
            if cond.op == 'const' and not cond.args[0]:
                return Res(None, abr)
        return Res((cond, st), abr)

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        self._raises = []
        r = m(s, st, fr)
        if r is None:
            r = Res((self.g.TRUE, st), [])
        return r

    def with_raises(self, st, n0):
        """wrap pending raise conditions collected while evaluating expressions"""
        rs = self.pending[n0:]
        del self.pending[n0:]
        g = self.g
        cond = g.TRUE
        abr = []
        for c, s2 in rs:
            abr.append(('raise', g.and_(cond, c), s2, None))
            cond = g.and_(cond, g.not_(c))
        return cond, abr

    pending = []

    def simple(self, st, fn):
        n0 = len(self.pending)
        fn()
        cond, abr = self.with_raises(st, n0)
        if cond.op == 'const' and not cond.args[0]:
            return Res(None, abr)
        return Res((cond, st), abr)

    def s_Pass(self, s, st, fr):
        return None

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.loc[a.asname or a.name.split('.')[0]] = self.g.const(('module', a.name if a.asname else a.name.split('.')[0]))
        return None

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            st.loc[a.asname or a.name] = self.g.const(('global', a.name))
        return None

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)

    s_Nonlocal = s_Pass

    def s_Assert(self, s, st, fr):
        return None

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.LShift, ast.RShift)):
            # DOLFIN files: file << object, file >> object
            nm = '__lshift__' if isinstance(s.value.op, ast.LShift) else '__rshift__'
            s = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(value=s.value.left, attr=nm, ctx=ast.Load()), s), args=[s.value.right], keywords=[]), s)), s)
        if isinstance(s.value, ast.Call):
            n0 = len(self.pending)
            r = self.call(s.value, st, fr, discard=True)
            cond, abr = self.with_raises(st, n0)
            if r is RAISE:
                abr.append(('raise', cond, st, None))
                return Res(None, abr)
            if cond.op == 'const' and not cond.args[0]:
                return Res(None, abr)
            return Res((cond, st), abr)
        return self.simple(st, lambda: self.ev(s.value, st, fr))

    def s_Assign(self, s, st, fr):
        def go():
            v = self.ev(s.value, st, fr)
            for t in s.targets:
                self.assign(t, v, st, fr)
        return self.simple(st, go)

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return None

        def go():
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return self.simple(st, go)

    def s_AugAssign(self, s, st, fr):
        def go():
            op = BINOP.get(type(s.op))
            if op is None:
                raise Undecided('augassign')
            if isinstance(s.target, ast.Name):
                old = self.ev(s.target, st, fr)
                v = self.binop(op, old, self.ev(s.value, st, fr), st)
                self.assign(s.target, v, st, fr)
                return
            t = s.target
            base = self.ev(t.value, st, fr)
            if isinstance(t, ast.Attribute):
                key, kind = self.g.const(t.attr), 'attr'
            else:
                key, kind = self.key(t.slice, st, fr), 'elem'
            if key.op == 'slicekey':
                old = self.g.mk('slice', base, *key.args)
            else:
                old = self.load(st, base, key, kind)
            v = self.binop(op, old, self.ev(s.value, st, fr), st)
            if base.op == 'list':
                self.assign(t, v, st, fr)
            else:
                self.store(st, base, key, v, kind)
        return self.simple(st, go)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b, k = self.ev(t.value, st, fr), self.key(t.slice, st, fr)
                self.effect(st, '__del__', [self.content(st, b), k], None)
            else:
                raise Undecided('del')

    def s_Return(self, s, st, fr):
        n0 = len(self.pending)
        v = self.ev(s.value, st, fr) if s.value is not None else self.g.const(None)
        cond, abr = self.with_raises(st, n0)
        return Res(None, abr + [('return', cond, st, v)])

    def s_Raise(self, s, st, fr):
        return Res(None, [('raise', self.g.TRUE, st, None)])

    def s_Break(self, s, st, fr):
        return Res(None, [('break', self.g.TRUE, st, None)])

    def s_Continue(self, s, st, fr):
        return Res(None, [('continue', self.g.TRUE, st, None)])

    def s_If(self, s, st, fr):
        g = self.g
        n0 = len(self.pending)
        c = g.truth(self.ev(s.test, st, fr))
        pc, pabr = self.with_raises(st, n0)
        if c.op == 'const':
            r = self.block(s.body if c.args[0] else s.orelse, st, fr)
            return self.guard(pc, pabr, r)
        a = self.block(s.body, st.copy(), fr)
        b = self.block(s.orelse, st.copy(), fr)
        nc = g.not_(c)
        abr = [(k, g.and_(c, x), s2, v) for k, x, s2, v in a.abr] + \
              [(k, g.and_(nc, x), s2, v) for k, x, s2, v in b.abr]
        if a.norm is None and b.norm is None:
            norm = None
        elif a.norm is None:
            norm = (g.and_(nc, b.norm[0]), b.norm[1])
        elif b.norm is None:
            norm = (g.and_(c, a.norm[0]), a.norm[1])
        else:
            if a.norm[0] is g.TRUE and b.norm[0] is g.TRUE:
                nn = g.TRUE
            else:
                nn = g.or_(g.and_(c, a.norm[0]), g.and_(nc, b.norm[0]))
            norm = (nn, self.merge(c, a.norm[1], b.norm[1]))
        return self.guard(pc, pabr, Res(norm, abr))

    def guard(self, pc, pabr, r):
        g = self.g
        if pc is g.TRUE:
            return Res(r.norm, pabr + r.abr) if pabr else r
        abr = pabr + [(k, g.and_(pc, c), s2, v) for k, c, s2, v in r.abr]
        norm = None if r.norm is None else (g.and_(pc, r.norm[0]), r.norm[1])
        return Res(norm, abr)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        g = self.g
        if not s.handlers:
            r = self.block(s.body, st, fr)
            if s.finalbody and r.norm:
                r2 = self.block(s.finalbody, r.norm[1], fr)
                return Res(r2.norm and (g.and_(r.norm[0], r2.norm[0]), r2.norm[1]), r.abr + r2.abr)
            return r
        self.nexc += 1
        c = g.truth(g.mk('sym', 'exc%d' % self.nexc))
        a = self.block(s.body + s.orelse, st.copy(), fr)
        a.abr = [x for x in a.abr if x[0] != 'raise']
        b = self.block(s.handlers[0].body, st.copy(), fr)
        nc = g.not_(c)
        abr = [(k, g.and_(nc, x), s2, v) for k, x, s2, v in a.abr] + [(k, g.and_(c, x), s2, v) for k, x, s2, v in b.abr]
        if a.norm is None and b.norm is None:
            return Res(None, abr)
        if a.norm is None:
            return Res((g.and_(c, b.norm[0]), b.norm[1]), abr)
        if b.norm is None:
            return Res((g.and_(nc, a.norm[0]), a.norm[1]), abr)
        return Res((g.or_(g.and_(nc, a.norm[0]), g.and_(c, b.norm[0])), self.merge(c, b.norm[1], a.norm[1])), abr)

    def s_FunctionDef(self, s, st, fr):
        self.closures.append((s, fr, st.loc))
        st.loc[s.name] = self.g.const(('closure', len(self.closures) - 1))

    def s_ClassDef(self, s, st, fr):
        st.loc[s.name] = self.g.const(('localclass', s.name))

    # ---------------------------------------------------------------------------- loops
    def const_trips(self, s, st, fr):
        """number of iterations of a counting while loop with constant bounds, or None"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or s.orelse:
            return None
        l, r, op = t.left, t.comparators[0], type(t.ops[0])
        assigned = {}
        for q in s.body:
            for x in ast.walk(q):
                for y in targets_of(x):
                    assigned[y] = assigned.get(y, 0) + 1
                if isinstance(x, ast.Continue):
                    return None
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        if op not in flip:
            return None
        if not (isinstance(l, ast.Name) and l.id in assigned):
            l, r, op = r, l, flip[op]
        if not (isinstance(l, ast.Name) and assigned.get(l.id) == 1) or l.id not in st.loc:
            return None
        sa = {y for q in s.body for x in ast.walk(q) for y in targets_of(x, ast.Attribute)}
        for x in ast.walk(r):
            if not isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)):
                return None
            if isinstance(x, ast.Name) and x.id in assigned or isinstance(x, ast.Attribute) and x.attr in sa:
                return None
        rv = self.ev(r, st.copy(), fr)
        lv = st.loc[l.id]
        if not (lv.op == 'const' and type(lv.args[0]) is int and rv.op == 'const' and type(rv.args[0]) is int):
            return None
        stride = None
        for q in s.body:
            v = None
            if isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name) and q.target.id == l.id and isinstance(q.op, (ast.Add, ast.Sub)):
                v, sg = q.value, (1 if isinstance(q.op, ast.Add) else -1)
            elif isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and q.targets[0].id == l.id and \
                    isinstance(q.value, ast.BinOp) and isinstance(q.value.left, ast.Name) and q.value.left.id == l.id and isinstance(q.value.op, (ast.Add, ast.Sub)):
                v, sg = q.value.right, (1 if isinstance(q.value.op, ast.Add) else -1)
            if isinstance(v, ast.Constant) and type(v.value) is int and v.value != 0:
                stride = sg * v.value
        if stride is None:
            return None
        a, b = lv.args[0], rv.args[0]
        n = 0
        test = {ast.Lt: lambda x: x < b, ast.Gt: lambda x: x > b, ast.LtE: lambda x: x <= b, ast.GtE: lambda x: x >= b, ast.NotEq: lambda x: x != b}[op]
        while test(a):
            n += 1
            a += stride
            if n > MAXUNROLL:
                return None
        return n

    def flag_starts(self, s, st, fr):
        """the loop is governed by a local flag which lets the first pass through; without continue"""
        t = s.test
        n = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else t
        if not isinstance(n, ast.Name) or s.orelse:
            return False
        v = st.loc.get(n.id)
        if v is None or v.op != 'const' or not isinstance(v.args[0], bool) or v.args[0] != (n is t):
            return False
        return not any(isinstance(x, ast.Continue) for q in s.body for x in ast.walk(q))

    def s_While(self, s, st, fr):
        g = self.g
        trips = self.const_trips(s, st, fr)
        if trips is not None:
            return self.unroll(s, [None] * trips, st, fr)
        if self.flag_starts(s, st, fr):
            # flag = False; while not flag: B   ==   while True: B; if flag: break
            def rotated(s2, K):
                r = self.block(s.body, s2, fr)
                exits, nx = self.split_body(r, g.TRUE, [])
                if nx is None:
                    return exits, nx
                cond, s3 = nx
                c = g.truth(self.ev(s.test, s3, fr))
                exits.append(('cond', g.and_(cond, g.not_(c)), s3.copy(), None))
                cond = g.and_(cond, c)
                return exits, (cond, s3)
            return self.loop(st, rotated, s, fr)

        def step(s2, K):
            n0 = len(self.pending)
            c = g.truth(self.ev(s.test, s2, fr))
            pc, pabr = self.with_raises(s2, n0)
            exits = list(pabr)
            nc = g.not_(c)
            exits.append(('cond', g.and_(pc, nc), s2.copy(), None))
            r = self.block(s.body, s2, fr)
            cc = g.and_(pc, c)
            return self.split_body(r, cc, exits)
        return self.loop(st, step, s, fr)

    def split_body(self, r, cc, exits):
        """body result -> (exits, next)"""
        g = self.g
        nexts = []
        for k, c, s2, v in r.abr:
            c2 = g.and_(cc, c)
            if k == 'continue':
                nexts.append((c2, s2))
            else:
                exits.append((k, c2, s2, v))
        if r.norm is not None:
            nexts.append((g.and_(cc, r.norm[0]), r.norm[1]))
        if not nexts:
            return exits, None
        cond, stt = nexts[-1]
        for c2, s2 in reversed(nexts[:-1]):
            stt = self.merge(c2, s2, stt)
            cond = g.or_(c2, cond)
        return exits, (cond, stt)

    def s_For(self, s, st, fr):
        g = self.g
        n0 = len(self.pending)
        it = self.iter_of(s.iter, st, fr)
        pc, pabr = self.with_raises(st, n0)
        if it[0] == 'const':
            r = self.unroll(s, it[1], st, fr)
            return self.guard(pc, pabr, r)
        n, elem = it[1], it[2]

        def step(s2, K):
            c = g.mk('lt', K, n(s2))
            exits = [('cond', g.not_(c), s2.copy(), None)]
            self.assign(s.target, elem(s2, K), s2, fr)
            r = self.block(s.body, s2, fr)
            return self.split_body(r, c, exits)
        if s.orelse:
            raise Undecided('for-else')
        return self.guard(pc, pabr, self.loop(st, step, s, fr))

    def unroll(self, s, items, st, fr):
        g = self.g
        cond = g.TRUE
        abr = []
        outs = []       # break states
        for x in items:
            if x is not None:
                self.assign(s.target, x, st, fr)
            r = self.block(s.body, st, fr)
            nxt = []
            for k, c, s2, v in r.abr:
                c2 = g.and_(cond, c)
                if k == 'continue':
                    nxt.append((c, s2))
                elif k == 'break':
                    outs.append((c2, s2))
                else:
                    abr.append((k, c2, s2, v))
            if r.norm is not None:
                nxt.append(r.norm)
            if not nxt:
                cond = None
                break
            c0, st = nxt[-1]
            for c2, s2 in reversed(nxt[:-1]):
                st = self.merge(c2, s2, st)
                c0 = g.or_(c2, c0)
            cond = g.and_(cond, c0)
        else:
            if s.orelse:
                raise Undecided('for-else')
        if cond is not None:
            outs.append((cond, st))
        if not outs:
            return Res(None, abr)
        c0, st = outs[-1]
        for c2, s2 in reversed(outs[:-1]):
            st = self.merge(c2, s2, st)
            c0 = g.or_(c2, c0)
        return Res((c0, st), abr)

    def iter_of(self, e, st, fr):
        """('const', [nodes]) or ('gen', n(state)->node, elem(state,K)->node)"""
        g = self.g
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in st.loc:
            f = e.func.id
            if f == 'range':
                a = [self.ev(x, st, fr) for x in e.args]
                lo, hi, stp = g.const(0), None, g.const(1)
                if len(a) == 1:
                    hi = a[0]
                elif len(a) == 2:
                    lo, hi = a
                else:
                    lo, hi, stp = a
                if all(x.op == 'const' and isinstance(x.args[0], int) for x in (lo, hi, stp)):
                    rr = range(lo.args[0], hi.args[0], stp.args[0])
                    if len(rr) <= MAXUNROLL:
                        return ('const', [g.const(i) for i in rr])
                if stp.op == 'const' and stp.args[0] == 1:
                    n = g.arith('sub', hi, lo) if not (lo.op == 'const' and lo.args[0] == 0) else hi
                    return ('gen', lambda s2: n, lambda s2, K: g.arith('add', lo, K))
                if stp.op == 'const' and isinstance(stp.args[0], int) and stp.args[0] < 0:
                    n = g.arith('sub', lo, hi) if stp.args[0] == -1 else \
                        g.mk('uf', 'ceil', g.arith('div', g.arith('sub', hi, lo), stp))
                else:
                    n = g.mk('uf', 'ceil', g.arith('div', g.arith('sub', hi, lo), stp))
                return ('gen', lambda s2: n, lambda s2, K: g.arith('add', lo, g.arith('mul', K, stp)))
            if f == 'enumerate':
                inner = self.iter_of(e.args[0], st, fr)
                s0 = self.ev(e.args[1], st, fr) if len(e.args) > 1 else g.const(0)
                for k in e.keywords:
                    s0 = self.ev(k.value, st, fr)
                if inner[0] == 'const':
                    return ('const', [g.mk('tuple', g.arith('add', s0, g.const(i)), x) for i, x in enumerate(inner[1])])
                return ('gen', inner[1], lambda s2, K: g.mk('tuple', g.arith('add', s0, K), inner[2](s2, K)))
            if f == 'zip':
                inn = [self.iter_of(x, st, fr) for x in e.args]
                if all(x[0] == 'const' for x in inn):
                    return ('const', [g.mk('tuple', *t) for t in zip(*[x[1] for x in inn])])
                if any(x[0] == 'const' for x in inn):
                    k = min(len(x[1]) for x in inn if x[0] == 'const')
                    fn = [(lambda i, x=x: x[1][i]) if x[0] == 'const' else (lambda i, x=x: x[2](st, g.const(i))) for x in inn]
                    return ('const', [g.mk('tuple', *[h(i) for h in fn]) for i in range(k)])
                return ('gen', inn[0][1], lambda s2, K: g.mk('tuple', *[x[2](s2, K) for x in inn]))
            if f in ('list', 'tuple', 'iter', 'sorted', 'reversed') and len(e.args) == 1 and not e.keywords:
                if f in ('list', 'tuple', 'iter'):
                    return self.iter_of(e.args[0], st, fr)
                if f == 'reversed':
                    inner = self.iter_of(e.args[0], st, fr)
                    if inner[0] == 'const':
                        return ('const', list(reversed(inner[1])))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
            d = self.ev(e.func.value, st, fr)
            ln = self.length(d)
            if e.func.attr == 'keys':
                return ('gen', lambda s2: ln, lambda s2, K: self.iterel(s2, d, K))
            if e.func.attr == 'items':
                def el(s2, K):
                    k = self.iterel(s2, d, K)
                    return g.mk('tuple', k, self.load(s2, d, k))
                return ('gen', lambda s2: ln, el)
            return ('gen', lambda s2: ln, lambda s2, K: self.load(s2, d, self.iterel(s2, d, K)))
        d = self.ev(e, st, fr)
        if d.op in ('tuple', 'list') and len(d.args) <= MAXUNROLL:
            return ('const', list(d.args))
        if d.op == 'const' and isinstance(d.args[0], str):
            return ('const', [g.const(c) for c in d.args[0]])
        ln = self.length(d)
        return ('gen', lambda s2: ln, lambda s2, K: self.iterel(s2, d, K))

    def iterel(self, st, d, K):
        return self.load(st, d, K)

    def length(self, d):
        if d.op in ('tuple', 'list'):
            return self.g.const(len(d.args))
        return self.g.mk('uf', 'len', d)

    raise_obs = True

    def loop(self, st, step, node, fr):
        g = self.g
        self.stats['loops'] += 1
        lid = '%s:L%d' % (self.label, self.nloop)
        self.nloop += 1
        mod = set()        # ('l', name) / ('h', part) / ('t', channel)
        iv = {}
        save = (self.nloop, dict(self.allocs), self.nexc)
        outer, pw0 = self.promo, self.pw
        promo = {}
        nopromo = set()
        st0, st = st, st.copy()
        for attempt in range(40):
            self.promo = dict(outer, **promo)
            self.pw = {}
            self.nloop, self.allocs, self.nexc = save[0], dict(save[1]), save[2]
            g.cur = (self.stack[-1][0], getattr(node, 'lineno', 0), self.stack[-1][1])
            self.uid += 1
            L = Loop('%s.%d' % (lid, self.uid))
            L.prov = g.cur
            g.loops[L.id] = L
            K = g.mk('K', L.id)
            s2 = st.copy()
            for v in sorted(mod):
                init = self.getv(st, v)
                L.init[v] = init
                if v in iv:
                    c = iv[v]
                    if c.op == 'const' and c.args[0] == 0:
                        self.setv(s2, v, init)
                        continue
                    self.setv(s2, v, g.arith('add', init, K if c.op == 'const' and c.args[0] == 1 else g.arith('mul', c, K)))
                    continue
                p = g.mk('phi', L.id, v, tag=init.tag if init.tag in ('rec', 'recref', 'tuple', 'list') else 'list' if init.op in ('list', 'append') and init.tag is None else None)
                L.phi[v] = p
                self.setv(s2, v, p)
            ref = s2.copy()
            npend = len(self.pending)
            depth = len(self.lstack)
            self.lstack.append(L.id)
            try:
                exits, nxt = step(s2, K)
            except PromoFail as e:
                if e.part not in promo:
                    raise
                st.heap.pop(promo.pop(e.part)[2], None)
                nopromo.add(e.part)
                mod = {v for v in mod if v[1] in st.heap or not str(v[1]).startswith('$p:')}
                iv = {}
                del self.pending[npend:]
                continue
            finally:
                del self.lstack[depth:]
            del self.pending[npend:]
            new = set()
            outs = [e[2] for e in exits if e[0] not in ('raise',)] + ([nxt[1]] if nxt else [])
            for s3 in outs:
                for n in s3.loc:
                    if s3.loc[n] is not ref.loc.get(n) and ('l', n) not in mod:
                        new.add(('l', n))
                for n in s3.heap:
                    if s3.heap[n] is not self.hp(ref, n) and ('h', n) not in mod:
                        new.add(('h', n))
                for n in s3.tr:
                    if s3.tr[n] is not self.trc(ref, n) and ('t', n) not in mod:
                        new.add(('t', n))
            if any(e[0] in ('raise', 'return') for e in exits) and ('t', '') not in mod:
                new.add(('t', ''))
            for v in sorted(new):
                # an attribute of one object that the body writes is carried as a scalar
                ws = self.pw.get(v[1], ()) if v[0] == 'h' and v[1].startswith('attr:') and v[1] not in nopromo else ()
                if len(ws) == 1:
                    (b, k), = ws
                    if L.id not in b.loops and k.op == 'const':
                        self.promo = outer
                        pn = '$p:%s:%s' % (v[1], lid)
                        x = self.load(st, b, k, 'attr')
                        st.heap[pn] = x
                        promo[v[1]] = (b, k, pn)
                        new.discard(v)
                        new.add(('h', pn))
            if new:
                mod |= new
                continue
            # values that never change along the back edge are not loop-carried; constant strides are induction variables
            if nxt is not None:
                found = []
                for v in sorted(mod):
                    if v in iv:
                        continue
                    nx = self.getv(nxt[1], v)
                    p = L.phi[v]
                    if nx is p:
                        found.append((v, g.const(0)))
                        continue
                    if v[0] != 'l':
                        continue
                    c = None
                    if nx.op == 'add' and nx.args[0] is p and L.id not in nx.args[1].loops:
                        c = nx.args[1]
                    elif nx.op == 'add' and nx.args[1] is p and L.id not in nx.args[0].loops:
                        c = nx.args[0]
                    elif nx.op == 'sub' and nx.args[0] is p and L.id not in nx.args[1].loops:
                        c = g.arith('neg', nx.args[1])
                    if c is not None and (c.op == 'const') and L.init[v].op != 'sym':
                        found.append((v, c))
                        break
                if found:
                    for v, c in found:
                        iv[v] = c
                    continue
            break
        else:
            raise Undecided('loop does not stabilise')
        self.nloop = max(self.nloop, save[0])
        self.promo = outer
        for k, ws in self.pw.items():
            pw0.setdefault(k, set()).update(ws)
        self.pw = pw0
        # finish summary
        allv = sorted(mod)
        L.next = {}
        if nxt is not None:
            L.next_cond = nxt[0]
            for v in allv:
                L.next[v] = self.getv(nxt[1], v)
        else:
            L.next_cond = g.FALSE
            for v in allv:
                L.next[v] = L.init[v]
        kinds = {e[0] for e in exits}
        RAI = ('l', '$raised')
        if 'raise' in kinds:
            L.init[RAI] = g.const(None)
            L.next[RAI] = L.init[RAI]
        norm = kinds & {'cond', 'break'}
        has_ret = 'return' in kinds
        KIND = ('l', '$kind')
        if has_ret and norm:
            L.init[KIND] = g.FALSE
            L.next[KIND] = g.FALSE
        for k, c, s3, val in exits:
            env = {v: self.getv(s3, v) for v in allv} if k != 'raise' else {}
            if k != 'raise' and has_ret and norm:
                env[KIND] = g.const(k == 'return')
            if k != 'raise' and 'raise' in kinds:
                env[RAI] = L.init[RAI]
            L.exits.append((k, c, env, val))
        L._deps = None
        live = [e for e in L.exits if e[0] != 'raise']
        if not live:
            return Res(None, [])
        # every way out of the loop (condition, break, return) leaves through one joint exit
        o = st.copy()
        for v in allv:
            vals = {e[2][v].id: e[2][v] for e in live}
            x = list(vals.values())[0]
            if len(vals) == 1 and L.id not in x.loops:
                self.setv(o, v, x)
                continue
            tag = L.phi[v].tag if v in L.phi else (L.init[v].tag if L.init[v].tag in ('rec', 'recref', 'tuple', 'list') else 'list' if L.init[v].op == 'list' and L.init[v].tag is None else None)
            self.setv(o, v, g.mk('loopout', L.id, v, 'out', tag=tag))
        for part, (b, k, pn) in promo.items():
            x = o.heap.pop(pn)
            st.heap.pop(pn, None)
            self.store(o, b, k, x, 'attr')
        if 'raise' in kinds and self.raise_obs:
            # in which iterations the loop raises an error is an effect
            o.tr[''] = g.mk('teff', self.trc(o, ''), '$raises', False, g.mk('loopout', L.id, RAI, 'out'))
        abr = []
        kind = g.TRUE
        if has_ret:
            kind = g.truth(g.mk('loopout', L.id, KIND, 'out')) if norm else g.TRUE
            rets = [e for e in live if e[0] == 'return']
            val = self.retval(L, rets, allv, o, [e[3] for e in rets])
            abr.append(('return', kind, o.copy(), val))
        if not norm:
            return Res(None, abr)
        return Res((g.not_(kind) if has_ret else g.TRUE, o), abr)

    def retval(self, L, rets, allv, o, vals):
        g = self.g
        vals = [x if x is not None else g.const(None) for x in vals]
        if len({x.id for x in vals}) == 1 and L.id not in vals[0].loops:
            return vals[0]
        for v in allv:
            if v[0] == 'l' and all(e[2][v] is x for e, x in zip(rets, vals)):
                return self.getv(o, v)
        if all(x.op == 'tuple' for x in vals) and len({len(x.args) for x in vals}) == 1:
            return g.mk('tuple', *[self.retval(L, rets, allv, o, [x.args[i] for x in vals]) for i in range(len(vals[0].args))])
        n = len(L.rv)
        L.rv.append({id(e): x for e, x in zip(rets, vals)})
        return g.mk('loopout', L.id, ('$val', n), 'out')

    def getv(self, st, v):
        k, n = v
        if k == 'l':
            x = st.loc.get(n)
            return x if x is not None else self.undef()
        if k == 'h':
            return self.hp(st, n)
        return self.trc(st, n)

    def setv(self, st, v, x):
        k, n = v
        (st.loc if k == 'l' else st.heap if k == 'h' else st.tr)[n] = x

    # ---------------------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr):
        g = self.g
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.store(st, g.const(('global', fr.module)), g.const(t.id), v, 'attr')
            else:
                st.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Undecided('starred target')
                self.assign(x, self.load(st, v, g.const(i)) if v.op == 'load' and v.tag != 'rec' else self.item(v, i), st, fr)
        elif isinstance(t, ast.Attribute):
            self.store(st, self.ev(t.value, st, fr), g.const(t.attr), v, 'attr')
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.key(t.slice, st, fr)
            if b.op == 'list' and isinstance(t.value, (ast.Name, ast.Attribute, ast.Subscript)) and k.op == 'const' \
                    and isinstance(k.args[0], int) and -len(b.args) <= k.args[0] < len(b.args):
                a = list(b.args)
                a[k.args[0]] = v
                self.assign(t.value, g.mk('list', *a), st, fr)
                return
            self.store(st, b, k, v)
        else:
            raise Undecided('target')

    def key(self, s, st, fr):
        g = self.g
        if isinstance(s, ast.Slice):
            a = [self.ev(x, st, fr) if x is not None else g.const(None) for x in (s.lower, s.upper, s.step)]
            if a[2].op == 'const' and a[2].args[0] in (None, 1):        # x[:n] is x[0:n], x[0:] is x[:]
                a[2] = g.const(None)
                if a[1] is g.const(None):
                    a[0] = g.const(None) if a[0] is g.const(0) else a[0]
                elif a[0] is g.const(None):
                    a[0] = g.const(0)
            return g.mk('slicekey', *a)
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return g.mk('tuple', *[self.key(x, st, fr) for x in s.elts])
        return self.ev(s, st, fr)

    # ---------------------------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def x_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, str):
            self.strings.add(v)
        if isinstance(v, (complex, bytes)) or v is Ellipsis:
            v = ('lit', repr(v))
        return self.g.const(v)

    def x_Name(self, e, st, fr):
        n = e.id
        if n in fr.globals:
            return self.load(st, self.g.const(('global', fr.module)), self.g.const(n), 'attr')
        if n in st.loc:
            return st.loc[n]
        return self.global_name(n, st, fr)

    def global_name(self, n, st, fr):
        g = self.g
        if n in self.cfg.names:
            return self.pyconst(self.cfg.names[n])
        m = self.w.modules.get(fr.module)
        if m is not None:
            if n in m.consts:
                try:
                    v = ast.literal_eval(m.consts[n])
                    if isinstance(v, (int, float, str, bool, tuple, list, type(None))):
                        return self.pyconst(v)
                except Exception:
                    pass
            if n in m.imports:
                i = m.imports[n]
                return g.const(('module', i[1]) if i[0] == 'mod' else ('global', i[2]))
        return g.const(('global', n))

    def x_Attribute(self, e, st, fr):
        g = self.g
        # class constant?
        if isinstance(e.value, ast.Name) and e.value.id not in st.loc:
            cn = e.value.id
            m = self.w.modules.get(fr.module)
            if m and cn in m.imports and m.imports[cn][0] == 'from':
                cn = m.imports[cn][2]
            r = self.w.class_const(cn, e.attr)
            if r:
                return self.class_const_value(r, st, fr)
        b = self.ev(e.value, st, fr)
        return self.attr(b, e.attr, st, fr, isself=isinstance(e.value, ast.Name) and e.value.id == fr.selfname)

    def class_const_value(self, r, st, fr):
        f2 = Frame(None, None, r[1].name, None)
        return self.ev(r[0], State(), f2)

    def attr(self, b, name, st, fr, isself=False):
        g = self.g
        if name in self.cfg.attr_consts:
            return self.pyconst(self.cfg.attr_consts[name])
        if b.op == 'const' and isinstance(b.args[0], tuple):
            if b.args[0][0] == 'module':
                if name == 'pi':
                    return g.mk('sym', 'pi')
                return g.const(('modattr', b.args[0][1].split('.')[0], name))
            if b.args[0][0] == 'global':
                r = self.w.class_const(b.args[0][1], name)
                if r:
                    return self.class_const_value(r, st, fr)
            if b.args[0][0] == 'modattr':
                return g.const(b.args[0] + (name,))
        cls = fr.cls if isself else self.recv.get(b.id)
        if cls and name not in self.cfg.sym_attrs:
            r = self.w.class_const(cls, name)
            if r:
                return self.class_const_value(r, st, fr)
        return self.load(st, b, g.const(name), 'attr')

    def x_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        k = self.key(e.slice, st, fr)
        if k.op == 'slicekey':
            if b.op in ('tuple', 'list') and all(x.op == 'const' for x in k.args):
                return self.g.mk(b.op, *b.args[slice(*[x.args[0] for x in k.args])])
            if b.op == 'const' and isinstance(b.args[0], str) and all(x.op == 'const' for x in k.args):
                return self.g.const(b.args[0][slice(*[x.args[0] for x in k.args])])
            tag = 'rec' if b.tag == 'rec' else None
            return self.g.mk('slice', b, *k.args, tag=tag)
        return self.load(st, b, k)

    def x_Tuple(self, e, st, fr):
        return self.seq('tuple', e, st, fr)

    def x_List(self, e, st, fr):
        return self.seq('list', e, st, fr)

    def seq(self, op, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if v.op in ('tuple', 'list'):
                    out.extend(v.args)
                else:
                    out.append(self.g.mk('uf', 'star', v))
            else:
                out.append(self.ev(x, st, fr))
        return self.g.mk(op, *out)

    def x_Set(self, e, st, fr):
        return self.g.mk('uf', 'set', *[self.ev(x, st, fr) for x in e.elts])

    def x_Dict(self, e, st, fr):
        d = self.alloc('dict', [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Undecided('dict unpack')
            self.store(st, d, self.ev(k, st, fr), self.ev(v, st, fr))
        return d

    def alloc(self, name, args):
        key = (name,) + tuple(a.id for a in args)
        n = self.allocs.get(key, 0)
        self.allocs[key] = n + 1
        a = self.g.mk('alloc', name, n, *args)
        self.alloc_at[a.id] = frozenset(self.lstack)
        return a

    def x_BinOp(self, e, st, fr):
        op = BINOP.get(type(e.op))
        a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
        if op is None:
            return self.g.mk('uf', type(e.op).__name__, a, b)
        return self.binop(op, a, b, st)

    def vec(self, a, st):
        """elements of a slice with constant bounds, or None"""
        if a.op == 'slice' and st is not None and a.tag != 'rec':
            b, lo, hi, stp = a.args
            if stp.op == 'const' and stp.args[0] is None and hi.op == 'const' and isinstance(hi.args[0], int) and lo.op == 'const' \
                    and (lo.args[0] is None or isinstance(lo.args[0], int)):
                l, h = lo.args[0] or 0, hi.args[0]
                if 0 <= l <= h <= l + 12:
                    return [self.load(st, b, self.g.const(i)) for i in range(l, h)]
        if a.op == 'list' and a.tag == 'vec':
            return list(a.args)
        return None

    def isstr(self, a):
        while a.op == 'add':
            a = a.args[0]
        return a.op == 'const' and isinstance(a.args[0], str) or a.op == 'uf' and a.args[0] in ('str', 'fmt')

    def unstr(self, a):
        """str(x) -> x as an operand of a string concatenation"""
        return a.args[1] if a.op == 'uf' and a.args[0] == 'str' and len(a.args) == 2 else a

    def pieces(self, lits, vals):
        """text, value, text, value, ... as one string"""
        g = self.g
        r = None
        for i, t in enumerate(lits):
            for v in ([g.const(t)] if t else []) + ([self.unstr(vals[i])] if i < len(vals) else []):
                if v.op == 'const' and type(v.args[0]) is int:
                    v = g.const(str(v.args[0]))
                r = v if r is None else self.binop('add', r, v)
        if r is None:
            return g.const('')
        return r if self.isstr(r) else g.mk('uf', 'str', r)

    def percent(self, a, b):
        """'..%d..%s' % values is a concatenation"""
        if a.op != 'const' or not isinstance(a.args[0], str):
            return None
        lits = re.split('%[ds]', a.args[0])
        vals = list(b.args) if b.op == 'tuple' else [b]
        if any('%' in t for t in lits) or len(lits) != len(vals) + 1:
            return None
        return self.pieces(lits, vals)

    def binop(self, op, a, b, st=None):
        g = self.g
        if op == 'add' and (self.isstr(a) or self.isstr(b)):
            a, b = self.unstr(a), self.unstr(b)
        if a.id in self.cols or b.id in self.cols:
            fa, fb = self.colfn(a), self.colfn(b)
            n = g.mk('uf', 'col_' + op, a, b)
            self.cols[n.id] = lambda i: self.binop(op, fa(i), fb(i))
            return n
        va, vb = self.vec(a, st), self.vec(b, st)
        if va is not None and vb is not None and len(va) == len(vb):
            return g.mk('list', *[self.binop(op, x, y, st) for x, y in zip(va, vb)], tag='vec')
        if va is not None and b.op not in ('list', 'tuple', 'slice') and vb is None and not (b.op == 'const' and op == 'mul' and a.op == 'list' and a.tag != 'vec'):
            return g.mk('list', *[self.binop(op, x, b, st) for x in va], tag='vec')
        if vb is not None and a.op not in ('list', 'tuple', 'slice') and va is None:
            return g.mk('list', *[self.binop(op, a, y, st) for y in vb], tag='vec')
        if op == 'mul' and a.op == 'list' and b.op == 'const' and isinstance(b.args[0], int) and 0 <= b.args[0] < 20:
            return g.mk('list', *(a.args * b.args[0]))
        if op == 'mod' and a.op == 'const' and isinstance(a.args[0], str):
            parts = self.percent(a, b)
            return parts if parts is not None else g.mk('uf', 'fmt', a, b)
        return g.arith(op, a, b)

    def x_UnaryOp(self, e, st, fr):
        a = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return self.g.not_(self.g.truth(a))
        if isinstance(e.op, ast.USub):
            if a.id in self.cols:
                return self.binop('mul', self.g.const(-1), a)
            return self.g.arith('neg', a)
        if isinstance(e.op, ast.UAdd):
            return a
        return self.g.arith('inv', a)

    def x_BoolOp(self, e, st, fr):
        g = self.g
        vals = e.values
        v = self.ev(vals[0], st, fr)
        for x in vals[1:]:
            s2 = st.copy()
            w = self.ev(x, s2, fr)
            c = g.truth(v)
            if isinstance(e.op, ast.And):
                if not self.same(st, s2):
                    st.become(self.merge(c, s2, st.copy()))
                v = g.and_(v, w) if g.isbool(v) and g.isbool(w) else g.ite(c, w, v)
            else:
                if not self.same(st, s2):
                    st.become(self.merge(c, st.copy(), s2))
                v = g.or_(v, w) if g.isbool(v) and g.isbool(w) else g.ite(c, v, w)
        return v

    def same(self, a, b):
        return a.loc == b.loc and a.heap == b.heap and a.tr == b.tr

    def x_IfExp(self, e, st, fr):
        g = self.g
        c = g.truth(self.ev(e.test, st, fr))
        if c.op == 'const':
            return self.ev(e.body if c.args[0] else e.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        a, b = self.ev(e.body, s1, fr), self.ev(e.orelse, s2, fr)
        if not self.same(s1, s2):
            st.become(self.merge(c, s1, s2))
        return g.ite(c, a, b)

    def x_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def x_Compare(self, e, st, fr):
        g = self.g
        left = self.ev(e.left, st, fr)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            c = self.cmp(op, left, right)
            out = c if out is None else g.and_(out, c)
            left = right
        return out

    def cmp(self, op, a, b):
        g = self.g
        n = type(op).__name__
        if n in ('Is', 'IsNot') and b.op == 'const' and isinstance(b.args[0], bool) and g.isbool(a):
            r = a if b.args[0] else g.not_(a)
            return r if n == 'Is' else g.not_(r)
        if a.op == 'const' and b.op == 'const' and not isinstance(a.args[0], tuple) and not isinstance(b.args[0], tuple):
            x, y = a.args[0], b.args[0]
            try:
                r = {'Eq': lambda: x == y, 'NotEq': lambda: x != y, 'Lt': lambda: x < y, 'LtE': lambda: x <= y,
                     'Gt': lambda: x > y, 'GtE': lambda: x >= y, 'Is': lambda: x is y or x == y,
                     'IsNot': lambda: not (x is y or x == y), 'In': lambda: x in y, 'NotIn': lambda: x not in y}[n]()
                return g.const(bool(r))
            except Exception:
                pass
        if n in ('Eq', 'NotEq', 'Is', 'IsNot'):
            if a.op == 'const' and b.op != 'const':
                a, b = b, a
            elif a.op != 'const' and b.op != 'const' and a.id > b.id:
                a, b = b, a
            if a is b:
                return g.const(n in ('Eq', 'Is'))
            if b.op == 'const' and b.args[0] is None and a.op in ('tuple', 'list', 'ref', 'alloc', 'slice'):
                return g.const(n in ('NotEq', 'IsNot'))
            if b.op == 'const' and b.args[0] is None and a.op == 'ite':
                t, f = self.cmp(op, a.args[1], b), self.cmp(op, a.args[2], b)
                return g.or_(g.and_(a.args[0], t), g.and_(g.not_(a.args[0]), f))
            return g.mk('eq' if n in ('Eq', 'Is') else 'ne', a, b)
        if n == 'Lt':
            return g.mk('lt', a, b)
        if n == 'LtE':
            return g.mk('le', a, b)
        if n == 'Gt':
            return g.mk('lt', b, a)
        if n == 'GtE':
            return g.mk('le', b, a)
        if b.op in ('tuple', 'list'):
            r = g.FALSE
            for x in b.args:
                r = g.or_(r, self.cmp(ast.Eq(), a, x))
            return r if n == 'In' else g.not_(r)
        return g.mk('in' if n == 'In' else 'notin', a, b)

    def x_JoinedStr(self, e, st, fr):
        if not any(isinstance(x, ast.FormattedValue) and (x.format_spec is not None or x.conversion != -1) for x in e.values):
            r = None
            for x in e.values:
                v = self.unstr(self.ev(x.value if isinstance(x, ast.FormattedValue) else x, st, fr))
                if v.op == 'const' and type(v.args[0]) is int:
                    v = self.g.const(str(v.args[0]))
                r = v if r is None else self.binop('add', r, v)
            return r if r is not None else self.g.const('')
        return self.g.mk('uf', 'fstr', *[self.ev(x.value if isinstance(x, ast.FormattedValue) else x, st, fr) for x in e.values])

    def x_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def x_Starred(self, e, st, fr):
        return self.g.mk('uf', 'star', self.ev(e.value, st, fr))

    def x_Lambda(self, e, st, fr):
        self.closures.append((e, fr, st.loc))
        return self.g.const(('closure', len(self.closures) - 1))

    def comp(self, e, st, fr, add, init):
        """desugar a comprehension into nested for loops with an accumulator"""
        acc = '$acc%d' % len(st.loc)
        inner = ast.Expr(value=ast.Call(func=ast.Name(id='$accadd', ctx=ast.Load()), args=[], keywords=[]))
        st2 = st.copy()
        st2.loc[acc] = init
        self.accs.append((acc, e, add))
        body = [inner]
        for gen in reversed(e.generators):
            for cond in reversed(gen.ifs):
                body = [ast.If(test=cond, body=body, orelse=[])]
            body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        for x in ast.walk(body[0]):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                x.lineno = e.lineno
                x.col_offset = 0
        r = self.block(body, st2, fr)
        self.accs.pop()
        if r.norm is None:
            raise Undecided('comprehension')
        s3 = r.norm[1]
        v = s3.loc[acc]
        names = set()
        for gen in e.generators:
            for x in ast.walk(gen.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        names.add(acc)
        old = st.loc
        st.become(s3)
        st.loc = {k: x for k, x in s3.loc.items() if k not in names}
        for k in names:
            if k in old:
                st.loc[k] = old[k]
        return v

    def anyall(self, kind, e, st, fr):
        """any(c for x in xs): a loop that stops at the first x with c"""
        acc = '$any%d' % len(st.loc)
        test = e.elt if kind == 'any' else ast.UnaryOp(op=ast.Not(), operand=e.elt)
        one = ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=ast.Constant(kind == 'any'))
        body = [ast.If(test=test, body=[one] + ([ast.Break()] if len(e.generators) == 1 else []), orelse=[])]
        for gen in reversed(e.generators):
            for cond in reversed(gen.ifs):
                body = [ast.If(test=cond, body=body, orelse=[])]
            body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        for x in ast.walk(body[0]):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                x.lineno = e.lineno
                x.col_offset = 0
        names = {x.id for gen in e.generators for x in ast.walk(gen.target) if isinstance(x, ast.Name)} | {acc}
        st2 = st.copy()
        st2.loc[acc] = self.g.const(kind != 'any')
        r = self.block(body, st2, fr)
        if r.norm is None:
            raise Undecided('any/all')
        s3 = r.norm[1]
        v = s3.loc[acc]
        old = st.loc
        st.become(s3)
        st.loc = {k: x for k, x in s3.loc.items() if k not in names}
        for k in names:
            if k in old:
                st.loc[k] = old[k]
        return v

    accs = []

    def x_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, 'list', self.g.mk('list'))

    x_GeneratorExp = x_ListComp

    def x_SetComp(self, e, st, fr):
        return self.g.mk('uf', 'set', self.comp(e, st, fr, 'list', self.g.mk('list')))

    def x_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, 'dict', self.alloc('dict', []))

    # ---------------------------------------------------------------------------- calls
    def x_Call(self, e, st, fr):
        r = self.call(e, st, fr, discard=False)
        if r is RAISE:
            self.pending.append((self.g.TRUE, st.copy()))
            return self.undef()
        return r

    def as_comp(self, kind, a):
        if kind == 'dict' and isinstance(a, (ast.GeneratorExp, ast.ListComp)) and isinstance(a.elt, (ast.Tuple, ast.List)) and len(a.elt.elts) == 2:
            return ast.copy_location(ast.DictComp(key=a.elt.elts[0], value=a.elt.elts[1], generators=a.generators), a)
        if kind == 'list' and isinstance(a, (ast.GeneratorExp, ast.ListComp)):
            return ast.copy_location(ast.ListComp(elt=a.elt, generators=a.generators), a)
        if kind == 'list' and isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('map', 'filter') and len(a.args) == 2 \
                and isinstance(a.args[0], ast.Lambda) and len(a.args[0].args.args) == 1:
            n = a.args[0].args.args[0].arg
            x = ast.copy_location(ast.Name(id=n, ctx=ast.Load()), a)
            t = ast.copy_location(ast.Name(id=n, ctx=ast.Store()), a)
            m = a.func.id == 'map'
            return ast.copy_location(ast.ListComp(elt=a.args[0].body if m else x, generators=[ast.comprehension(target=t, iter=a.args[1], ifs=[] if m else [a.args[0].body], is_async=0)]), a)
        if kind == 'list' and isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'map' and len(a.args) == 2 and isinstance(a.args[0], ast.Name):
            v = ast.copy_location(ast.Name(id='$m', ctx=ast.Load()), a)
            c = ast.copy_location(ast.Call(func=a.args[0], args=[v], keywords=[]), a)
            g = ast.comprehension(target=ast.copy_location(ast.Name(id='$m', ctx=ast.Store()), a), iter=a.args[1], ifs=[], is_async=0)
            return ast.copy_location(ast.ListComp(elt=c, generators=[g]), a)
        return None

    def append_to(self, lv, x, st, fr):
        cur = self.ev(lv, st, fr)
        if cur.op == 'list':
            nv = self.g.mk('list', *(cur.args + (x,)))
        else:
            nv = self.g.mk('append', cur, self.shared(x, cur.loops))
        t = lv
        self.assign(t, nv, st, fr)

    def call(self, e, st, fr, discard):
        g = self.g
        self.stats['calls'] += 1
        f = e.func
        # --- accumulators of comprehensions
        if isinstance(f, ast.Name) and f.id == '$accadd':
            acc, ce, add = self.accs[-1]
            if add == 'dict':
                k, v = self.ev(ce.key, st, fr), self.ev(ce.value, st, fr)
                self.store(st, st.loc[acc], k, v)
            else:
                v = self.ev(ce.elt, st, fr)
                cur = st.loc[acc]
                st.loc[acc] = g.mk('list', *(cur.args + (v,))) if cur.op == 'list' else g.mk('append', cur, self.shared(v, cur.loops))
            return g.const(None)
        # --- comprehensions in disguise: dict((k, v) for ...), list(... for ...), list(map(f, xs))
        if isinstance(f, ast.Name) and f.id in ('dict', 'list') and len(e.args) == 1 and not e.keywords and f.id not in st.loc:
            d = self.as_comp(f.id, e.args[0])
            if d is not None:
                return self.ev(d, st, fr)
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(e.args) == 1 and not e.keywords and f.id not in st.loc and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.anyall(f.id, e.args[0], st, fr)
        name = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else None)
        if name in self.cfg.rename_calls:
            name = self.cfg.rename_calls[name]
        if name in IGNORED or name in self.cfg.ignore_calls:
            return g.const(None)
        if name in ERRORS and not (isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Name)):
            return RAISE
        if isinstance(f, ast.Attribute) and f.attr == 'sum' and not e.args and not e.keywords and not (isinstance(f.value, ast.Name) and f.value.id not in st.loc):
            e = ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(value=ast.copy_location(ast.Name('np_m', ast.Load()), e), attr='sum', ctx=ast.Load()), e), args=[f.value], keywords=[]), e)
            return self.call(e, st, fr, discard)
        # --- list append
        if isinstance(f, ast.Attribute) and f.attr == 'append' and len(e.args) == 1 and isinstance(f.value, (ast.Name, ast.Attribute, ast.Subscript)):
            x = self.ev(e.args[0], st, fr)
            self.append_to(f.value, x, st, fr)
            return g.const(None)
        if isinstance(f, ast.Attribute) and f.attr in ('format',):
            vs = [self.ev(a, st, fr) for a in [f.value] + e.args]
            if vs[0].op == 'const' and isinstance(vs[0].args[0], str) and not e.keywords:
                lits = vs[0].args[0].split('{}')
                if len(lits) == len(vs) and not any('{' in t or '}' in t for t in lits):
                    return self.pieces(lits, vs[1:])
            return g.mk('uf', 'fmt', *vs)
        if isinstance(f, ast.Name) and f.id in st.loc and st.loc[f.id].op == 'const' and isinstance(st.loc[f.id].args[0], tuple) \
                and st.loc[f.id].args[0][0] == 'closure':
            return self.call_closure(st.loc[f.id].args[0][1], e, st, fr)
        if name == '__reccopy__':
            ref, v = self.ev(e.args[0], st, fr), self.ev(e.args[1], st, fr)
            self.reccopy(st, ref, v)
            return g.const(None)
        if name in ('__cdiv__', '__cmod__') and len(e.args) == 2:
            return g.arith('cdiv' if name == '__cdiv__' else 'cmod', self.ev(e.args[0], st, fr), self.ev(e.args[1], st, fr))
        if name == '__narrow__':
            return g.mk('uf', 'narrow', self.ev(e.args[0], st, fr), self.ev(e.args[1], st, fr))
        if name == '__seq__':       # comma / block expression
            v = g.const(None)
            for a in e.args:
                v = self.ev(a, st, fr)
            return v
        if name == '__recref__':
            return g.mk('ref', self.ev(e.args[0], st, fr), self.ev(e.args[1], st, fr), tag='recref')
        if name == '__recnew__':
            r = self.alloc('rec', [])
            r = g.mk('ref', r, g.const(0), tag='recref')
            if e.args:
                self.reccopy(st, r, self.ev(e.args[0], st, fr))
            return r
        if name == '__new__':
            a = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else ''
            if 'array' in str(a) or 'map' in str(a) or 'dict' in str(a):
                return self.alloc('array', [])
            return g.mk('list') if 'vector' in str(a) or 'list' in str(a) else self.alloc('obj', [])
        if name in ('__dyn__', '__get__'):
            return self.ev(e.args[0], st, fr)
        if name == 'dict' and len(e.args) == 1 and isinstance(e.args[0], (ast.Call, ast.Dict)):
            return self.ev(e.args[0], st, fr)
        if name == '__set__':       # assignment used as an expression
            v = self.ev(e.args[1], st, fr)
            self.assign(e.args[0], v, st, fr)
            return v
        # --- resolve the callee
        target, recv, kind = self.resolve(f, name, st, fr)
        self.calls.add(name or '<dynamic>')
        if target is not None and self.should_inline(target, name):
            return self.inline(target, recv, kind, e, st, fr)
        # --- opaque call
        recvn = None
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st, fr)
            if not (b.op == 'const' and isinstance(b.args[0], tuple) and b.args[0][0] in ('module', 'modattr')):
                recvn = b
        elif not isinstance(f, ast.Name):
            fn = self.ev(f, st, fr)
            if fn.op == 'const' and isinstance(fn.args[0], tuple) and fn.args[0][0] == 'closure':
                return self.call_closure(fn.args[0][1], e, st, fr)
            recvn = fn
            name = 'dyncall'
        elif f.id in st.loc:
            recvn = st.loc[f.id]
            name = 'dyncall'
            fnode = recvn
            # bound method / function value held in a variable
            if fnode.op == 'load' and fnode.args[2].op == 'const' and isinstance(fnode.args[2].args[0], str):
                nm = fnode.args[2].args[0]
                if nm in self.w.by_name or nm in self.cfg.known:
                    name = nm
                    recvn = fnode.args[1]
            elif fnode.op == 'const' and isinstance(fnode.args[0], tuple) and fnode.args[0][0] in ('global', 'modattr'):
                name = fnode.args[0][-1]
                recvn = None
        args, kws = self.args_of(e, st, fr)
        args, kws = self.bind_canonical(name, target, recvn, args, kws, fr)
        return self.opaque(name, recvn, args, kws, st, discard)

    def args_of(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if v.op in ('tuple', 'list'):
                    args.extend(v.args)
                else:
                    args.append(self.g.mk('uf', 'star', v))
            else:
                args.append(self.ev(a, st, fr))
        kws = {}
        for k in e.keywords:
            kws[k.arg or '**'] = self.ev(k.value, st, fr)
        return args, kws

    def resolve(self, f, name, st, fr):
        w = self.w
        if isinstance(f, ast.Name):
            if f.id in st.loc:
                return None, None, None
            m = w.modules.get(fr.module)
            if m and f.id in m.funcs:
                return m.funcs[f.id], None, 'func'
            if m and f.id in m.imports and m.imports[f.id][0] == 'from':
                mod = m.imports[f.id][1]
                if mod in w.modules and m.imports[f.id][2] in w.modules[mod].funcs:
                    return w.modules[mod].funcs[m.imports[f.id][2]], None, 'func'
            if name in w.by_name and len(w.by_name[name]) == 1 and w.by_name[name][0].cls is None and (m is None or f.id not in m.imports):
                return w.by_name[name][0], None, 'func'
            return None, None, None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id == fr.selfname and fr.cls:
                t = w.method(fr.cls, name)
                if t:
                    return t, v, 'method'
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and fr.cls:
                m, e = w.find_class(fr.cls)
                for b in (e['bases'] if e else []):
                    t = w.method(b, name)
                    if t:
                        return t, ast.Name(id=fr.selfname, ctx=ast.Load()), 'method'
            if isinstance(v, ast.Name) and v.id not in st.loc:
                cn = v.id
                m = w.modules.get(fr.module)
                if m and cn in m.imports:
                    imp = m.imports[cn]
                    if imp[0] == 'from':
                        cn = imp[2]
                    elif imp[1] in w.modules and name in w.modules[imp[1]].funcs:
                        return w.modules[imp[1]].funcs[name], None, 'func'
                    elif imp[1] not in w.modules:
                        return None, None, None
                t = w.method(cn, name)
                if t:
                    return t, None, 'unbound'
            if isinstance(v, ast.Name) and v.id in st.loc and st.loc[v.id].id in self.recv:
                t = w.method(self.recv[st.loc[v.id].id], name)
                if t:
                    return t, v, 'method'
            c = w.by_name.get(name, [])
            c = [x for x in c if x.cls is not None]
            if c and self.cfg.rec_cls and all(x.cls.startswith('Pstruct<') for x in c):
                c = [x for x in c if x.cls == self.cfg.rec_cls]
            if len(c) == 1:
                return c[0], v, 'method'
            if c:
                ps = {tuple(x.params) for x in c}
                if len(ps) == 1 and name in self.cfg.known and name not in self.cfg.inline:
                    return c[0], v, 'method'
        return None, None, None

    def should_inline(self, target, name):
        if self.depth > 12:
            return False
        if any(q == target.qual() and f == target.file for f, q in self.stack) :
            return False
        if name in self.cfg.inline or target.qual() in self.cfg.inline:
            return True
        if name in self.cfg.known:
            return False
        return True

    def call_closure(self, idx, e, st, fr):
        node, fr0, env = self.closures[idx]
        args, kws = self.args_of(e, st, fr)
        if isinstance(node, ast.Lambda):
            ps = [a.arg for a in node.args.args]
            loc = dict(st.loc if fr0 is fr else env)
            for p, a in zip(ps, args):
                loc[p] = a
            loc.update(kws)
            s2 = State(loc, st.heap, st.tr)
            v = self.ev(node.body, s2, fr0)
            st.heap, st.tr = s2.heap, s2.tr
            return v
        from .world import Func
        t = Func(node.name, node, fr0.module, None, self.stack[-1][0])
        own = {a.arg for a in node.args.args} | {y for q in node.body for x in ast.walk(q) for y in targets_of(x)}
        back = sorted({n for x in node.body if isinstance(x, ast.Nonlocal) for n in x.names} | (appended(node.body) - own))
        if back and fr0 is not fr:
            raise Undecided('nonlocal closure called from another function')
        base = dict(st.loc if fr0 is fr else env)
        return self.do_inline(t, args, kws, st, Frame(t, fr0.cls, fr0.module, fr0.selfname), base, fr, back)

    def inline(self, target, recv, kind, e, st, fr):
        args, kws = self.args_of(e, st, fr)
        if kind == 'method' and not target.static:
            rn = self.ev(recv, st, fr)
            args = [rn] + args
        nf = Frame(target, target.cls if kind != 'method' or not (isinstance(recv, ast.Name) and recv.id == fr.selfname) else (fr.cls or target.cls),
                   target.module, None)
        if target.cls and not target.static and target.params:
            nf.selfname = target.params[0]
        refs = [r for r in getattr(target.node, 'refparams', ()) if r in target.params]
        if not refs:
            return self.do_inline(target, args, kws, st, nf, {}, fr)
        # scalars and lists passed by reference: what the callee assigned is assigned to the argument
        loc = st.loc
        v = self.do_inline(target, args, kws, st, nf, {}, fr, refs)
        new = st.loc
        st.loc = loc
        off = len(args) - len(e.args)
        for r in refs:
            i = target.params.index(r)
            if i < len(args) and r in new and new[r] is not args[i] and 0 <= i - off < len(e.args):
                a = e.args[i - off]
                if not isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                    raise Undecided('reference argument')
                self.assign(a, new[r], st, fr)
        return v

    def do_inline(self, target, args, kws, st, nf, base, fr, back=()):
        g = self.g
        self.inlined.add(target.qual())
        loc = dict(base)
        ps = target.params
        dfl = target.defaults()
        for i, p in enumerate(ps):
            if i < len(args):
                loc[p] = args[i]
            elif p in kws:
                loc[p] = kws[p]
            elif p in dfl:
                loc[p] = self.ev(dfl[p], State(), Frame(None, None, target.module, None))
            else:
                loc[p] = self.undef()
        va = target.node.args
        if va.vararg:
            loc[va.vararg.arg] = g.mk('tuple', *args[len(ps):])
        for a in va.kwonlyargs:
            loc[a.arg] = kws.get(a.arg) or (self.ev(dfl[a.arg], State(), Frame(None, None, target.module, None)) if a.arg in dfl else self.undef())
        if va.kwarg:
            loc[va.kwarg.arg] = g.mk('sym', 'kwargs')
        s2 = State(loc, dict(st.heap), dict(st.tr))
        self.depth += 1
        cur = g.cur
        try:
            comps = self.body(target, nf, s2)
        finally:
            self.depth -= 1
            g.cur = cur
        rets = [c for c in comps if c[0] == 'return']
        bad = [c for c in comps if c[0] == 'raise']
        for k, c, s3, v in bad:
            s4 = State(st.loc, s3.heap, s3.tr)
            self.pending.append((c, s4))
        if not rets:
            self.pending.append((g.TRUE, st.copy()))
            return self.undef()
        k, c, s3, v = rets[-1]
        heap, tr, val = s3.heap, s3.tr, v
        keep = lambda x: {n: x.loc[n] for n in back if n in x.loc}
        cur_st = State(keep(s3), heap, tr)
        for k, c, s4, v2 in reversed(rets[:-1]):
            cur_st = self.merge(c, State(keep(s4), s4.heap, s4.tr), cur_st)
            val = self.jn(c, v2, val)
        st.heap, st.tr = cur_st.heap, cur_st.tr
        if back:
            st.loc = dict(st.loc)
            st.loc.update(cur_st.loc)
        # parameter lists mutated in place by the callee (append) keep flowing through names
        return val

    def bind_canonical(self, name, target, recvn, args, kws, fr):
        """positional/keyword/default normalisation against a known signature"""
        g = self.g
        cands = [target] if target is not None and self.sw is self.w else [x for x in self.sw.by_name.get(name or '', [])]
        sigs = {tuple(c.params) for c in cands}
        sig = self.cfg.effects.get(name, {}).get('sig')
        if sig is None and len(sigs) == 1 and cands:
            c = cands[0]
            ps = c.params
            if c.cls and not c.static and ps and recvn is not None:
                ps = ps[1:]
            dfl = c.defaults()
        elif sig is not None:
            ps = [p[0] if isinstance(p, tuple) else p for p in sig]
            dfl = {p[0]: ast.Constant(value=p[1]) for p in sig if isinstance(p, tuple)}
        else:
            return args, kws
        out = list(args)
        rest = dict(kws)
        for p in ps[len(args):]:
            if p in rest:
                out.append(rest.pop(p))
            elif p in dfl:
                try:
                    out.append(self.ev(dfl[p], State(), Frame(None, None, fr.module, None)))
                except Undecided:
                    out.append(g.const(None))
            else:
                return args, kws
        return out, rest

    def content(self, st, a):
        """argument value together with the current contents of the object it refers to"""
        g = self.g
        if a.op == 'const' and not isinstance(a.args[0], tuple):
            return a
        if a.op in ('tuple', 'list'):
            return g.mk(a.op, *[self.content(st, x) for x in a.args])
        if a.op == 'ite':
            pass
        parts = []
        if a.tag in ('rec', 'recref') or a.op == 'ref':
            parts = ['fld:' + f for f in self.cfg.fields]
        else:
            parts = [self.part_of(a)]
            if a.op == 'alloc':
                parts += [p for p in st.heap if p.startswith('fld:')]
        hs = [st.heap[p] for p in parts if p in st.heap]
        if not hs:
            return a
        return g.mk('content', a, *hs, tag=a.tag)

    def opaque(self, name, recvn, args, kws, st, discard):
        g = self.g
        name = CANON.get(name, name)
        if name in ALLOC and name not in self.cfg.known:
            av = args + [kws[k] for k in sorted(kws)]
            return self.alloc(name, [self.content(st, a) if a.op == 'alloc' and a.args[0] == 'dict' else a for a in av])
        spec = self.cfg.effects.get(name, {})
        if name in self.cfg.const_calls:
            return g.const(self.cfg.const_calls[name])
        if name == 'isinstance' and len(args) == 2:
            return g.truth(g.mk('uf', 'isinstance', *args))
        if name in ('subtract', 'add', 'multiply', 'divide', 'true_divide') and len(args) == 2 and not kws and name not in self.cfg.known and recvn is None:
            return g.arith({'subtract': 'sub', 'add': 'add', 'multiply': 'mul'}.get(name, 'div'), *args)
        if name == 'dot' and self.cfg.dot_dim and len(args) == 2 and not kws and recvn is None:
            r = None
            for i in range(self.cfg.dot_dim):
                t = g.arith('mul', self.load(st, args[0], g.const(i)), self.load(st, args[1], g.const(i)))
                r = t if r is None else g.arith('add', r, t)
            return r
        if name == 'bool' and len(args) == 1 and not kws and recvn is None:
            return g.truth(args[0])
        if name in ('list', 'tuple') and not args and not kws and recvn is None:
            return g.mk(name)
        if name == 'setattr' and len(args) == 3 and recvn is None and not kws and args[1].op == 'const' and isinstance(args[1].args[0], str):
            self.store(st, args[0], args[1], args[2], 'attr')
            return g.const(None)
        if name == 'getattr' and len(args) == 2 and recvn is None and not kws and args[1].op == 'const' and isinstance(args[1].args[0], str):
            return self.load(st, args[0], args[1], 'attr')
        if name == 'divmod' and len(args) == 2:
            return g.mk('tuple', g.arith('fdiv', *args), g.arith('mod', *args))
        if name == 'len' and len(args) == 1:
            return self.length(args[0])
        if name == 'dict' and not args:
            return self.alloc('dict', [])
        if name in ('list', 'tuple') and len(args) == 1 and args[0].op in ('list', 'tuple'):
            return g.mk(name, *args[0].args)
        if name == 'float' and len(args) == 1 and not (args[0].op == 'const'):
            return args[0]
        cargs = [self.content(st, a) for a in args]
        ckws = []
        for k in sorted(kws):
            ckws += [g.const('kw:' + k), self.content(st, kws[k])]
        rc = [recvn] if recvn is not None else []
        if recvn is not None:
            rc = [self.content(st, recvn)]
        reads = []
        for attrpath in spec.get('reads', ()):
            o = recvn
            for a in attrpath.split('.'):
                o = self.load(st, o, g.const(a), 'attr')
            reads.append(self.content(st, o))
        allargs = rc + cargs + ckws + reads
        pure = spec.get('pure')
        if pure is None:
            if name in self.cfg.pure_stmt:
                pure = True
            elif name in self.sw.by_name:
                pure = self.infer_pure(name)
            elif name == 'dyncall' or name in IMPURE:
                pure = False
            else:
                pure = not discard
        ch = spec.get('channel')
        uop = 'ufo' if recvn is not None else 'uf'
        tag = spec.get('tag')
        if pure:
            if ch is not None:
                return g.mk(uop, name, *(allargs + [g.mk('chan', self.trc(st, ch))]), tag=tag)
            return g.mk(uop, name, *allargs, tag=tag)
        self.effect(st, name, allargs, ch, recvn)
        t = self.trc(st, ch or '')
        res = g.mk('uf', name, g.mk('chan', t, *( [recvn] if recvn is not None and not ch else [])), tag=tag)
        for idx, what in spec.get('modifies', ()):
            obj = recvn if idx == 'self' else (args[idx] if idx < len(args) else None)
            if isinstance(what, str) and what.startswith('path:'):
                obj = recvn
                for a in what[5:].split('.'):
                    obj = self.load(st, obj, g.const(a), 'attr')
                what = ['elem']
            if obj is None:
                continue
            for p in what:
                if p == 'struct':
                    A = self.struct_root(obj)
                    if A is not None:
                        for f in self.cfg.struct_fields:
                            pt = 'fld:%s@%s' % (f, A.tag)
                            st.heap[pt] = g.mk('hhavoc', self.hp(st, pt), A, res)
                    continue
                parts = ['fld:' + f for f in self.cfg.fields] if p == 'fld' else ([self.part_of(obj)] if p == 'elem' else [p])
                for pt in parts:
                    if pt in self.promo:
                        raise PromoFail(pt)
                    st.heap[pt] = g.mk('hhavoc', self.hp(st, pt), obj, res)
        return res

    def effect(self, st, name, args, ch, recvn=None):
        g = self.g
        t = g.mk('teff', self.trc(st, ''), name, recvn is not None, *(([recvn] if recvn is not None else []) + args))
        st.tr[''] = t
        self.writes.setdefault('trace', set()).add(g.cur)
        if ch:
            st.tr[ch] = g.mk('teff', self.trc(st, ch), name, False, *args)

    # -------------------------------------------------------------------- purity inference
    def infer_pure(self, name, seen=None):
        memo = self.sw.__dict__.setdefault('_pure', {})
        if name in memo:
            return memo[name]
        seen = seen or set()
        if name in seen:
            return True
        seen = seen | {name}
        r = True
        for f in self.sw.by_name.get(name, []):
            if not self._pure_body(f, seen):
                r = False
                break
        memo[name] = r
        return r

    def _pure_body(self, f, seen):
        local = set()
        params = set(f.params)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, (ast.List, ast.Dict, ast.Tuple, ast.ListComp, ast.DictComp, ast.Set)) or \
                                (isinstance(n.value, ast.Call) and (getattr(n.value.func, 'attr', None) or getattr(n.value.func, 'id', None)) in
                                 ALLOC | {'array', 'copy', 'list', 'tuple', 'set'}):
                            local.add(t.id)
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if not (isinstance(b, ast.Name) and b.id in local):
                    return False
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                fn = n.value.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
                if nm in IGNORED or nm in ERRORS:
                    continue
                if nm == 'append' and isinstance(fn.value, ast.Name) and fn.value.id in local:
                    continue
                if nm in self.sw.by_name:
                    if self.infer_pure(nm, seen):
                        continue
                return False
            if isinstance(n, ast.Call):
                fn = n.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
                if nm in self.sw.by_name and not self.infer_pure(nm, seen):
                    return False
            if isinstance(n, ast.Global):
                return False
        return True


class _R:
    pass


RAISE = _R()
