#!/usr/bin/env python3
"""developer tool: behaviour-preserving rewrites of the Python sources of a copy of the repository.
usage: refactor.py SRC_REPO DST_REPO KIND"""
import ast
import os
import shutil
import sys


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class InvertIf(ast.NodeTransformer):
    """if a: X else: Y -> if not a: Y else: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        nested = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f]
        if nested:
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        glob = {g for x in ast.walk(f) if isinstance(x, ast.Global) for g in x.names}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - glob
        imp = {a.asname or a.name for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        loc -= imp

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in loc:
                    n.id = 'zz_' + n.id
                return n
        for s in f.body:
            R().visit(s)
        return f


class Temps(ast.NodeTransformer):
    """x = f(expr) -> t = expr; x = f(t) for the first argument of calls in simple assignments"""
    k = 0

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.Call) and v.args and not isinstance(v.args[0], (ast.Constant, ast.Name, ast.Starred)) and isinstance(v.func, (ast.Name, ast.Attribute)):
            Temps.k += 1
            t = 'tmp_%d' % Temps.k
            a = ast.Assign([ast.Name(t, ast.Store())], v.args[0], lineno=n.lineno)
            v.args[0] = ast.Name(t, ast.Load())
            return [a, n]
        if isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Subscript)):
            Temps.k += 1
            t = 'tmp_%d' % Temps.k
            a = ast.Assign([ast.Name(t, ast.Store())], v.left, lineno=n.lineno)
            v.left = ast.Name(t, ast.Load())
            return [a, n]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, ast.FunctionDef) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


class RangeWhile(ast.NodeTransformer):
    """for i in range(n): body -> i = 0 ... while"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and len(it.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse:
            if any(isinstance(x, (ast.Continue,)) for x in ast.walk(n)):
                return n
            RangeWhile.k += 1
            c, m = 'ctr_%d' % RangeWhile.k, 'cmax_%d' % RangeWhile.k
            pre = ast.parse('%s = 0\n%s = 0' % (c, m)).body
            pre[1].value = it.args[0]
            pre[1], pre[0] = pre[0], pre[1]
            w = ast.parse('while %s < %s:\n    %s = %s\n' % (c, m, n.target.id, c)).body[0]
            w.body += n.body
            w.body += ast.parse('%s += 1' % c).body
            return pre + [w]
        return n


class RangeIndex(ast.NodeTransformer):
    """for x in name: -> for i in range(len(name)): x = name[i]   (only on lists known by `for .. in range` never; names/attributes only when iterated collection looks like a sequence)"""


class CompToLoop(ast.NodeTransformer):
    """x = [e for v in it] -> loop with append (simple name targets)"""
    k = 0

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1:
            g = v.generators[0]
            CompToLoop.k += 1
            t = 'lst_%d' % CompToLoop.k
            m = {x.id: 'cv%d_%s' % (CompToLoop.k, x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            class R(ast.NodeTransformer):
                def visit_Name(self, q):
                    q.id = m.get(q.id, q.id)
                    return q
            app = ast.parse('%s.append(0)' % t).body[0]
            app.value.args[0] = R().visit(v.elt)
            body = [app]
            for c in g.ifs:
                body = [ast.If(R().visit(c), body, [])]
            lp = ast.For(R().visit(g.target), g.iter, body, [], lineno=n.lineno)
            return [ast.parse('%s = []' % t).body[0], lp, ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=n.lineno)]
        return n

    visit_ClassDef = Temps.visit_ClassDef
    visit_Module = Temps.visit_Module


class Guard(ast.NodeTransformer):
    """loop body ending in a single if without else -> if not c: continue; ..."""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body.pop()
            n.body.append(ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], []))
            n.body += i.body
        return n
    visit_While = visit_For


class AugSplit(ast.NodeTransformer):
    """self.x += e / n += e with a plain-number looking right side -> x = x + e"""
    def visit_AugAssign(self, n):
        import copy
        if isinstance(n.value, ast.Constant) and isinstance(n.target, (ast.Name, ast.Attribute)):
            l = copy.deepcopy(n.target)
            l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value), lineno=n.lineno)
        return n


class SwapCompare(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class ElifNest(ast.NodeTransformer):
    """and -> nested ifs"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            a = n.test.values
            inner = ast.If(a[-1] if len(a) == 2 else ast.BoolOp(ast.And(), a[1:]), n.body, [])
            return ast.If(a[0], [inner], [])
        return n


class RetTemp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name('result_value', ast.Store())], n.value, lineno=n.lineno), ast.Return(ast.Name('result_value', ast.Load()))]
        return n


class IfExp(ast.NodeTransformer):
    """if c: x = a else: x = b -> x = a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(s, ast.Assign) and len(s.targets) == 1 for s in (n.body[0], n.orelse[0])) \
                and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value), lineno=n.lineno)
        return n


class AliasSelf(ast.NodeTransformer):
    """cache self.attr read in a local at function start?  here: split tuple assigns a, b = c, d (constants)"""
    def visit_Assign(self, n):
        return n


class Keys(ast.NodeTransformer):
    """x in d.keys() <-> x in d ; for k in d.keys() <-> for k in d; for k, v in d.items() -> for k in d: v = d[k]"""
    def visit_Call(self, n):
        self.generic_visit(n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        for i, c in enumerate(n.comparators):
            if isinstance(n.ops[i], (ast.In, ast.NotIn)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys':
                n.comparators[i] = c.func.value
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys':
            n.iter = c.func.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('items', 'iteritems') and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            k, v = n.target.elts
            n.iter = c.func.value
            n.target = k
            n.body.insert(0, ast.Assign([v], ast.Subscript(c.func.value, ast.Name(k.id, ast.Load()), ast.Load()), lineno=n.lineno))
        return n


class Extract(ast.NodeTransformer):
    """move the body of every innermost for loop / long if-body into a new method (when it neither returns, breaks nor rebinds names read later)"""
    k = 0

    def __init__(self):
        self.new = []

    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == 'self' and not f.decorator_list:
                self.new = []
                self.func = f
                f.body = [self.visit(s) for s in f.body]
                out.append(f)
                out += self.new
            else:
                out.append(f)
        c.body = out
        return c

    def visit_FunctionDef(self, f):
        return f

    def block(self, body):
        if len(body) < 2:
            return body
        bad = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Global, ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.Raise)
        if any(isinstance(x, bad) for s in body for x in ast.walk(s)):
            return body
        src = '\n'.join(ast.unparse(s) for s in body)
        if 'sys._getframe' in src or 'super(' in src or '__class__' in src:
            return body
        stored = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        ids = {id(x) for s in body for x in ast.walk(s)}
        outside = {x.id for x in ast.walk(self.func) if isinstance(x, ast.Name) and id(x) not in ids}
        if stored & outside:
            return body
        params = {a.arg for a in self.func.args.args + self.func.args.kwonlyargs}
        loc = {x.id for x in ast.walk(self.func) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | params
        # names bound by comprehension only are not locals of the function
        reads = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name)}
        if stored & reads and any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in stored for s in body for x in ast.walk(s)):
            pass
        comp = {x.id for s in body for g in ast.walk(s) if isinstance(g, ast.comprehension) for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        args = sorted((reads & loc) - stored - comp - {'self'})
        Extract.k += 1
        nm = '_part_%d' % Extract.k
        fn = ast.parse('def %s(self%s):\n    pass' % (nm, ''.join(', ' + a for a in args))).body[0]
        fn.body = body
        self.new.append(fn)
        return [ast.parse('self.%s(%s)' % (nm, ', '.join(args))).body[0]]

    def visit_For(self, n):
        if any(isinstance(x, (ast.For, ast.While)) for s in n.body for x in ast.walk(s)):
            n.body = [self.visit(s) for s in n.body]
            return n
        n.body = self.block(n.body)
        return n

    visit_While = visit_For

    def visit_If(self, n):
        n.body = self.block(n.body) if not any(isinstance(x, (ast.For, ast.While)) for s in n.body for x in ast.walk(s)) else [self.visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n


class Unused(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body.insert(1 if len(f.body) > 1 else 0, ast.parse('_unused_value = 0').body[0])
        return f


class Swap(ast.NodeTransformer):
    """swap adjacent simple assignments to different plain names with call-free right sides not using each other"""
    def blk(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and not any(isinstance(q, ast.Call) for q in ast.walk(s)) for s in (x, y)):
                tx, ty = ast.unparse(x.targets[0]), ast.unparse(y.targets[0])
                if tx != ty and tx not in ast.unparse(y) and ty not in ast.unparse(x) and '[' not in tx + ty and not tx.startswith(ty) and not ty.startswith(tx):
                    b[i], b[i + 1] = y, x
                    i += 2
                    continue
            i += 1

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse'):
            if isinstance(getattr(n, k, None), list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                self.blk(getattr(n, k))
        return n


class _Stmts(ast.NodeTransformer):
    visit_ClassDef = Temps.visit_ClassDef
    visit_Module = Temps.visit_Module


class DictLoop(_Stmts):
    """x = dict((k, v) for ..) / {k: v for ..} -> x = {}; for ..: x[k] = v"""
    k = 0

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(v.args[0].elt, ast.Tuple):
            key, val, gens = v.args[0].elt.elts[0], v.args[0].elt.elts[1], v.args[0].generators
        elif isinstance(v, ast.DictComp):
            key, val, gens = v.key, v.value, v.generators
        else:
            return n
        if len(gens) != 1:
            return n
        g = gens[0]
        DictLoop.k += 1
        m = {x.id: 'dv%d_%s' % (DictLoop.k, x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        class R(ast.NodeTransformer):
            def visit_Name(self, q):
                q.id = m.get(q.id, q.id)
                return q
        t = 'dct_%d' % DictLoop.k
        body = [ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), R().visit(key), ast.Store())], R().visit(val), lineno=n.lineno)]
        for c in g.ifs:
            body = [ast.If(R().visit(c), body, [])]
        return [ast.parse('%s = {}' % t).body[0], ast.For(R().visit(g.target), g.iter, body, [], lineno=n.lineno), ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=n.lineno)]


class LoopComp(ast.NodeTransformer):
    """x = []; for v in it: x.append(e) -> x = [e for v in it]  (x a name or attribute; also the dict form)"""
    def blk(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(y, ast.For) and not y.orelse and len(y.body) == 1:
                t = ast.unparse(x.targets[0])
                z, ifs = y.body[0], []
                while isinstance(z, ast.If) and not z.orelse and len(z.body) == 1:
                    ifs.append(z.test)
                    z = z.body[0]
                if isinstance(x.value, ast.List) and not x.value.elts and isinstance(z, ast.Expr) and isinstance(z.value, ast.Call) and isinstance(z.value.func, ast.Attribute) and z.value.func.attr == 'append' and ast.unparse(z.value.func.value) == t:
                    x.value = ast.ListComp(z.value.args[0], [ast.comprehension(y.target, y.iter, ifs, 0)])
                    del b[i + 1]
                    continue
                if isinstance(z, ast.Assign) and isinstance(z.targets[0], ast.Subscript) and ast.unparse(z.targets[0].value) == t and ast.unparse(x.value) in ('{}', 'dict()'):
                    x.value = ast.DictComp(z.targets[0].slice, z.value, [ast.comprehension(y.target, y.iter, ifs, 0)])
                    del b[i + 1]
                    continue
            i += 1

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse'):
            if isinstance(getattr(n, k, None), list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                self.blk(getattr(n, k))
        return n


class CacheSelf(ast.NodeTransformer):
    """reads of self.a, when a is assigned only in __init__ methods of the whole file and never called, through a local bound at function start"""
    def visit_Module(self, m):
        assigned = set()
        for f in ast.walk(m):
            if isinstance(f, ast.FunctionDef) and f.name != '__init__':
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        assigned.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        assigned.add(x.func.attr)
        init = {x.attr for f in ast.walk(m) if isinstance(f, ast.FunctionDef) and f.name == '__init__' for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        ok = init - assigned
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name != '__init__' and f.args.args and f.args.args[0].arg == 'self':
                        used = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load)} & ok
                        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f for x in ast.walk(f)):
                            continue

                        class R(ast.NodeTransformer):
                            def visit_Attribute(self, q):
                                if isinstance(q.value, ast.Name) and q.value.id == 'self' and q.attr in used:
                                    return ast.Name('my_' + q.attr, ast.Load())
                                self.generic_visit(q)
                                return q
                        d = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                        f.body = [R().visit(s) for s in f.body]
                        f.body[d:d] = [ast.parse('my_%s = self.%s' % (a, a)).body[0] for a in sorted(used)]
        return m


class InlineTemp(ast.NodeTransformer):
    """t = e; stmt using t once and nothing else uses t -> stmt with e (e without calls)"""
    def visit_FunctionDef(self, f):
        cnt = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                cnt.setdefault(x.id, []).append(type(x.ctx))

        def blk(b):
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and len(x.targets) == 1 and isinstance(y, (ast.Assign, ast.Expr, ast.Return)) \
                        and len(cnt.get(x.targets[0].id, ())) == 2 and sum(isinstance(q, ast.Name) and q.id == x.targets[0].id and isinstance(q.ctx, ast.Load) for q in ast.walk(y)) == 1 \
                        and not any(isinstance(q, (ast.Call, ast.Lambda)) for q in ast.walk(x.value)) and not any(isinstance(q, (ast.ListComp, ast.GeneratorExp)) for q in ast.walk(y)):
                    t = x.targets[0].id

                    class R(ast.NodeTransformer):
                        def visit_Name(self, q):
                            return x.value if q.id == t and isinstance(q.ctx, ast.Load) else q
                    b[i + 1] = R().visit(y)
                    del b[i]
                    continue
                i += 1
        for n in ast.walk(f):
            for k in ('body', 'orelse'):
                if isinstance(getattr(n, k, None), list):
                    blk(getattr(n, k))
        return f


class Unpack(_Stmts):
    """a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    k = 0

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and all(isinstance(x, ast.Name) for x in n.targets[0].elts):
            Unpack.k += 1
            t = 'tup_%d' % Unpack.k
            r = [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=n.lineno)]
            for i, x in enumerate(n.targets[0].elts):
                r.append(ast.Assign([x], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load()), lineno=n.lineno))
            return r
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))

    def visit_If(self, n):
        self.generic_visit(n)
        return n


class Commute(ast.NodeTransformer):
    """a*b -> b*a when neither is a string/list display"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.Constant)) and not isinstance(getattr(x, 'value', 0), (int, float)) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
        return n


class EarlyReturn(ast.NodeTransformer):
    """function ending in if c: X (no else) -> if not c: return; X ; drops trailing bare return"""
    def visit_FunctionDef(self, f):
        if len(f.body) > 1 and isinstance(f.body[-1], ast.Return) and f.body[-1].value is None:
            f.body.pop()
        if isinstance(f.body[-1], ast.If) and not f.body[-1].orelse and len(f.body) > 1:
            i = f.body.pop()
            f.body.append(ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Return(None)], []))
            f.body += i.body
        return f


class Counter(ast.NodeTransformer):
    """for x in seq: -> for k, x in enumerate(seq)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'enumerate')):
            Counter.k += 1
            n.target = ast.Tuple([ast.Name('ek_%d' % Counter.k, ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
        return n


class EnumRange(ast.NodeTransformer):
    """for i, x in enumerate(s): -> i = -1-style manual counter"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1:
            i = n.target.elts[0].id
            n.body.insert(0, ast.parse('%s += 1' % i).body[0])
            n.target = n.target.elts[1]
            n.iter = n.iter.args[0]
            return [ast.parse('%s = -1' % i).body[0], n]
        return n


class SubAttr(ast.NodeTransformer):
    """x op= y on subscripts -> x = x op y when y is a plain name/const (element of array or dict)"""
    def visit_AugAssign(self, n):
        import copy
        if isinstance(n.target, ast.Subscript) and not any(isinstance(q, (ast.Call, ast.Slice)) for q in ast.walk(n.target)):
            l = copy.deepcopy(n.target)
            l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value), lineno=n.lineno)
        return n


class Helper(ast.NodeTransformer):
    """every arithmetic right-hand side of names/attributes becomes a call of a module-level helper"""
    k = 0

    def __init__(self):
        self.new = []

    def visit_Module(self, m):
        self.generic_visit(m)
        i = 0
        for i, s in enumerate(m.body):
            if isinstance(s, ast.ClassDef):
                break
        m.body[i:i] = self.new
        return m

    def visit_FunctionDef(self, f):
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args}
        self.loc = loc
        self.infn = True
        self.generic_visit(f)
        self.infn = False
        return f

    infn = False

    def visit_Assign(self, n):
        v = n.value
        if self.infn and isinstance(v, ast.BinOp) and not isinstance(v.op, ast.Mod) and not any(isinstance(x, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.List, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) and not x.value.isalnum() for x in ast.walk(v)):
            names = sorted({x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & self.loc)
            Helper.k += 1
            h = '_value_%d' % Helper.k
            fn = ast.parse('def %s(%s):\n    return 0' % (h, ', '.join(names))).body[0]
            fn.body[0].value = v
            self.new.append(fn)
            n.value = ast.parse('%s(%s)' % (h, ', '.join(names))).body[0].value
        return n


class DictGet(ast.NodeTransformer):
    """if k in d: x = d[k] else: x = e -> x = d.get(k, e)"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In) and len(n.body) == 1 and len(n.orelse) == 1 and all(isinstance(q, ast.Assign) for q in (n.body[0], n.orelse[0])):
            v = n.body[0].value
            if ast.unparse(n.body[0].targets[0]) == ast.unparse(n.orelse[0].targets[0]) and isinstance(v, ast.Subscript) and ast.unparse(v.value) == ast.unparse(t.comparators[0]).replace('.keys()', '') and ast.unparse(v.slice) == ast.unparse(t.left):
                return ast.Assign(n.body[0].targets, ast.Call(ast.Attribute(v.value, 'get', ast.Load()), [t.left, n.orelse[0].value], []), lineno=n.lineno)
        return n


class NotLen(ast.NodeTransformer):
    """len(x) == 0 <-> not len(x); is True -> plain; == False -> not"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant):
            c = n.comparators[0].value
            if c is True and isinstance(n.ops[0], (ast.Is, ast.Eq)):
                return ast.Call(ast.Name('bool', ast.Load()), [n.left], [])
            if c is False and isinstance(n.ops[0], (ast.Is, ast.Eq)):
                return ast.UnaryOp(ast.Not(), n.left)
            if c == 0 and type(c) is int and isinstance(n.ops[0], ast.Eq) and isinstance(n.left, ast.Call):
                return ast.UnaryOp(ast.Not(), n.left)
            if c == 0 and type(c) is int and isinstance(n.ops[0], ast.NotEq) and isinstance(n.left, (ast.BinOp, ast.Call)):
                return ast.Call(ast.Name('bool', ast.Load()), [n.left], [])
        return n


class Pow(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'sqrt':
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n


class FStr(ast.NodeTransformer):
    """'a' + b + 'c' -> f-string (names/attributes/str constants with at least one str constant)"""
    def flat(self, n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return self.flat(n.left) + self.flat(n.right)
        return [n]

    def visit_BinOp(self, n):
        f = self.flat(n)
        if len(f) > 1 and all(isinstance(x, (ast.Name, ast.Attribute)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in f) and any(isinstance(x, ast.Constant) for x in f):
            return ast.JoinedStr([x if isinstance(x, ast.Constant) else ast.FormattedValue(x, -1) for x in f])
        self.generic_visit(n)
        return n


class Forever(ast.NodeTransformer):
    """while c: B -> while True: if not c: break; B"""
    def visit_While(self, n):
        self.generic_visit(n)
        if not n.orelse:
            n.body.insert(0, ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []))
            n.test = ast.Constant(True)
        return n


class Nested(ast.NodeTransformer):
    """the last for loop body of each function becomes a nested function without parameters other than the loop variables"""
    def visit_FunctionDef(self, f):
        loops = [s for s in f.body if isinstance(s, ast.For)]
        if not loops:
            return f
        n = loops[-1]
        bad = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Global, ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.ListComp, ast.GeneratorExp, ast.DictComp)
        if any(isinstance(x, bad) for s in n.body for x in ast.walk(s)):
            return f
        stored = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        tg = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        ids = {id(x) for s in n.body for x in ast.walk(s)}
        outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in ids} | {a.arg for a in f.args.args}
        if set(tg) & stored:
            return f
        nl = sorted(stored & outside)
        d = ast.parse('def inner_step(%s):\n    pass' % ', '.join(tg)).body[0]
        bound = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in ids} | {a.arg for a in f.args.args}
        if not set(nl) <= bound:
            return f
        d.body = ([ast.Nonlocal(nl)] if nl else []) + n.body
        n.body = [ast.parse('inner_step(%s)' % ', '.join(tg)).body[0]]
        i = f.body.index(n)
        f.body.insert(i, d)
        return f


class Static(Helper):
    """as Helper, for return values and conditions of ifs"""
    def visit_If(self, n):
        self.generic_visit(n)
        v = n.test
        if self.infn and isinstance(v, ast.Compare) and not any(isinstance(x, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(v)):
            names = sorted({x.id for x in ast.walk(v) if isinstance(x, ast.Name)} & self.loc)
            Helper.k += 1
            h = '_test_%d' % Helper.k
            fn = ast.parse('def %s(%s):\n    return 0' % (h, ', '.join(names))).body[0]
            fn.body[0].value = v
            self.new.append(fn)
            n.test = ast.parse('%s(%s)' % (h, ', '.join(names))).body[0].value
        return n


KINDS = dict(invertif=InvertIf, rename=RenameLocals, temps=Temps, rangewhile=RangeWhile, comploop=CompToLoop, guard=Guard, augsplit=AugSplit,
             swapcmp=SwapCompare, nestif=ElifNest, rettemp=RetTemp, ifexp=IfExp, keys=Keys, extract=Extract, unused=Unused, swap=Swap, dictloop=DictLoop, loopcomp=LoopComp, cacheself=CacheSelf, inlinetemp=InlineTemp, unpack=Unpack, demorgan=DeMorgan, commute=Commute,
             earlyreturn=EarlyReturn, counter=Counter, enumrange=EnumRange, subattr=SubAttr, helper=Helper, dictget=DictGet, notlen=NotLen, pow=Pow, fstr=FStr, forever=Forever, nested=Nested, static=Static)

if __name__ == '__main__':
    src, dst, kind = sys.argv[1:]
    if os.path.exists(dst):
        assert dst.startswith('/tmp/')
        shutil.rmtree(dst)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.git', 'docs', '__pycache__'), symlinks=True)
    for f in sorted(os.listdir(dst)):
        if f.endswith('.py') and f not in ('DnTrun1.py', 'UserParticles_2D_H_He_e.py'):
            p = os.path.join(dst, f)
            t = ast.parse(open(p).read())
            if kind != 'none':
                t = KINDS[kind]().visit(t)
            ast.fix_missing_locations(t)
            s = ast.unparse(t)
            ast.parse(s)
            open(p, 'w').write(s + '\n')
