"""Mutable containers made in one place are not stored in two: a flow-sensitive escape lint over the syntax trees."""
import ast
import os
from .base import Rule, Finding, Broken, REPO, PYFILES

NPMAKE = {'zeros', 'empty', 'ones', 'full', 'zeros_like', 'empty_like', 'ones_like', 'array', 'copy'}
FRESH = {'list', 'dict', 'set', 'deque', 'defaultdict', 'OrderedDict', 'bytearray'}
GROW = {'append', 'insert', 'add', 'appendleft'}
MUT = GROW | {'extend', 'update', 'pop', 'remove', 'clear', 'setdefault', 'popitem', 'sort', 'reverse', 'fill'}


def classes(trees):
    return {c.name for t in trees.values() for c in ast.walk(t) if isinstance(c, ast.ClassDef)}


def literal(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in FRESH


def fresh(e, cls):
    """a new mutable object"""
    if literal(e):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if isinstance(f, ast.Attribute) and n in NPMAKE and isinstance(f.value, ast.Name):
            return True
        return n in cls
    return False


def holders(tree):
    """names and attributes that hold a list or dictionary somewhere in the module"""
    out = set()
    for s in ast.walk(tree):
        if isinstance(s, ast.Assign) and literal(s.value):
            for t in s.targets:
                out.add(ast.unparse(t))
    return out


class Walk:
    def __init__(self, cls, hold, report):
        self.cls = cls
        self.hold = hold
        self.report = report
        self.loops = []
        self.path = []
        self.stores = {}        # creation -> [(target text, names, loops, path, node)]
        self.made = {}          # creation -> (loops, node)
        self.sites = 0

    def made_at(self, e):
        k = id(e)
        if k not in self.made:
            self.made[k] = (list(self.loops), e)
        return k

    def value(self, e, env):
        """creations the value may be"""
        if fresh(e, self.cls):
            return {self.made_at(e)}
        if isinstance(e, ast.Name):
            return env.get(e.id, set())
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return env.get(ast.unparse(e), set())
        if isinstance(e, ast.IfExp):
            return self.value(e.body, env) | self.value(e.orelse, env)
        return set()

    def store(self, text, names, vs, node):
        for v in vs:
            self.sites += 1
            self.stores.setdefault(v, []).append((text, names, list(self.loops), list(self.path), node))

    def names(self, e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}

    def target(self, t, vs, env, node):
        if isinstance(t, ast.Name):
            env[t.id] = set(vs)
            for k in [k for k in env if not k.isidentifier() and t.id in self.names(ast.parse(k, mode='eval'))]:
                del env[k]
        elif isinstance(t, ast.Attribute):
            self.store(ast.unparse(t), self.names(t), vs, node)
            self.place(t, vs, env)
        elif isinstance(t, ast.Subscript):
            self.place(t, vs, env)
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if ast.unparse(b) in self.hold and not isinstance(t.slice, ast.Slice):
                self.store(ast.unparse(t), self.names(t), vs, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, set(), env, node)

    def place(self, t, vs, env):
        """what the attribute or item holds until it, or a name in it, is assigned again"""
        x = ast.unparse(t)
        for k in [k for k in env if k.startswith(x + '.') or k.startswith(x + '[')]:
            del env[k]
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Name, ast.Constant, ast.Attribute)):
            return
        env[x] = {v for v in vs if fresh(self.made[v][1], set())}       # containers and arrays only: objects of classes are passed around on purpose

    def exprs(self, s, env):
        """stores made by expressions: container.append(value), {k: value for ...}, [value] * n, dict.fromkeys(keys, value)"""
        for e in ast.walk(s):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                if e.func.attr in GROW and e.args:
                    v = e.args[-1]
                    if isinstance(v, ast.Name):
                        self.store(ast.unparse(e.func.value) + '.' + e.func.attr, None, self.value(v, env), e)
                if e.func.attr == 'fromkeys' and len(e.args) == 2 and (fresh(e.args[1], self.cls) or self.value(e.args[1], env)):
                    self.report(e, 'every key of %s gets the same object' % ast.unparse(e))
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
                for x in (e.left, e.right):
                    if isinstance(x, ast.List) and any(literal(y) or self.value(y, env) for y in x.elts if isinstance(y, ast.Name) or literal(y)):
                        self.report(e, 'every item of %s is the same object' % ast.unparse(e))
            if isinstance(e, (ast.DictComp, ast.ListComp)):
                v = e.value if isinstance(e, ast.DictComp) else e.elt
                own = {n for g in e.generators for n in self.names(g.target)}
                if isinstance(v, ast.Name) and v.id not in own and self.value(v, env):
                    self.report(e, 'every item of %s is the same object' % ast.unparse(e))

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def merge(self, a, b):
        for k in b:
            a[k] = a.get(k, set()) | b[k]

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, (ast.For, ast.While)):
            self.exprs(s.iter if isinstance(s, ast.For) else s.test, env)
            self.loops.append(s)
            if isinstance(s, ast.For):
                self.target(s.target, set(), env, s)
            e2 = {k: set(v) for k, v in env.items()}
            self.block(s.body, e2)
            self.merge(env, e2)
            self.loops.pop()
            self.block(s.orelse, env)
        elif isinstance(s, ast.If):
            self.exprs(s.test, env)
            outs = []
            for br, body in enumerate((s.body, s.orelse)):
                e2 = {k: set(v) for k, v in env.items()}
                self.path.append((id(s), br))
                self.block(body, e2)
                self.path.pop()
                outs.append(e2)
            env.clear()
            env.update(outs[0])
            self.merge(env, outs[1])
        elif isinstance(s, ast.Try):
            self.block(s.body, env)
            for h in s.handlers:
                self.block(h.body, env)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.With):
            self.block(s.body, env)
        else:
            self.exprs(s, env)
            if isinstance(s, ast.Assign):
                vs = self.value(s.value, env)
                for t in s.targets:
                    self.target(t, vs, env, s)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.target(s.target, self.value(s.value, env), env, s)

    def finish(self):
        for v, sts in self.stores.items():
            loops, made = self.made[v]
            seen = []
            for text, names, lp, path, node in sts:
                inner = [x for x in lp if x not in loops]
                if inner:
                    vary = set()
                    for x in inner:
                        for n in ast.walk(x):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                vary.add(n.id)
                    if names is None or names & vary:
                        self.report(node, 'the object made once by "%s" (line %d) is stored again in %s at every pass of a loop' % (ast.unparse(made)[:60], made.lineno, text))
                        continue
                for t2, p2 in seen:
                    if t2 == text and names is not None:
                        continue
                    if any(a[0] == b[0] and a[1] != b[1] for a in path for b in p2):
                        continue
                    self.report(node, 'the object made by "%s" (line %d) is stored in both %s and %s' % (ast.unparse(made)[:60], made.lineno, t2, text))
                    break
                seen.append((text, path))


def scan():
    trees = {}
    for f in PYFILES:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            raise Broken('source file %s is missing' % f)
        trees[f] = ast.parse(open(p).read())
    cls = classes(trees)
    fs = []
    nf = nst = 0
    # attributes changed in place through an object
    changed = {}
    assigned = set()
    for f, t in trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Attribute):
                changed.setdefault(n.func.value.attr, (f, n))
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                if isinstance(n, ast.Subscript):
                    b = n.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute):
                        changed.setdefault(b.attr, (f, n))
    for f, t in trees.items():
        hold = holders(t)
        owner = {}
        for c in t.body:
            if isinstance(c, ast.ClassDef):
                for s in c.body:
                    owner[id(s)] = c.name + '.'
                    if isinstance(s, ast.Assign) and (literal(s.value) or fresh(s.value, set())):
                        for x in s.targets:
                            if isinstance(x, ast.Name) and x.id in changed:
                                fn, n = changed[x.id]
                                fs.append(Finding('sharing', '%s.%s in %s' % (c.name, x.id, f[:-3]), '%s:%d' % (f, s.lineno),
                                                  'the mutable class attribute %s.%s is shared by all objects of the class and changed in place at %s:%d' % (c.name, x.id, fn, n.lineno)))
        for q in ast.walk(t):
            if not isinstance(q, ast.FunctionDef):
                continue
            name = owner.get(id(q), '') + q.name
            nf += 1
            done = set()

            def report(node, text, name=name):
                if text not in done:
                    done.add(text)
                    fs.append(Finding('sharing', '%s in %s' % (text.split(' (line')[0], f[:-3] + '.' + name), '%s:%d' % (f, node.lineno), '%s: %s' % (name, text)))
            w = Walk(cls, hold, report)
            w.block(q.body, {})
            w.finish()
            nst += w.sites
            pos = q.args.posonlyargs + q.args.args
            for a, d in list(zip(pos[len(pos) - len(q.args.defaults):], q.args.defaults)) + [(a, d) for a, d in zip(q.args.kwonlyargs, q.args.kw_defaults) if d is not None]:
                if not fresh(d, cls):
                    continue
                for n in ast.walk(q):
                    hit = None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == a.arg:
                        hit = 'changed'
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == a.arg:
                        hit = 'changed'
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == a.arg and any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in n.targets):
                        hit = 'stored'
                    if hit:
                        report(n, 'the mutable default of parameter %s is shared by all calls and %s' % (a.arg, hit))
    return fs, dict(instances=nf, stores=nst, rule='no mutable object made at one place is stored at two')


def sharing():
    return [Rule('sharing', scan, minimum=100)]
