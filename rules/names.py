"""Every name, attribute, method and argument the Python modules use is defined (resolution over the whole repository)."""
import ast
import builtins
import glob
import os
import re
import string
from .base import REPO, Rule, Finding

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__', '__spec__', '__package__'}


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = node.bases
        self.methods, self.attrs = {}, set()
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
            else:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.attrs.add(n.id)
                    elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                        self.attrs.add(n.name)
                    elif isinstance(n, ast.alias):
                        self.attrs.add((n.asname or n.name).split('.')[0])
        self.dynamic = False
        for m in self.methods.values():
            me = m.args.args[0].arg if m.args.args else None
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                    self.attrs.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.attrs.add(n.args[1].value)
                    else:
                        self.dynamic = True
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    self.dynamic = True
        for s in ('__getattr__', '__getattribute__'):
            if s in self.methods:
                self.dynamic = True


class Mod:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-3]
        self.tree = ast.parse(open(path).read())
        self.top, self.imports, self.classes, self.funcs, self.star = set(), {}, {}, {}, False
        self.scan(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.top.update(n.names)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', 'vars', 'locals') and not n.args:
                self.star = True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'exec':
                self.star = True

    def scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.top.add(s.name)
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.top.add(s.name)
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split('.')[0]
                    self.top.add(nm)
                    self.imports[nm] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == '*':
                        self.star = True
                    else:
                        self.top.add(a.asname or a.name)
                        self.imports[a.asname or a.name] = (s.module, a.name)
            else:
                for n in self.own(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        self.top.add(n.id)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        self.top.add(n.name)
                for f in ('body', 'orelse', 'finalbody'):
                    self.scan(getattr(s, f, []) or [])
                for h in getattr(s, 'handlers', []) or []:
                    self.scan(h.body)

    def own(self, s):
        for n in ast.walk(s):
            yield n


class Repo:
    def __init__(self):
        self.mods = {}
        for p in sorted(glob.glob(os.path.join(REPO, '*.py'))):
            self.mods[os.path.basename(p)[:-3]] = Mod(p)
        self.outside = set()          # attributes stored on some object from outside (control structs filled by user scripts)
        for p in sorted(glob.glob(os.path.join(REPO, '*.py')) + glob.glob(os.path.join(REPO, 'tests', '**', '*.py'), recursive=True) + glob.glob(os.path.join(REPO, 'examples', '**', '*.py'), recursive=True)):
            try:
                t = ast.parse(open(p).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.outside.add(n.attr)

    def find(self, mod, e):
        """the repository class, function or module an expression names; None if unknown or external"""
        if isinstance(e, ast.Name):
            m = mod
            nm = e.id
            if nm in m.classes:
                return m.classes[nm]
            if nm in m.funcs:
                return m.funcs[nm]
            if nm in m.imports:
                src, what = m.imports[nm]
                if what is None:
                    return self.mods.get(src)
                m2 = self.mods.get(src)
                if m2 is None:
                    return None
                return m2.classes.get(what) or m2.funcs.get(what)
        elif isinstance(e, ast.Attribute):
            b = self.find(mod, e.value)
            if isinstance(b, Mod):
                return b.classes.get(e.attr) or b.funcs.get(e.attr)
        return None

    def mro(self, c):
        """(classes, complete?)"""
        out, todo, full = [], [c], True
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.bases:
                if isinstance(b, ast.Name) and b.id == 'object':
                    continue
                y = self.find(x.mod, b)
                if isinstance(y, Cls):
                    todo.append(y)
                else:
                    full = False
        return out, full

    def subs(self, c):
        return [x for m in self.mods.values() for x in m.classes.values() if x is not c and c in self.mro(x)[0]]

    def members(self, c, subclasses=True):
        cs, full = self.mro(c)
        if subclasses:
            # a method of a base class runs on objects of its subclasses
            for s in self.subs(c):
                m2, f2 = self.mro(s)
                cs += m2
        names = set()
        for x in cs:
            names |= x.attrs | set(x.methods)
            if x.dynamic:
                full = False
        return names, full

    def method(self, c, name):
        for x in self.mro(c)[0]:
            if name in x.methods:
                return x.methods[name]
        return None


OBJ = set(dir(object)) | set(dir(type)) | {'__dict__', '__module__', '__weakref__'}


def bound(fn):
    """names a function binds in its own scope"""
    out, glob_ = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    if isinstance(fn, ast.Lambda):
        return out, glob_

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob_.update(n.names)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for m in ast.iter_child_nodes(n):
            go(m)
    for s in fn.body:
        go(s)
    return out - glob_, glob_


class Flow:
    """names that may be bound at each point of a function; a read of a local that no path can have bound is an error on every path through it"""

    def __init__(self, local, report):
        self.local, self.report = local, report

    def expr(self, e, s):
        for n in self.names(e):
            if isinstance(n.ctx, ast.Load) and n.id in self.local and s is not None and n.id not in s:
                self.report(n)

    def names(self, e):
        if e is None or isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            t = {m.id for g in e.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
            for c in ast.iter_child_nodes(e):
                for n in self.names(c):
                    if n.id not in t:
                        yield n
            return
        if isinstance(e, ast.comprehension):
            for c in (e.target, e.iter, *e.ifs):
                yield from self.names(c)
            return
        if isinstance(e, ast.Name):
            yield e
        for c in ast.iter_child_nodes(e):
            yield from self.names(c)

    def binds(self, e):
        return {n.id for n in self.names(e) if isinstance(n.ctx, ast.Store)} | {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}

    def block(self, body, s):
        for st in body:
            s = self.stmt(st, s)
        return s

    def join(self, *ss):
        ss = [x for x in ss if x is not None]
        return set().union(*ss) if ss else None

    def stmt(self, st, s):
        if s is None:
            return None
        k = type(st).__name__
        if k in ('FunctionDef', 'AsyncFunctionDef', 'ClassDef'):
            return s | {st.name}
        if k in ('Import', 'ImportFrom'):
            return s | {(a.asname or a.name).split('.')[0] for a in st.names}
        if k == 'Assign':
            self.expr(st.value, s)
            for t in st.targets:
                self.expr(t, s)
            return s | set().union(*[self.binds(t) for t in st.targets]) | self.binds(st.value)
        if k == 'AugAssign':
            self.expr(st.value, s)
            if isinstance(st.target, ast.Name):
                if st.target.id in self.local and st.target.id not in s:
                    self.report(st.target)
                return s | {st.target.id}
            self.expr(st.target, s)
            return s
        if k == 'AnnAssign':
            self.expr(st.value, s)
            return s | self.binds(st.target) if st.value is not None else s
        if k in ('Return', 'Raise'):
            for c in ast.iter_child_nodes(st):
                self.expr(c, s)
            return None
        if k in ('Break', 'Continue'):
            self.loop[-1].append(s)
            return None
        if k == 'If':
            self.expr(st.test, s)
            s = s | self.binds(st.test)
            return self.join(self.block(st.body, s), self.block(st.orelse, s))
        if k in ('While', 'For', 'AsyncFor'):
            rep = self.report
            head = set(s)
            self.expr(st.test if k == 'While' else st.iter, s)
            for last in (False, True):
                self.report = rep if last else (lambda n: None)
                self.loop.append([])
                b = head | (self.binds(st.test) if k == 'While' else self.binds(st.target))
                e = self.block(st.body, b)
                ext = self.loop.pop()
                head = head | (e or set()) | (self.join(*ext) or set())
            self.report = rep
            if k != 'While':
                head = head | self.binds(st.target)
            o = self.block(st.orelse, head) if st.orelse else head
            return (o or set()) | head
        if k == 'Try':
            b = self.block(st.body, s)
            may = s | {n.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
                {(a.asname or a.name).split('.')[0] for x in st.body for a in ast.walk(x) if isinstance(a, ast.alias)}
            o = self.block(st.orelse, b) if b is not None else None
            hs = [self.block(h.body, may | ({h.name} if h.name else set())) for h in st.handlers]
            j = self.join(o, *hs)
            if st.finalbody:
                f = self.block(st.finalbody, self.join(may, j) or may)
                return None if j is None else self.join(j, f)
            return j
        if k in ('With', 'AsyncWith'):
            for i in st.items:
                self.expr(i.context_expr, s)
                if i.optional_vars is not None:
                    s = s | self.binds(i.optional_vars)
            return self.block(st.body, s)
        if k == 'Delete':
            for t in st.targets:
                self.expr(t, s)
                if isinstance(t, ast.Name):
                    if t.id in self.local and t.id not in s:
                        self.report(t)
                    s = s - {t.id}
            return s
        if k in ('Global', 'Nonlocal', 'Pass'):
            return s
        if k == 'Match':
            self.expr(st.subject, s)
            outs = [s]
            for c in st.cases:
                ns = {n.name for n in ast.walk(c.pattern) if getattr(n, 'name', None)}
                outs.append(self.block(c.body, s | ns))
            return self.join(*outs)
        for c in ast.iter_child_nodes(st):
            self.expr(c, s)
        s = s | self.binds(st)
        if k == 'Expr' and isinstance(st.value, ast.Call):
            f = st.value.func
            if isinstance(f, ast.Attribute) and f.attr in ('exit', '_exit') and isinstance(f.value, ast.Name) and f.value.id in ('sys', 'os') or isinstance(f, ast.Name) and f.id in ('exit', 'quit'):
                return None
        return s

    def run(self, fn):
        self.loop = []
        a = fn.args
        s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.block(fn.body, s)


def bind(fn, call, skip):
    """why a call does not fit the signature, or None"""
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = fn.args
    ps = [x.arg for x in a.posonlyargs + a.args][skip:]
    nd = len(a.defaults)
    need = ps[:max(0, len(ps) - nd)]
    kwo = {x.arg for x in a.kwonlyargs}
    kwneed = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    n = len(call.args)
    kws = [k.arg for k in call.keywords]
    if n > len(ps) and not a.vararg:
        return '%d positional arguments for %d parameters' % (n, len(ps))
    given = ps[:n]
    for k in kws:
        if k in given:
            return 'argument %s given twice' % k
        if k not in ps and k not in kwo and not a.kwarg:
            return 'no parameter named %s' % k
    miss = [x for x in need if x not in given and x not in kws] + [x for x in kwneed if x not in kws]
    if miss:
        return 'no value for %s' % ', '.join(miss)
    return None


class Lint:
    def __init__(self):
        self.repo = Repo()
        self.out = {'name': [], 'attribute': [], 'arguments': [], 'format': []}
        self.count = {'name': 0, 'attribute': 0, 'arguments': 0, 'format': 0}
        for m in self.repo.mods.values():
            self.mod = m
            self.scope(m.tree, m.tree.body, [], None, m.name, None)

    def rep(self, kind, qual, what, n, text):
        self.out[kind].append(Finding(kind, '%s in %s' % (what, qual), '%s:%d' % (os.path.relpath(self.mod.path, REPO), n.lineno), '%s (%s): %s' % (qual, os.path.relpath(self.mod.path, REPO), text)))

    # names -----------------------------------------------------------------
    def scope(self, owner, body, enclosing, cls, qual, types):
        """visit one scope: enclosing = list of name sets of the enclosing functions"""
        types = dict(types or {})
        if isinstance(owner, (ast.FunctionDef, ast.AsyncFunctionDef)):
            local, gl = bound(owner)
            enclosing = enclosing + [local]
            Flow(local, lambda n: self.rep('name', qual, n.id, n, 'the local %s is read where no path has bound it' % n.id)).run(owner)
            # types of locals bound once, to an instance of a repository class
            cnt = {}
            for n in ast.walk(owner):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
            params = {x.arg for x in owner.args.args}
            for n in ast.walk(owner):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and cnt.get(n.targets[0].id) == 1 and n.targets[0].id not in params and isinstance(n.value, ast.Call):
                    c = self.repo.find(self.mod, n.value.func)
                    if isinstance(c, Cls) and not (isinstance(n.value.func, ast.Name) and n.value.func.id in local):
                        types[n.targets[0].id] = c
            if cls is not None and owner.args.args and not any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in owner.decorator_list):
                if len(enclosing) == 1 and owner.args.args[0].arg not in cnt:
                    types[owner.args.args[0].arg] = ('self', cls)
            for p in owner.args.args[1 if cls is not None and len(enclosing) == 1 else 0:]:
                types.pop(p.arg, None)
        for s in body:
            self.visit(s, enclosing, cls, qual, types)

    def known(self, nm, enclosing, classnames=()):
        return self.mod.star or nm in BUILTINS or nm in self.mod.top or any(nm in e for e in enclosing) or nm in classnames

    def visit(self, n, enc, cls, qual, types):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, enc, cls, qual, types)
            self.scope(n, n.body, [e for e in enc if e is not self.classns], cls if not [e for e in enc if e is not self.classns] else None, qual + '.' + n.name, types if enc else None)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                self.visit(b, enc, cls, qual, types)
            c = self.mod.classes.get(n.name) if not enc else Cls(self.mod, n)
            ns = c.attrs | set(c.methods)
            old, self.classns = self.classns, ns
            for s in n.body:
                self.visit(s, enc + [ns], c, qual + '.' + n.name, types)
            self.classns = old
            return
        if isinstance(n, ast.Lambda):
            b, _ = bound(n)
            self.visit(n.body, enc + [b], cls, qual, {k: v for k, v in types.items() if k not in b})
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = {m.id for g in n.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
            for c in ast.iter_child_nodes(n):
                self.visit(c, enc + [b], cls, qual, {k: v for k, v in types.items() if k not in b})
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.count['name'] += 1
            if not self.known(n.id, enc):
                self.rep('name', qual, n.id, n, 'the name %s is bound nowhere' % n.id)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attribute(n, enc, cls, qual, types)
        if isinstance(n, ast.Call):
            self.call(n, enc, cls, qual, types)
            self.fmt_call(n, qual)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.fmt_mod(n, qual)
        for c in ast.iter_child_nodes(n):
            self.visit(c, enc, cls, qual, types)

    classns = None

    # attributes --------------------------------------------------------------
    def attribute(self, n, enc, cls, qual, types):
        v = n.value
        if n.attr in OBJ:
            return
        if isinstance(v, ast.Name):
            t = types.get(v.id)
            if isinstance(t, tuple):
                names, full = self.repo.members(t[1])
                if not full:
                    return
                self.count['attribute'] += 1
                if n.attr not in names and n.attr not in self.repo.outside:
                    self.rep('attribute', qual, '%s.%s' % (v.id, n.attr), n, 'no class or script gives objects of %s an attribute %s' % (t[1].name, n.attr))
                return
            if isinstance(t, Cls):
                names, full = self.repo.members(t, False)
                if not full:
                    return
                self.count['attribute'] += 1
                if n.attr not in names and n.attr not in self.repo.outside:
                    self.rep('attribute', qual, '%s.%s' % (v.id, n.attr), n, 'objects of %s have no attribute %s' % (t.name, n.attr))
                return
            if any(v.id in e for e in enc):
                return
        b = self.repo.find(self.mod, v)
        if isinstance(b, Mod):
            self.count['attribute'] += 1
            if n.attr not in b.top and not b.star:
                self.rep('attribute', qual, ast.unparse(n), n, 'module %s has no %s' % (b.name, n.attr))
        elif isinstance(b, Cls):
            names, full = self.repo.members(b)
            if full:
                self.count['attribute'] += 1
                if n.attr not in names and n.attr not in self.repo.outside:
                    self.rep('attribute', qual, ast.unparse(n), n, 'class %s has no %s' % (b.name, n.attr))

    # calls -------------------------------------------------------------------
    def call(self, n, enc, cls, qual, types):
        f = n.func
        target, skip, what = None, 0, None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in types:
            t = types[f.value.id]
            c = t[1] if isinstance(t, tuple) else t
            if isinstance(t, tuple) and any(f.attr in s.methods or f.attr in s.attrs for s in self.repo.subs(c)):
                return
            if f.attr in c.attrs:
                return
            target = self.repo.method(c, f.attr)
            skip, what = 1, '%s.%s' % (c.name, f.attr)
            if target is not None and any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in target.decorator_list):
                skip = 0
        else:
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and any(root.id in e for e in enc):
                return
            r = self.repo.find(self.mod, f)
            if isinstance(r, Cls):
                if not self.repo.mro(r)[1] and self.repo.method(r, '__init__') is None:
                    return
                target, skip, what = self.repo.method(r, '__init__'), 1, r.name
                if target is None:
                    self.count['arguments'] += 1
                    if (n.args or n.keywords) and not any(isinstance(x, ast.Starred) for x in n.args) and '__new__' not in r.methods:
                        self.rep('arguments', qual, what, n, '%s takes no arguments' % what)
                    return
            elif isinstance(r, (ast.FunctionDef, ast.AsyncFunctionDef)):
                target, what = r, r.name
                if r.decorator_list:
                    return
        if target is None or any(not (isinstance(d, ast.Name) and d.id in ('staticmethod',)) for d in target.decorator_list):
            return
        self.count['arguments'] += 1
        why = bind(target, n, skip)
        if why:
            self.rep('arguments', qual, what, n, 'the call of %s does not fit its definition: %s' % (what, why))

    # messages ----------------------------------------------------------------
    def literal(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return e.value
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.literal(e.left), self.literal(e.right)
            return None if a is None or b is None else a + b
        return None

    def fmt_call(self, n, qual):
        f = n.func
        if not (isinstance(f, ast.Attribute) and f.attr == 'format'):
            return
        s = self.literal(f.value)
        if s is None or any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return
        self.count['format'] += 1
        try:
            fields = list(string.Formatter().parse(s))
        except ValueError as e:
            self.rep('format', qual, repr(s[:40]), n, 'invalid format string: %s' % e)
            return
        auto, kw = 0, {k.arg for k in n.keywords}
        names = []
        for _, fld, spec, _ in fields:
            if fld is None:
                continue
            names.append(fld)
            for _, f2, _, _ in string.Formatter().parse(spec or ''):
                if f2 is not None:
                    names.append(f2)
        for fld in names:
            h = re.split(r'[.\[]', fld)[0]
            if h == '':
                h = str(auto)
                auto += 1
            if h.isdigit():
                if int(h) >= len(n.args):
                    self.rep('format', qual, repr(s[:40]), n, 'the message has a place %s but only %d values' % (h, len(n.args)))
                    return
            elif h not in kw:
                self.rep('format', qual, repr(s[:40]), n, 'the message has a place {%s} but no such value' % h)
                return

    def fmt_mod(self, n, qual):
        s = self.literal(n.left)
        if s is None:
            return
        self.count['format'] += 1
        specs = re.findall(r'%(?:\((\w+)\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', s)
        need = sum((1 if c != '%' else 0) + (w == '*') + (p == '*') for k, w, p, c in specs if not k)
        if any(k for k, _, _, _ in specs):
            return
        r = n.right
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            if len(r.elts) != need:
                self.rep('format', qual, repr(s[:40]), n, 'the message has %d places for %d values' % (need, len(r.elts)))
        elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.List)) and need != 1:
            self.rep('format', qual, repr(s[:40]), n, 'the message has %d places for one value' % need)
        elif need == 0 and isinstance(r, (ast.Name, ast.Attribute, ast.Subscript)):
            self.rep('format', qual, repr(s[:40]), n, 'the message has no place for the value')


_L = []


def lint():
    if not _L:
        _L.append(Lint())
    return _L[0]


def names():
    def rule(k):
        def go():
            L = lint()
            seen, fs = set(), []
            for f in L.out[k]:
                if f.key() not in seen:
                    seen.add(f.key())
                    fs.append(f)
            return fs, {'instances': L.count[k], 'modules': sorted(L.repo.mods)}
        return go
    return [Rule(k + 's', rule(k), minimum=m) for k, m in (('name', 3000), ('attribute', 500), ('arguments', 30), ('format', 25))]
