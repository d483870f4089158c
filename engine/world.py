"""Source index: parsed modules, classes, functions, constants, import aliases."""
import ast
import os


class Func:
    __slots__ = ('name', 'node', 'module', 'cls', 'file', 'flat')

    def __init__(self, name, node, module, cls, file):
        self.name, self.node, self.module, self.cls, self.file = name, node, module, cls, file
        self.flat = None

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def defaults(self):
        a = self.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        for k, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[k.arg] = v
        return d

    @property
    def static(self):
        return any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in self.node.decorator_list)

    @property
    def classm(self):
        return any(isinstance(d, ast.Name) and d.id in ('classmethod',) for d in self.node.decorator_list)

    def qual(self):
        return (self.cls + '.' if self.cls else '') + self.name


class Module:
    def __init__(self, name, file, tree):
        self.name, self.file, self.tree = name, file, tree
        self.funcs = {}
        self.classes = {}     # name -> {'bases': [...], 'methods': {}, 'consts': {}}
        self.consts = {}
        self.imports = {}     # alias -> ('mod', name) | ('from', module, name)


def lit(node):
    try:
        return True, ast.literal_eval(node)
    except Exception:
        return False, None


class World:
    def __init__(self):
        self.modules = {}
        self.by_name = {}     # function name -> [Func]
        self.class_index = {}  # class name -> (module, entry)

    def add_source(self, name, file, src):
        tree = ast.parse(src, file)
        self.add_tree(name, file, tree)

    def add_tree(self, name, file, tree):
        m = Module(name, file, tree)
        self.modules[name] = m
        self._scan(m, tree.body)
        return m

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                f = Func(st.name, st, m.name, None, m.file)
                m.funcs[st.name] = f
                self.by_name.setdefault(st.name, []).append(f)
            elif isinstance(st, ast.ClassDef):
                e = {'bases': [b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else '?')
                               for b in st.bases], 'methods': {}, 'consts': {}, 'node': st, 'inst': set()}
                m.classes[st.name] = e
                self.class_index[st.name] = (m, e)
                for s2 in st.body:
                    if isinstance(s2, ast.FunctionDef):
                        f = Func(s2.name, s2, m.name, st.name, m.file)
                        e['methods'][s2.name] = f
                        self.by_name.setdefault(s2.name, []).append(f)
                    elif isinstance(s2, ast.Assign):
                        for t in s2.targets:
                            if isinstance(t, ast.Name):
                                e['consts'][t.id] = s2.value
                for n in ast.walk(st):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        e['inst'].add(n.attr)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    m.imports[a.asname or a.name] = ('from', st.module, a.name)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(m, st.body)
                for h in getattr(st, 'handlers', []):
                    self._scan(m, h.body)
                self._scan(m, st.orelse)

    def find_class(self, name, module=None):
        if module and name in self.modules[module].classes:
            return self.modules[module], self.modules[module].classes[name]
        return self.class_index.get(name, (None, None))

    def method(self, cls, name, module=None, seen=()):
        if cls in seen:
            return None
        m, e = self.find_class(cls, module)
        if e is None:
            return None
        if name in e['methods']:
            return e['methods'][name]
        for b in e['bases']:
            r = self.method(b, name, None, seen + (cls,))
            if r:
                return r
        return None

    def class_const(self, cls, name, module=None, seen=()):
        """(found, ast expr, module) of a class-level assignment, unless instances also assign it"""
        if cls in seen:
            return None
        m, e = self.find_class(cls, module)
        if e is None:
            return None
        if name in e['inst']:
            return None
        if name in e['consts']:
            return e['consts'][name], m
        for b in e['bases']:
            r = self.class_const(b, name, None, seen + (cls,))
            if r:
                return r
        return None

    def get(self, module, qual):
        m = self.modules.get(module)
        if m is None:
            return None
        if '.' in qual:
            c, f = qual.split('.', 1)
            return m.classes.get(c, {'methods': {}})['methods'].get(f)
        return m.funcs.get(qual)


def load_repo(root, files):
    w = World()
    for f in files:
        p = os.path.join(root, f)
        with open(p) as fh:
            src = fh.read()
        w.add_source(os.path.splitext(os.path.basename(f))[0], p, src)
    return w
