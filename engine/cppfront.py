"""C++ front end: clang's type-checked AST (JSON dump) of the modules the build compiles, translated
into the same statement language (Python syntax trees) the abstract interpreter consumes.

The dump is made from /repo's current sources with the flags of the real build.
"""
import ast
import json
import os
import re
import subprocess
import hashlib
import struct
from .world import World, Func

PYB = '/opt/pybind11-2.10.4/pybind11'


def is_scalar_ref(t):
    """non-const lvalue reference to a number, string or vector"""
    for q in (t.get('qualType', ''), t.get('desugaredQualType', '')):
        q = q.strip()
        if q.endswith('&') and not q.endswith('&&'):
            b = q[:-1].strip()
            if not b.startswith('const ') and not b.endswith('const') and (
                    re.match(r'(unsigned |signed |long |short )*(double|float|int|long|short|unsigned|bool|char|size_t|std::size_t|ssize_t|py::ssize_t|[\w:]*string|uint\w*|int\w*_t)$', b)
                    or b.endswith('*') or re.match(r'(std::)?vector<', b)):
                return True
    return False


def iter_loop(pre, cond, step, body):
    """for (it = X.begin(); it != X.end(); ++it) whose body does not assign it -> (it, X)"""
    from .build import targets_of
    if not (isinstance(pre, ast.Assign) and isinstance(pre.targets[0], ast.Name) and isinstance(pre.value, ast.Call)):
        return None
    v, n = pre.value, pre.targets[0].id
    if isinstance(v.func, ast.Attribute) and v.func.attr in ('begin', 'cbegin') and not v.args:
        x = v.func.value
    elif isinstance(v.func, ast.Name) and v.func.id in ('begin', 'cbegin') and len(v.args) == 1:
        x = v.args[0]
    else:
        return None
    if not (isinstance(cond, ast.Compare) and isinstance(cond.ops[0], ast.NotEq)):
        return None
    l, r = cond.left, cond.comparators[0]
    if not (isinstance(l, ast.Name) and l.id == n):
        l, r = r, l
    if not (isinstance(l, ast.Name) and l.id == n):
        return None
    if isinstance(r, ast.Call):
        if isinstance(r.func, ast.Attribute) and r.func.attr in ('end', 'cend'):
            y = r.func.value
        elif isinstance(r.func, ast.Name) and r.func.id in ('end', 'cend') and r.args:
            y = r.args[0]
        else:
            return None
        if ast.dump(x) != ast.dump(y):
            return None
    elif not (isinstance(r, ast.Constant) and r.value is None):
        return None
    if targets_of(step) != [n] or ast.unparse(step) not in ('%s = %s + 1' % (n, n), '%s += 1' % n):
        return None
    base = x.id if isinstance(x, ast.Name) else None
    for q in body:
        for z in ast.walk(q):
            if n in targets_of(z) or base and base in targets_of(z):
                return None
            if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ('erase', 'insert', 'append', 'clear', 'pop_back') and ast.dump(z.func.value) == ast.dump(x):
                return None
    return n, x


def lambda_of(e):
    """the lambda expression a variable is initialised with"""
    while e.get('kind') in ('CXXConstructExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CXXBindTemporaryExpr') and len(e.get('inner', ())) == 1:
        e = e['inner'][0]
    return e if e.get('kind') == 'LambdaExpr' and lambda_parts(e) else None


def lambda_parts(o):
    rec = [x for x in o.get('inner', ()) if x.get('kind') == 'CXXRecordDecl']
    op = [x for x in rec[0].get('inner', ()) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()'] if rec else []
    if rec and not op:              # a generic lambda: its instantiation, when there is one only
        t = [x for x in rec[0].get('inner', ()) if x.get('kind') == 'FunctionTemplateDecl' and x.get('name') == 'operator()']
        op = [x for x in t[0].get('inner', ()) if x.get('kind') == 'CXXMethodDecl'][1:] if t else []
        op = op if len(op) == 1 else []
    body = [x for x in op[0].get('inner', ()) if x.get('kind') == 'CompoundStmt'] if op else []
    return (op[0], body[0]) if body else None


class CppError(Exception):
    pass


def flags(repo):
    inc = subprocess.run(['pkg-config', '--cflags-only-I', 'dolfin'], capture_output=True, text=True).stdout.split()
    py = subprocess.run(['/usr/bin/python3', '-c', 'import sysconfig; print(sysconfig.get_path("include"))'],
                        capture_output=True, text=True).stdout.strip()
    defs = ['-D' + d for d in ('HAS_HDF5 HAS_SLEPC HAS_PETSC HAS_UMFPACK HAS_CHOLMOD HAS_SCOTCH HAS_ZLIB HAS_MPI '
                               'PYBIND11_INTERNALS_VERSION=5').split()]
    return ['-std=c++11', '-fPIC'] + defs + inc + ['-I/usr/include/eigen3', '-isystem', PYB + '/include', '-I' + py]


MODULES = {
    'sap': ('segmented_array_pair_solib.cpp', []),
    'dolfin_functions': ('dolfin_functions.cpp', []),
    'dolfin_functions_solib': ('dolfin_functions_solib.cpp', []),
    'predicates': ('predicates.cpp', []),
    'mea': ('MeshEntityArrays.cpp', []),
    'mea_solib': ('mesh_entity_arrays_solib.cpp', []),
    'numpy_types': ('numpy_types_solib.cpp', []),
    'upbf_x': ('user_particle_boundary_functions_solib.cpp', ['PARTICLE_TYPE=cartesian_x', 'PDIM=1']),
    'upbf_xy': ('user_particle_boundary_functions_solib.cpp', ['PARTICLE_TYPE=cartesian_xy', 'PDIM=2']),
    'upbf_xyz': ('user_particle_boundary_functions_solib.cpp', ['PARTICLE_TYPE=cartesian_xyz', 'PDIM=3']),
    'upbf_2De': ('user_particle_boundary_functions_2D_e_solib.cpp', ['PARTICLE_TYPE=cartesian_xy', 'PDIM=2']),
    'upbf_r': ('upbfs_spherical_r_solib.cpp', ['PARTICLE_TYPE=spherical_r', 'PDIM=1']),
    'part_x': ('particle_solib.cpp', ['PARTICLE_TYPE=cartesian_x', 'PARTICLE_CARTESIAN_X', 'PDIM=1']),
    'part_xy': ('particle_solib.cpp', ['PARTICLE_TYPE=cartesian_xy', 'PARTICLE_CARTESIAN_XY', 'PDIM=2']),
    'part_xyz': ('particle_solib.cpp', ['PARTICLE_TYPE=cartesian_xyz', 'PARTICLE_CARTESIAN_XYZ', 'PDIM=3']),
    'part_r': ('particle_solib.cpp', ['PARTICLE_TYPE=spherical_r', 'PARTICLE_SPHERICAL_R', 'PDIM=1']),
}
PTYPES = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']


def dump(repo, mod, filt='dnt::', workdir=None):
    src, defs = MODULES[mod]
    path = os.path.join(repo, 'cpp', src)
    if not os.path.exists(path):
        raise CppError('source file missing: ' + path)
    here = os.path.dirname(os.path.abspath(__file__))
    cmd = ['clang++'] + flags(repo) + ['-I' + os.path.join(repo, 'cpp'), '-include', os.path.join(here, 'prelude.h'),
                                       '-DMODULE_NAME=m_solib'] + ['-D' + d for d in defs] + \
          ['-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    key = (repo, mod, filt)
    if key in _pre:
        return _pre.pop(key)
    for std in ('-std=c++11', '-std=c++14', '-std=c++17'):      # g++ takes newer forms (auto parameters of lambdas) under c++11 too
        p = subprocess.run([std if x == '-std=c++11' else x for x in cmd], capture_output=True, text=True)
        if 'error:' not in p.stderr:
            break
    if 'error:' in p.stderr:
        raise CppError('clang cannot analyse %s: %s' % (src, [l for l in p.stderr.splitlines() if 'error' in l][:2]))
    return p.stdout


_pre = {}


def prefetch(repo, mod):
    out = dump(repo, mod)
    _pre[(repo, mod, 'dnt::')] = out


def objects(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        yield o


def locate(o, st):
    """resolve clang's delta-encoded locations in document order"""
    if 'loc' in o:
        _loc(o['loc'], st)
    if 'range' in o:
        r = o['range']
        if 'begin' in r:
            _loc(r['begin'], st)
            o['_line'], o['_file'] = st['line'], st['file']
        if 'end' in r:
            _loc(r['end'], st)
    for x in o.get('inner', ()):
        locate(x, st)


def _loc(l, st):
    if 'spellingLoc' in l or 'expansionLoc' in l:
        if 'spellingLoc' in l:
            _loc(l['spellingLoc'], st)
        if 'expansionLoc' in l:
            _loc(l['expansionLoc'], st)
        return
    if 'file' in l:
        st['file'] = l['file']
    if 'line' in l:
        st['line'] = l['line']


class Unit:
    """one translation unit: functions with bodies, variable initialisers"""

    def __init__(self, repo, mod):
        self.repo, self.mod = repo, mod
        self.counts = {}
        self._targs = None
        self.functions = []     # dict(name, cls, targs, node, type)
        self.vars = {}          # id -> value
        self.varnames = {}
        self.by_id = {}
        self.records = []
        raw = dump(repo, mod)
        self.nfun = 0
        self.tops = []
        for o in objects(raw):
            locate(o, {'file': '?', 'line': 0})
            self.tops.append(o)
            self.scan(o, None, '')
        self.extra = {}
        self.fieldinit = {}
        for o in self.tops:
            for x in walk(o):
                if x.get('kind') == 'FieldDecl' and x.get('hasInClassInitializer') and x.get('inner'):
                    self.fieldinit.setdefault(x.get('name'), x['inner'][-1])

    def scan(self, o, cls, targs):
        k = o.get('kind')
        if k == 'FunctionTemplateDecl':
            fs = [x for x in o['inner'] if x['kind'] in ('FunctionDecl', 'CXXMethodDecl')]
            for f in fs[1:]:
                self.addf(f, cls, targs, self.targs_of(f))
            return
        if k == 'ClassTemplateDecl':
            for x in o.get('inner', ()):
                if x['kind'] == 'ClassTemplateSpecializationDecl':
                    self.scan(x, cls, targs)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            self.addf(o, cls, targs, '')
            return
        if k == 'VarDecl':
            self.addvar(o)
            return
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
            cls = o.get('name')
            targs = self.targs_of(o)
            self.records.append((cls, targs, o))
        for x in o.get('inner', ()):
            self.scan(x, cls, targs)

    def fresh(self, base):
        n = self.counts[base] = self.counts.get(base, 0) + 1
        return base if n == 1 else '%s#%d' % (base, n)

    def targs_by_id(self, i):
        if self._targs is None:
            self._targs = {}
            for t in self.tops:
                for x in walk(t):
                    if x.get('kind') == 'FunctionTemplateDecl':
                        for f in x.get('inner', ()):
                            if f.get('kind') == 'FunctionDecl':
                                self._targs[f['id']] = self.targs_of(f)
        return self._targs.get(i) or ''

    def targs_of(self, o):
        out = []
        for x in o.get('inner', ()):
            if x.get('kind') == 'TemplateArgument':
                if 'value' in x:
                    out.append(str(x['value']))
                elif 'type' in x:
                    out.append(x['type']['qualType'])
        return ','.join(out)

    def addvar(self, o):
        ini = [x for x in o.get('inner', ()) if x.get('kind') not in ('FullComment',)]
        v = None
        if ini and o.get('init'):
            e = strip(ini[-1])
            v = literal(e)
        self.varnames.setdefault(o.get('name'), []).append((o, v))
        self.vars[o['id']] = v
        if o.get('previousDecl'):
            if v is not None:
                self.vars[o['previousDecl']] = v
        self.by_id[o['id']] = o

    def addf(self, f, cls, ctargs, ftargs):
        self.by_id[f['id']] = f
        body = [x for x in f.get('inner', ()) if x.get('kind') == 'CompoundStmt']
        if body and not f.get('isImplicit'):
            self.functions.append(dict(name=f.get('name'), cls=cls, ctargs=ctargs, ftargs=ftargs, node=f, body=body[0],
                                       type=f['type']['qualType'], id=f['id'], prev=f.get('previousDecl')))


def strip(e):
    while e.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr',
                            'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultInitExpr', 'CXXStdInitializerListExpr') and e.get('inner'):
        e = e['inner'][-1]
    return e


def literal(e):
    e = strip(e)
    k = e.get('kind')
    if k == 'IntegerLiteral':
        return int(e['value'])
    if k == 'FloatingLiteral':
        return float(e['value'])
    if k == 'CXXBoolLiteralExpr':
        return bool(e['value'])
    if k == 'UnaryOperator' and e.get('opcode') == '-':
        v = literal(e['inner'][0])
        return None if v is None else -v
    if k == 'BinaryOperator':
        a, b = literal(e['inner'][0]), literal(e['inner'][1])
        if a is None or b is None:
            return None
        op = e['opcode']
        try:
            return {'<<': lambda: a << b, '>>': lambda: a >> b, '|': lambda: a | b, '+': lambda: a + b, '*': lambda: a * b,
                    '-': lambda: a - b, '&': lambda: a & b}[op]()
        except Exception:
            return None
    if k == 'StringLiteral':
        return e['value'].strip('"')
    if k in ('InitListExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and len(e.get('inner', ())) == 1:
        return literal(e['inner'][0])
    return None


def qt(e):
    t = e.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def q1(e):
    return e.get('type', {}).get('qualType', '')


INTRE = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|size_t|std::size_t|ssize_t|py::ssize_t|unsigned|long long)( long| int)*$')


SMALL = {'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'int16_t', 'uint16_t', 'int8_t', 'uint8_t', '__int16_t', '__uint16_t', '__int8_t', '__uint8_t'}


def plain(t):
    return t.replace('&', '').replace('const ', '').strip()


def is_int(e):
    t = qt(e).replace('&', '').strip()
    return bool(INTRE.match(t)) or t in ('unsigned', 'unsigned int', 'unsigned long', 'long', 'py::ssize_t', 'ssize_t', 'std::size_t', 'uint')


def is_rec(t):
    t = t.replace('const', '').replace('dnt::', '').strip()
    return bool(re.match(r'^(class |struct )?Pstruct<[^<>]*>\s*&?$', t))


def is_recarr(t):
    t = t.replace('const', '').replace('dnt::', '').strip()
    return bool(re.match(r'^(class |struct )?Pstruct<[^<>]*>\s*\*\s*&?$', t))


PASS_TYPES = ('basic_string', 'std::string', 'py::object', 'pybind11::object', 'py::str', 'pybind11::str', 'py::tuple', 'pybind11::tuple',
              'py::list', 'pybind11::list', 'py::capsule', 'pybind11::capsule', 'handle', 'py::int_', 'shared_ptr', 'Point', 'py::dict')


def N(name):
    return ast.Name(id=name, ctx=ast.Load())


def C(v):
    return ast.Constant(value=v)


def call(fn, *args):
    return ast.Call(func=N(fn) if isinstance(fn, str) else fn, args=list(args), keywords=[])


class Tr:
    """translate one function body"""

    def __init__(self, unit, f):
        self.u = unit
        self.f = f
        self.locals = {}
        self.used = {}
        self.names = {}
        self.unknown = []
        for x in walk(f['node']):
            if x.get('kind') in ('VarDecl', 'ParmVarDecl') and 'id' in x:
                if x.get('storageClass') == 'static':
                    continue
                self.locals[x['id']] = x

    def lname(self, d):
        """unique local name per declaration (C++ block scoping)"""
        i = d['id']
        if i in self.names:
            return self.names[i]
        base = d.get('name') or '_anon'
        n = base
        k = 1
        while n in self.used:
            k += 1
            n = '%s__%d' % (base, k)
        self.used[n] = i
        self.names[i] = n
        return n

    def func(self):
        f = self.f
        params = [x for x in f['node'].get('inner', ()) if x.get('kind') == 'ParmVarDecl']
        args = []
        defaults = []
        if f['cls'] and f['node'].get('storageClass') != 'static':
            args.append(ast.arg(arg='self'))
        for p in params:
            args.append(ast.arg(arg=self.lname(p)))
            ini = [x for x in p.get('inner', ()) if 'valueCategory' in x]
            if ini and p.get('init'):
                try:
                    defaults.append(self.ex(ini[-1]))
                except CppError:
                    defaults.append(C(None))
        body = []
        if f['node']['kind'] == 'CXXConstructorDecl':
            for x in f['node'].get('inner', ()):
                if x.get('kind') == 'CXXCtorInitializer' and x.get('anyInit'):
                    if x.get('inner'):
                        e0 = strip(x['inner'][0])
                        if e0.get('kind') == 'CXXDefaultInitExpr' and x['anyInit']['name'] in self.u.fieldinit:
                            e0 = self.u.fieldinit[x['anyInit']['name']]
                            v = literal(e0)
                            body.append(self.loc(x, ast.Assign(targets=[ast.Attribute(value=N('self'), attr=x['anyInit']['name'], ctx=ast.Store())],
                                                               value=C(v) if v is not None else self.ex(e0))))
                            continue
                        if e0.get('kind') == 'CXXConstructExpr' and not e0.get('inner'):
                            continue     # default-constructed member
                        body.append(self.loc(x, ast.Assign(targets=[ast.Attribute(value=N('self'), attr=x['anyInit']['name'], ctx=ast.Store())],
                                               value=self.ex(x['inner'][0]))))
        body += self.stmts(f['body'])
        fd = ast.FunctionDef(name=f['name'] if f['node']['kind'] != 'CXXConstructorDecl' else '__init__',
                             args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=defaults, vararg=None, kwarg=None),
                             body=body or [ast.Pass()], decorator_list=[])
        if f['cls'] and f['node'].get('storageClass') == 'static':
            fd.decorator_list = [N('staticmethod')]
        fd.lineno = f['node'].get('_line', 0)
        fd.refparams = [self.lname(p) for p in params if is_scalar_ref(p['type'])]
        fix(fd)
        return fd

    def loc(self, o, a):
        a.lineno = o.get('_line', 0)
        a.col_offset = 0
        a.srcfile = o.get('_file')
        return a

    # ------------------------------------------------------------------ statements
    def stmts(self, o):
        if o.get('kind') == 'CompoundStmt':
            out = []
            for x in o.get('inner', ()):
                out += self.stmts(x)
            return out
        r = self.stmt(o)
        for s in r:
            if not hasattr(s, 'lineno'):
                self.loc(o, s)
        return r

    def stmt(self, o):
        k = o.get('kind')
        if k in ('NullStmt', 'UsingDirectiveDecl', 'TypeAliasDecl', 'TypedefDecl', None):
            return []
        if k == 'DeclStmt':
            out = []
            for d in o.get('inner', ()):
                if d.get('kind') == 'VarDecl':
                    out += self.vardecl(d)
            return out
        if k == 'ReturnStmt':
            inner = o.get('inner', ())
            return [ast.Return(value=self.ex(inner[0]) if inner else None)]
        if k == 'IfStmt':
            inner = list(o['inner'])
            pre = []
            if o.get('hasInit'):
                pre += self.stmts(inner.pop(0))
            if o.get('hasVar'):
                pre += self.stmts(inner.pop(0))
            return pre + [ast.If(test=self.ex(inner[0]), body=self.stmts(inner[1]) or [ast.Pass()],
                                 orelse=self.stmts(inner[2]) if len(inner) > 2 else [])]
        if k == 'WhileStmt':
            inner = o['inner']
            return [ast.While(test=self.ex(inner[0]), body=self.stmts(inner[-1]) or [ast.Pass()], orelse=[])]
        if k == 'DoStmt':
            body = self.stmts(o['inner'][0])
            return [ast.While(test=C(True), body=body + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.ex(o['inner'][1])),
                                                                    body=[ast.Break()], orelse=[])], orelse=[])]
        if k == 'ForStmt':
            return self.forstmt(o)
        if k == 'CXXForRangeStmt':
            inner = o['inner']
            body = inner[-1]
            var = None
            rng = None
            for x in inner:
                if x.get('kind') == 'DeclStmt':
                    for d in x.get('inner', ()):
                        nm = d.get('name', '')
                        if nm.startswith('__range'):
                            rng = [y for y in d['inner'] if 'valueCategory' in y][-1]
                        elif not nm.startswith('__'):
                            var = d
            if var is None or rng is None:
                raise CppError('range-for')
            return [ast.For(target=N(self.lname(var)), iter=self.ex(rng), body=self.stmts(body) or [ast.Pass()], orelse=[])]
        if k == 'BreakStmt':
            return [ast.Break()]
        if k == 'ContinueStmt':
            return [ast.Continue()]
        if k == 'CompoundStmt':
            return self.stmts(o)
        if k == 'CXXTryStmt':
            return self.stmts(o['inner'][0])
        if k == 'SwitchStmt':
            raise CppError('switch')
        return self.exstmt(o)

    def vardecl(self, d):
        ini = [x for x in d.get('inner', ()) if 'valueCategory' in x or x.get('kind') in ('InitListExpr',)]
        n = self.lname(d)
        t = d['type']['qualType']
        if d.get('storageClass') == 'static':
            return []
        if not ini or not d.get('init'):
            if '[' in t:
                return [ast.Assign(targets=[N(n)], value=call('__new__', C('array')))]
            return []
        e = strip(ini[-1])
        lam = lambda_of(e)
        if lam is not None:
            return [self.localfn(n, lam)]
        if is_rec(t) and not t.strip().endswith('&'):
            if e.get('kind') == 'CXXConstructExpr' and not e.get('inner'):
                return [ast.Assign(targets=[N(n)], value=call('__recnew__'))]
            return [ast.Assign(targets=[N(n)], value=call('__recnew__', self.ex(ini[-1])))]
        if e.get('kind') == 'CXXConstructExpr' and not e.get('inner'):
            return [ast.Assign(targets=[N(n)], value=self.default(t))]
        return [ast.Assign(targets=[N(n)], value=self.ex(ini[-1]))]

    def localfn(self, n, o):
        """a named local lambda is a nested function; what it assigns outside is shared with the enclosing function"""
        op, body = lambda_parts(o)
        args, own = [], set()
        for x in op.get('inner', ()):
            if x.get('kind') == 'ParmVarDecl':
                nm = self.lname(x)
                args.append(ast.arg(arg=nm))
                own.add(nm)
        for x in walk(body):
            if x.get('kind') == 'VarDecl':
                own.add(self.lname(x))
        b = self.stmts(body) or [ast.Pass()]
        from .build import targets_of, appended
        out = sorted(({y for q in b for x in ast.walk(q) for y in targets_of(x)} | appended(b)) - own)
        if out:
            b = [ast.Nonlocal(names=out)] + b
        return ast.FunctionDef(name=n, args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None),
                               body=b, decorator_list=[])

    def default(self, t):
        if re.match(r'(const )?(std::)?(unordered_)?map<', t) or t == 'py::dict':
            return ast.Dict(keys=[], values=[])
        if re.match(r'(const )?(std::)?vector<', t) or t in ('py::list',):
            return ast.List(elts=[], ctx=ast.Load())
        if 'basic_string' in t or 'std::string' in t or t == 'py::str':
            return C('')
        if 'vector' in t:
            return ast.List(elts=[], ctx=ast.Load())
        if 'map<' in t:
            return ast.Dict(keys=[], values=[])
        return call('__new__', C(re.sub(r'<.*', '', t)))

    def forstmt(self, o):
        inner = o['inner']
        init, _, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        # dolfin entity iterators
        if init and init.get('kind') == 'DeclStmt' and init['inner'][0].get('kind') == 'VarDecl':
            d = init['inner'][0]
            m = re.search(r'(Cell|Facet|Vertex|Edge|Face|MeshEntity)Iterator', d['type']['qualType'] + ' ' + qt(d))
            m2 = re.search(r'MeshEntityIteratorBase<(?:dolfin::)?(\w+)>', qt(d) + ' ' + d['type']['qualType'])
            nm = m2.group(1) if m2 else (m.group(1) if m else None)
            if nm:
                e = strip([x for x in d['inner'] if 'valueCategory' in x][-1])
                a = e.get('inner', [])
                return [ast.For(target=N(self.lname(d)), iter=call('__entities__', C(nm), *[self.ex(x) for x in a if x.get('kind') != 'CXXDefaultArgExpr']),
                                body=self.stmts(body) or [ast.Pass()], orelse=[])]
        pre = self.stmts(init) if init and init.get('kind') else []
        step = self.stmts(inc) if inc and inc.get('kind') else []
        # for (i = a; i < b; i++) whose counter and bound the body does not assign -> range loop
        r = self.as_range(init, cond, inc, body)
        if r is not None:
            var, lo, hi = r
            return [ast.For(target=N(var), iter=call('range', lo, hi), body=self.stmts(body) or [ast.Pass()], orelse=[])]
        b = self.stmts(body)
        if len(pre) == 1 and len(step) == 1 and cond and cond.get('kind'):
            it = iter_loop(pre[0], self.ex(cond), step[0], b)
            if it is not None:
                return [ast.For(target=N(it[0]), iter=it[1], body=b or [ast.Pass()], orelse=[])]
        # `continue` must still execute the step
        if any(x.get('kind') == 'ContinueStmt' for x in walk(body)):
            b = repl_continue(b, step)
        return pre + [ast.While(test=self.ex(cond) if cond and cond.get('kind') else C(True), body=(b + step) or [ast.Pass()], orelse=[])]

    def as_range(self, init, cond, inc, body):
        try:
            if init.get('kind') != 'DeclStmt' or len(init['inner']) != 1:
                return None
            d = init['inner'][0]
            c = strip(cond)
            i = strip(inc)
            if c.get('kind') != 'BinaryOperator' or c['opcode'] not in ('<', '!='):
                return None
            l = strip(c['inner'][0])
            if l.get('kind') != 'DeclRefExpr' or l['referencedDecl']['id'] != d['id']:
                return None
            if i.get('kind') == 'UnaryOperator' and i['opcode'] == '++':
                t = strip(i['inner'][0])
            elif i.get('kind') == 'CompoundAssignOperator' and i['opcode'] == '+=' and literal(i['inner'][1]) == 1:
                t = strip(i['inner'][0])
            else:
                return None
            if t.get('kind') != 'DeclRefExpr' or t['referencedDecl']['id'] != d['id']:
                return None
            assigned = set()
            for x in walk(body):
                if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and x['opcode'].endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>='):
                    y = strip(x['inner'][0])
                    if y.get('kind') == 'DeclRefExpr':
                        assigned.add(y['referencedDecl']['id'])
                if x.get('kind') == 'UnaryOperator' and x['opcode'] in ('++', '--'):
                    y = strip(x['inner'][0])
                    if y.get('kind') == 'DeclRefExpr':
                        assigned.add(y['referencedDecl']['id'])
            if d['id'] in assigned:
                return None
            bound = c['inner'][1]
            for x in walk(bound):
                if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in assigned:
                    return None
                if x.get('kind') in ('CXXMemberCallExpr', 'CallExpr'):
                    nm = callee_name(x)
                    if nm not in ('size', 'shape', 'num_cells', 'dim'):
                        return None
            lo = self.ex([x for x in d['inner'] if 'valueCategory' in x][-1])
            return self.lname(d), lo, self.ex(bound)
        except (KeyError, IndexError, TypeError):
            return None

    def exstmt(self, o):
        e = strip(o)
        k = e.get('kind')
        if k == 'BinaryOperator' and e['opcode'] == '=':
            r = strip(e['inner'][1])
            if r.get('kind') == 'BinaryOperator' and r['opcode'] == '=':
                pre = self.exstmt(r)
                return pre + self.assign(e['inner'][0], self.ex(r['inner'][0]))
            return self.assign(e['inner'][0], self.ex(e['inner'][1]))
        if k == 'BinaryOperator' and e['opcode'] == ',':
            return self.exstmt(e['inner'][0]) + self.exstmt(e['inner'][1])
        if k == 'CompoundAssignOperator':
            v = self.binop(e['opcode'][:-1], self.lv(e['inner'][0]), self.ex(e['inner'][1]), e)
            return self.assign(e['inner'][0], self.compound(e, v))
        if k == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            v = ast.BinOp(left=self.lv(e['inner'][0]), op=ast.Add() if e['opcode'] == '++' else ast.Sub(), right=C(1))
            return self.assign(e['inner'][0], v)
        if k == 'CXXOperatorCallExpr':
            op = self.opname(e)
            a = e['inner'][1:]
            if op == 'operator=':
                if is_rec(q1(a[0])) or is_rec(qt(a[0])):
                    return [ast.Expr(value=call('__reccopy__', self.ex(a[0]), self.ex(a[1])))]
                return self.assign(a[0], self.ex(a[1]))
            if op in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                return self.assign(a[0], self.binop(op[8:-1], self.lv(a[0]), self.ex(a[1]), e))
            if op in ('operator++', 'operator--'):
                return self.assign(a[0], ast.BinOp(left=self.lv(a[0]), op=ast.Add() if op == 'operator++' else ast.Sub(), right=C(1)))
            if op == 'operator<<':
                return []
        if k == 'CXXDeleteExpr':
            return []
        if k == 'CXXThrowExpr':
            return [ast.Raise(exc=None, cause=None)]
        if k == 'ConditionalOperator' and self.is_assert(e):
            return []
        if k == 'ConditionalOperator':
            return [ast.If(test=self.ex(e['inner'][0]), body=self.stmts(e['inner'][1]) or [ast.Pass()], orelse=self.stmts(e['inner'][2]) or [])]
        if k == 'CXXMemberCallExpr':
            nm = callee_name(e)
            obj = self.callee_obj(e)
            if nm == 'insert' and obj is not None and 'map<' in (qt(obj) + q1(obj)):
                a = self.ex(e['inner'][1])
                if isinstance(a, ast.Tuple) and len(a.elts) == 2:
                    return [ast.Assign(targets=[ast.Subscript(value=self.ex(obj), slice=a.elts[0], ctx=ast.Store())], value=a.elts[1])]
        if k == 'CallExpr' and callee_name(e) == 'swap' and len(e['inner']) == 3:
            a, b = e['inner'][1], e['inner'][2]
            return [ast.Assign(targets=[ast.Tuple(elts=[self.lv(a), self.lv(b)], ctx=ast.Store())],
                               value=ast.Tuple(elts=[self.lv(b), self.lv(a)], ctx=ast.Load()))]
        x = self.ex(o)
        if isinstance(x, (ast.Constant, ast.Name)):
            return []
        return [ast.Expr(value=x)]

    def is_assert(self, e):
        return any(x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == '__assert_fail' for x in walk(e))

    def lv(self, o):
        return self.ex(o)

    def assign(self, target, value):
        t = strip(target)
        if is_rec(q1(t)) or is_rec(qt(t)):
            return [ast.Expr(value=call('__reccopy__', self.ex(t), value))]
        x = self.ex(t)
        return [ast.Assign(targets=[x], value=value)]

    # ------------------------------------------------------------------ expressions
    def opname(self, e):
        c = strip(e['inner'][0])
        return c.get('referencedDecl', {}).get('name', '')

    def callee_obj(self, e):
        c = e['inner'][0]
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        if c.get('kind') == 'MemberExpr' and c.get('inner'):
            return c['inner'][0]
        return None

    def ex(self, o):
        k = o.get('kind')
        m = getattr(self, 'e_' + (k or 'None'), None)
        if m is None:
            self.unknown.append(k)
            return call('__unk_%s__' % k)
        r = m(o)
        if not hasattr(r, 'lineno'):
            self.loc(o, r)
        return r

    def inner(self, o):
        return self.ex(o['inner'][-1])

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = inner
    e_SubstNonTypeTemplateParmExpr = e_CXXConstCastExpr = inner
    e_CXXReinterpretCastExpr = e_CXXStdInitializerListExpr = inner

    def e_ImplicitCastExpr(self, o):
        if o.get('castKind') == 'NullToPointer':
            return C(None)
        return self.lossy(o, self.inner(o))

    def e_CXXStaticCastExpr(self, o):
        return self.lossy(o, self.inner(o))

    e_CStyleCastExpr = e_CXXStaticCastExpr

    def compound(self, e, v):
        to = plain(qt(e['inner'][0]))
        fr = e.get('computeResultType', {})
        fr = plain(fr.get('desugaredQualType', fr.get('qualType', to)))
        if to == 'float' and fr in ('double', 'long double') or fr in ('float', 'double', 'long double') and INTRE.match(to):
            return call('__narrow__', C('float' if to == 'float' else 'int'), v)
        return v

    def lossy(self, o, x):
        """a conversion that does not keep every value"""
        k = o.get('castKind')
        if k not in ('FloatingCast', 'FloatingToIntegral', 'IntegralCast'):
            return x
        to, fr = plain(qt(o)), plain(qt(o['inner'][-1]))
        v = literal(o)
        if k == 'FloatingCast' and to in ('float', '_Float16', '__fp16') and fr != to:
            if v is not None and struct.unpack('f', struct.pack('f', v))[0] == v:
                return x
            return call('__narrow__', C(to), x)
        if k == 'FloatingToIntegral':
            return call('__narrow__', C('int'), x)
        if k == 'IntegralCast' and to in SMALL and fr not in SMALL and v is None:
            return call('__narrow__', C(to), x)
        return x

    def e_CXXFunctionalCastExpr(self, o):
        e = o['inner'][-1]
        return self.construct(o, e)

    def construct(self, o, e):
        return self.ex(e)

    def e_CXXDefaultArgExpr(self, o):
        return C('$default')

    def e_CXXDefaultInitExpr(self, o):
        return self.inner(o) if o.get('inner') else C('$default')

    def e_IntegerLiteral(self, o):
        return C(int(o['value']))

    def e_FloatingLiteral(self, o):
        return C(float(o['value']))

    def e_CXXBoolLiteralExpr(self, o):
        return C(bool(o['value']))

    def e_CharacterLiteral(self, o):
        return C(o['value'])

    def e_StringLiteral(self, o):
        try:
            return C(json.loads(o['value']))
        except Exception:
            return C(o['value'].strip('"'))

    def e_PredefinedExpr(self, o):
        return C('__func__')

    e_SourceLocExpr = e_PredefinedExpr

    def e_CXXNullPtrLiteralExpr(self, o):
        return C(None)

    def e_GNUNullExpr(self, o):
        return C(None)

    def e_CXXThisExpr(self, o):
        return N('self')

    def e_UserDefinedLiteral(self, o):
        for x in walk(o):
            if x.get('kind') == 'StringLiteral':
                return call('__kwname__', self.e_StringLiteral(x))
        return C('?')

    def e_DeclRefExpr(self, o):
        r = o['referencedDecl']
        if r['kind'] in ('VarDecl', 'ParmVarDecl'):
            if r['id'] in self.locals:
                return N(self.lname(self.locals[r['id']]))
            v = self.u.vars.get(r['id'])
            if v is None and r['name'] in self.u.varnames and 'const' in r.get('type', {}).get('qualType', ''):
                v = self.u.varnames[r['name']][0][1]
            if v is not None and r['name'].isupper():
                return C(v)
            if r['name'].isupper():
                return ast.Attribute(value=N('__STATIC__'), attr=r['name'], ctx=ast.Load())
            return ast.Attribute(value=N('__G__'), attr=r['name'], ctx=ast.Load())
        if r['kind'] == 'EnumConstantDecl':
            return C('enum:' + r['name'])
        if r['kind'] in ('CXXMethodDecl', 'FunctionDecl'):
            t = self.u.targs_by_id(r['id']) if r['kind'] == 'FunctionDecl' else ''
            return C('&' + r['name'] + ('@' + t if t else ''))
        return N(r.get('name', '?'))

    def e_MemberExpr(self, o):
        base = o['inner'][0]
        nm = o.get('name', '')
        b = strip(base)
        bt = q1(b) + ' ' + qt(b)
        if re.search(r'Pstruct<', bt) and 'array' not in bt and 'vector' not in bt and 'SegmentedArrayPair' not in bt and nm.endswith('_'):
            return ast.Subscript(value=self.ex(base), slice=C(nm[:-1]), ctx=ast.Load())
        if re.search(r'buffer_info', bt) and nm == 'ptr':
            return self.ex(base)
        if nm == 'second' and o.get('isArrow') is not None and self.is_iter(b):
            return self.ex(base)
        if not nm:
            return self.ex(base)
        if o.get('referencedMemberDecl') and nm in ('DELETE_FLAG', 'TRAJECTORY_FLAG', 'NO_CELL'):
            v = self.u.vars.get(o['referencedMemberDecl'])
            if v is not None:
                return C(v)
        return ast.Attribute(value=self.ex(base), attr=nm, ctx=ast.Load())

    def is_iter(self, b):
        for x in walk(b):
            if '_Rb_tree_iterator' in (q1(x) + qt(x)) or 'iterator' in q1(x):
                return True
        return False

    def e_ArraySubscriptExpr(self, o):
        b, i = o['inner']
        if is_rec(q1(o)) or is_rec(qt(o)):
            return call('__recref__', self.ex(b), self.ex(i))
        return ast.Subscript(value=self.ex(b), slice=self.ex(i), ctx=ast.Load())

    def e_UnaryOperator(self, o):
        op = o['opcode']
        x = o['inner'][0]
        s = strip(x)
        if op == '&':
            if s.get('kind') == 'ArraySubscriptExpr':
                if is_rec(q1(s)):
                    return self.ex(s)
                return ast.Subscript(value=self.ex(s['inner'][0]), slice=ast.Slice(lower=self.ex(s['inner'][1]), upper=None, step=None), ctx=ast.Load())
            if s.get('kind') == 'CXXOperatorCallExpr' and self.opname(s) == 'operator[]':
                return ast.Subscript(value=self.ex(s['inner'][1]), slice=ast.Slice(lower=self.ex(s['inner'][2]), upper=None, step=None), ctx=ast.Load())
            return self.ex(x)
        if op == '*':
            return self.ex(x)
        if op == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.ex(x))
        if op == '-':
            return ast.UnaryOp(op=ast.USub(), operand=self.ex(x))
        if op == '+':
            return self.ex(x)
        if op == '~':
            return ast.UnaryOp(op=ast.Invert(), operand=self.ex(x))
        if op in ('++', '--'):
            v = ast.BinOp(left=self.ex(x), op=ast.Add() if op == '++' else ast.Sub(), right=C(1))
            st = call('__set__', self.ex(x), v)
            if o.get('isPostfix'):
                return ast.BinOp(left=st, op=ast.Sub() if op == '++' else ast.Add(), right=C(1))
            return st
        if op in ('__extension__', '__real', '__imag'):
            return self.ex(x)
        raise CppError('unary ' + op)

    CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}
    BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}

    def binop(self, op, a, b, o):
        if op in ('/', '%'):
            if is_int(o):
                return call('__cdiv__' if op == '/' else '__cmod__', a, b)
            return ast.BinOp(left=a, op=ast.Div(), right=b)
        return ast.BinOp(left=a, op=self.BIN[op](), right=b)

    def e_BinaryOperator(self, o):
        op = o['opcode']
        x, y = o['inner']
        if op == '=':
            return call('__set__', self.ex(x), self.ex(y))
        if op in ('&&', '||'):
            return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(), values=[self.ex(x), self.ex(y)])
        if op == ',':
            return call('__seq__', self.ex(x), self.ex(y))
        if op in self.CMP:
            return ast.Compare(left=self.ex(x), ops=[self.CMP[op]()], comparators=[self.ex(y)])
        if op in ('.*', '->*'):
            return self.ex(y)
        # pointer arithmetic
        if op == '+' and ('*' in qt(o) or '*' in q1(o)):
            p, i = (x, y) if '*' in qt(x) + q1(x) or '[' in qt(x) + q1(x) else (y, x)
            return ast.Subscript(value=self.ex(p), slice=ast.Slice(lower=self.ex(i), upper=None, step=None), ctx=ast.Load())
        return self.binop(op, self.ex(x), self.ex(y), o)

    def e_CompoundAssignOperator(self, o):
        v = self.binop(o['opcode'][:-1], self.ex(o['inner'][0]), self.ex(o['inner'][1]), o)
        return call('__set__', self.ex(o['inner'][0]), self.compound(o, v))

    def e_ConditionalOperator(self, o):
        if self.is_assert(o):
            return C(None)
        a = o['inner']
        return ast.IfExp(test=self.ex(a[0]), body=self.ex(a[1]), orelse=self.ex(a[2]))

    def e_InitListExpr(self, o):
        if 'array_filler' in o:
            els = [x for x in o['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
            return ast.List(elts=[self.ex(x) for x in els], ctx=ast.Load())
        els = o.get('inner', [])
        if len(els) == 1 and '[' not in q1(o) and 'array' not in q1(o):
            return self.ex(els[0])
        return ast.List(elts=[self.ex(x) for x in els], ctx=ast.Load())

    def e_ImplicitValueInitExpr(self, o):
        return C(0)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXConstructExpr(self, o):
        t = q1(o)
        a = [x for x in o.get('inner', ()) if x.get('kind') != 'CXXDefaultArgExpr']
        if not a:
            return self.default(t)
        ct = o.get('ctorType', {}).get('qualType', '')
        base = re.sub(r'<.*', '', t.replace('const ', '')).strip()
        short = base.split('::')[-1]
        if short == 'capsule':
            if 'Pstruct' in q1(a[0]) or '*' in q1(a[0]):
                return call('__capsule__', self.ex(a[0]))
            return self.ex(a[0])
        if short == 'dict':
            return self.pydict(a)
        if len(a) == 1:
            if is_rec(t):
                return call('__recnew__', self.ex(a[0]))
            at = q1(a[0])
            if short in ('array_t',) and (is_int(strip(a[0])) or is_int(a[0])):
                return call('empty', self.ex(a[0]))
            if short in ('vector',) and (is_int(strip(a[0])) or is_int(a[0])):
                return call('empty', self.ex(a[0]))
            if short in ('Cell', 'Facet', 'Vertex'):
                if short in q1(a[0]):
                    return self.ex(a[0])
            return self.ex(a[0])
        if short == 'pair' or short == 'tuple':
            return ast.Tuple(elts=[self.ex(x) for x in a], ctx=ast.Load())
        return call(short, *[self.ex(x) for x in a])

    def e_CXXTemporaryObjectExpr(self, o):
        return self.e_CXXConstructExpr(o)

    def pydict(self, a):
        ks, vs = [], []
        for x in a:
            y = strip(x)
            z = y
            while z.get('kind') in ('CXXConstructExpr', 'CXXFunctionalCastExpr') and z.get('inner'):
                z = strip(z['inner'][0])
            kw = self.kwarg(z)
            if kw is None:
                return call('dict', *[self.ex(x) for x in a])
            ks.append(C(kw[0]))
            vs.append(kw[1])
        return ast.Dict(keys=ks, values=vs)

    def kwarg(self, z):
        if z.get('kind') == 'CXXOperatorCallExpr' and self.opname(z) == 'operator=':
            l = strip(z['inner'][1])
            if l.get('kind') == 'UserDefinedLiteral' or (l.get('kind') == 'CallExpr' and (callee_name(l) or '').startswith('operator""')):
                nm = self.e_UserDefinedLiteral(l).args[0].value
                return nm, self.ex(z['inner'][2])
        return None

    def e_CXXNewExpr(self, o):
        a = o.get('inner', [])
        return self.ex(a[-1]) if a else call('__new__', C(q1(o)))

    def args(self, xs):
        out, kws = [], []
        for x in xs:
            if x.get('kind') == 'CXXDefaultArgExpr':
                continue
            y = strip(x)
            z = y
            while z.get('kind') in ('CXXConstructExpr', 'CXXFunctionalCastExpr') and len(z.get('inner', ())) == 1:
                z = strip(z['inner'][0])
            kw = self.kwarg(z)
            if kw:
                kws.append(ast.keyword(arg=kw[0], value=kw[1]))
            else:
                out.append(self.ex(x))
        return out, kws

    def e_CallExpr(self, o):
        nm = callee_name(o)
        xs = o['inner'][1:]
        if nm in ('make_tuple', 'make_pair', 'tie'):
            return ast.Tuple(elts=[self.ex(x) for x in xs], ctx=ast.Load())
        if nm in ('move', 'forward', 'ref', 'cref', 'cast', 'get'):
            if nm == 'get' and len(xs) == 1:
                return call('__get__', self.ex(xs[0]))
            return self.ex(xs[0])
        if nm == 'to_string':
            return call('str', self.ex(xs[0]))
        if nm == '__assert_fail':
            return C(None)
        if nm in ('pow',):
            return ast.BinOp(left=self.ex(xs[0]), op=ast.Pow(), right=self.ex(xs[1]))
        if nm in ('dolfin_error',):
            return call('__raise__')
        a, k = self.args(xs)
        rid = callee_id(o)
        fn = self.resolve_name(rid, nm)
        return ast.Call(func=N(fn), args=a, keywords=k)

    def resolve_name(self, rid, nm):
        return self.u.fname.get(rid, nm) if hasattr(self.u, 'fname') else nm

    def e_CXXMemberCallExpr(self, o):
        c = o['inner'][0]
        while c.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        xs = o['inner'][1:]
        if c.get('kind') == 'BinaryOperator' and c['opcode'] in ('.*', '->*'):
            a, k = self.args(xs)
            return ast.Call(func=self.wrapcall(self.ex(c['inner'][1])), args=a, keywords=k)
        if c.get('kind') != 'MemberExpr':
            raise CppError('member call')
        nm = c.get('name', '')
        obj = c['inner'][0]
        so = strip(obj)
        ot = q1(so) + ' ' + qt(so)
        if nm.startswith('operator') and not nm.startswith('operator()') and len(xs) == 0:
            return self.ex(obj)       # conversion operator
        if nm == 'attr' and xs:
            s = strip(xs[0])
            if s.get('kind') == 'StringLiteral':
                return ast.Attribute(value=self.ex(obj), attr=self.e_StringLiteral(s).value, ctx=ast.Load())
            return call('getattr', self.ex(obj), self.ex(xs[0]))
        if nm in ('cast', 'unchecked', 'mutable_unchecked', 'request', 'c_str', 'get', 'data', 'mutable_data') and not [x for x in xs if x.get('kind') != 'CXXDefaultArgExpr']:
            if nm == 'cast' and plain(qt(o)) == 'float':
                return call('__narrow__', C('float'), self.ex(obj))
            return self.ex(obj)
        if nm == 'is_none':
            return ast.Compare(left=self.ex(obj), ops=[ast.Is()], comparators=[C(None)])
        if nm in ('size', 'length') and not xs and ('std::' in ot or 'py::' in ot or 'pybind11' in ot or 'vector' in ot or 'Map<' in ot):
            return call('len', self.ex(obj))
        if nm == 'empty' and not xs:
            return ast.Compare(left=call('len', self.ex(obj)), ops=[ast.Eq()], comparators=[C(0)])
        if nm == 'compare' and len(xs) == 1:
            return ast.IfExp(test=ast.Compare(left=self.ex(obj), ops=[ast.Eq()], comparators=[self.ex(xs[0])]), body=C(0), orelse=C(1))
        if nm == 'find' and 'map<' in ot + self.deref_type(so):
            kx = self.ex(xs[0])
            return ast.IfExp(test=ast.Compare(left=kx, ops=[ast.In()], comparators=[self.ex(obj)]),
                             body=ast.Subscript(value=self.ex(obj), slice=self.ex(xs[0]), ctx=ast.Load()), orelse=C(None))
        if nm == 'count' and 'map<' in ot:
            return ast.Compare(left=self.ex(xs[0]), ops=[ast.In()], comparators=[self.ex(obj)])
        if nm == 'end' and 'map<' in ot:
            return C(None)
        if nm == 'def' and len(xs) > 1 and strip(xs[0]).get('kind') == 'StringLiteral':
            n0 = len(self.u.functions)
            a, k = self.args(xs)
            if len(self.u.functions) == n0 + 1 and isinstance(a[1], ast.Call) and getattr(a[1].func, 'id', '') == '__lambda__' and a[1].args:
                a[1].args[0] = C(self.u.fresh('bind:' + a[0].value))
                self.u.functions[-1]['key'] = a[1].args[0].value
            return ast.Call(func=ast.Attribute(value=self.ex(obj), attr='def', ctx=ast.Load()), args=a, keywords=k)
        if nm == 'at' and len(xs) == 1:
            return ast.Subscript(value=self.ex(obj), slice=self.ex(xs[0]), ctx=ast.Load())
        if nm in ('push_back', 'emplace_back') and 'vector<' in ot and 'SegmentedArrayPair' not in ot.split('vector<')[0]:
            return ast.Call(func=ast.Attribute(value=self.ex(obj), attr='append', ctx=ast.Load()), args=[self.ex(xs[0])], keywords=[])
        a, k = self.args(xs)
        return ast.Call(func=ast.Attribute(value=self.ex(obj), attr=nm, ctx=ast.Load()), args=a, keywords=k)

    def deref_type(self, so):
        return qt(so)

    def wrapcall(self, fn):
        """a dynamic call target must not look like a plain name"""
        return call('__dyn__', fn) if isinstance(fn, ast.Name) else fn

    def e_CXXOperatorCallExpr(self, o):
        op = self.opname(o)
        a = o['inner'][1:]
        if op == 'operator[]':
            if is_rec(q1(o)) or is_rec(qt(o)):
                return call('__recref__', self.ex(a[0]), self.ex(a[1]))
            return ast.Subscript(value=self.ex(a[0]), slice=self.ex(a[1]), ctx=ast.Load())
        if op == 'operator()':
            z = strip(a[0])
            if z.get('kind') == 'DeclRefExpr' and 'lambda' in qt(z) + q1(z):
                return ast.Call(func=N(self.lname(z['referencedDecl'])), args=[self.ex(x) for x in a[1:]], keywords=[])
            t = qt(a[0]) + q1(a[0]) + qt(strip(a[0])) + q1(strip(a[0]))
            if 'unchecked' in t:
                idx = [self.ex(x) for x in a[1:]]
                if is_rec(q1(o)) or is_rec(qt(o)):
                    return call('__recref__', self.ex(a[0]), idx[0])
                return ast.Subscript(value=self.ex(a[0]), slice=idx[0] if len(idx) == 1 else ast.Tuple(elts=idx, ctx=ast.Load()), ctx=ast.Load())
            args, kws = self.args(a[1:])
            return ast.Call(func=self.wrapcall(self.ex(a[0])), args=args, keywords=kws)
        if op == 'operator=':
            return call('__set__', self.ex(a[0]), self.ex(a[1]))
        if op in ('operator->', 'operator*') and len(a) == 1:
            return self.ex(a[0])
        if op in ('operator<<', 'operator>>'):
            return call('__ignore__')
        s = op[8:]
        if s in self.CMP:
            return ast.Compare(left=self.ex(a[0]), ops=[self.CMP[s]()], comparators=[self.ex(a[1])])
        if s in ('+', '-', '*', '/') and len(a) == 2:
            return self.binop(s, self.ex(a[0]), self.ex(a[1]), o)
        if s == '-' and len(a) == 1:
            return ast.UnaryOp(op=ast.USub(), operand=self.ex(a[0]))
        if s == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.ex(a[0]))
        if s in ('++', '--'):
            return call('__set__', self.ex(a[0]), ast.BinOp(left=self.ex(a[0]), op=ast.Add() if s == '++' else ast.Sub(), right=C(1)))
        if s in ('+=', '-=', '*=', '/='):
            return call('__set__', self.ex(a[0]), self.binop(s[0], self.ex(a[0]), self.ex(a[1]), o))
        return call('op' + s, *[self.ex(x) for x in a])

    def e_LambdaExpr(self, o):
        rec = [x for x in o.get('inner', ()) if x.get('kind') == 'CXXRecordDecl']
        op = [x for x in rec[0].get('inner', ()) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()'] if rec else []
        body = [x for x in op[0].get('inner', ()) if x.get('kind') == 'CompoundStmt'] if op else []
        if not body or any(x.get('kind') == 'FieldDecl' for x in rec[0].get('inner', ())):
            self.unknown.append('LambdaExpr')
            return call('__lambda__')
        nm = self.u.fresh('lambda in ' + self.f['name'])
        self.u.functions.append(dict(name='lambda_', cls=None, ctargs='', ftargs='', node=op[0], body=body[0], type=op[0]['type']['qualType'], id=op[0]['id'], prev=None, key=nm))
        return call('__lambda__', C(nm))

    def e_UnaryExprOrTypeTraitExpr(self, o):
        return call('sizeof', C(q1(o['inner'][0]) if o.get('inner') else o.get('argType', {}).get('qualType', '?')))

    def e_ArrayInitLoopExpr(self, o):
        return self.ex(o['inner'][0])

    def e_OpaqueValueExpr(self, o):
        return self.ex(o['inner'][0]) if o.get('inner') else C('?')


def callee_name(o):
    c = o['inner'][0]
    c = strip(c)
    if c.get('kind') == 'DeclRefExpr':
        return c['referencedDecl'].get('name')
    if c.get('kind') == 'MemberExpr':
        return c.get('name')
    if c.get('kind') == 'UnresolvedLookupExpr':
        return c.get('name')
    return '?'


def callee_id(o):
    c = strip(o['inner'][0])
    if c.get('kind') == 'DeclRefExpr':
        return c['referencedDecl'].get('id')
    return None


def walk(o):
    yield o
    for x in o.get('inner', ()):
        if isinstance(x, dict):
            yield from walk(x)


def repl_continue(stmts, step):
    import copy

    class T(ast.NodeTransformer):
        def visit_For(self, n):
            return n

        def visit_While(self, n):
            return n

        def visit_Continue(self, n):
            return [copy.deepcopy(s) for s in step] + [n]
    out = []
    for s in stmts:
        r = T().visit(s)
        out.extend(r if isinstance(r, list) else [r])
    return out


def fix(t, line=0):
    for n in ast.iter_child_nodes(t):
        if isinstance(n, (ast.stmt, ast.expr, ast.arg, ast.keyword)) and not hasattr(n, 'lineno'):
            n.lineno = getattr(t, 'lineno', line)
            n.col_offset = 0
        fix(n, getattr(t, 'lineno', line))


def ptype_index(targs):
    return targs


def world_of(repo, mods):
    """translate the modules; functions are indexed as  module -> Class<targs>.name / name<targs>"""
    w = World()
    units = {}
    for m in mods:
        u = Unit(repo, m)
        units[m] = u
        u.fname = {}
        seen = {}
        # overloads and instantiations of free functions get distinct names
        for f in u.functions:
            if f['cls'] is None:
                nm = f['name']
                if f['ftargs']:
                    nm = nm + '@' + f['ftargs']
                if nm in seen:
                    seen[nm] += 1
                    nm = '%s#%d' % (nm, seen[nm])
                else:
                    seen[nm] = 1
                f['key'] = nm
                u.fname[f['id']] = nm
                if f['prev']:
                    u.fname[f['prev']] = nm
        # other declarations of the same function (earlier redeclarations)
        tree = ast.Module(body=[], type_ignores=[])
        classes = {}
        errs = []
        for f in u.functions:
            try:
                tr = Tr(u, f)
                fd = tr.func()
            except (CppError, KeyError, IndexError) as e:
                errs.append((f['name'], repr(e)))
                continue
            f['unknown'] = tr.unknown
            if f['cls'] is None:
                fd.name = f['key']
                tree.body.append(fd)
            else:
                cn = f['cls'] + ('<%s>' % f['ctargs'] if f['ctargs'] else '')
                c = classes.setdefault(cn, ast.ClassDef(name=cn, bases=[], keywords=[], body=[], decorator_list=[], lineno=1, col_offset=0))
                names = {}
                for x in c.body:
                    names[x.name] = x
                if fd.name in names:
                    sig = re.sub(r'[^A-Za-z_0-9]+', '_', f['type'].split('(', 1)[1])
                    fd.name = fd.name + '#' + sig
                c.body.append(fd)
        tree.body.extend(classes.values())
        tree.body.sort(key=lambda x: isinstance(x, ast.ClassDef))
        u.errs = errs
        mod = w.add_tree('cpp_' + m, os.path.join(repo, 'cpp', MODULES[m][0]), tree)
        for f in mod.funcs.values():
            f.file = os.path.join(repo, 'cpp')
    return w, units
