#!/usr/bin/env python3
"""developer tool: mutate the Python functions the obligations cover and list the mutants no obligation reports.
usage: mutate.py OBLS.json OUT.json [--max N] [--only REGEX]   (OBLS.json from allobl.py --py --json)"""
import ast
import copy
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import rules.base as base                                      # noqa
import check                                                   # noqa
from tools.allobl import collect                               # noqa

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mod], ast.Mod: [ast.FloorDiv],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def is_print(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
        isinstance(s.value.func, ast.Name) and s.value.func.id == 'print' or ast.unparse(s.value.func) in ('sys.stdout.write', 'logging.info'))


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def msgnodes(fn):
    """nodes inside print calls, error texts, docstrings"""
    out = set()
    for s in ast.walk(fn):
        if isinstance(s, ast.stmt) and (is_print(s) or is_doc(s)):
            out.update(id(x) for x in ast.walk(s))
        elif isinstance(s, ast.Raise):
            out.update(id(x) for x in ast.walk(s) if x is not s)
        elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and ('Msg' in t.id or t.id == 'fncName' or 'msg' in t.id) for t in s.targets):
            out.update(id(x) for x in ast.walk(s))
        elif isinstance(s, ast.Call) and ast.unparse(s.func) == 'sys.exit':
            out.update(id(x) for x in ast.walk(s) if x is not s)
        elif isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and not s.test.value:
            for b in s.body:
                out.update(id(x) for x in ast.walk(b))
            out.add(id(s.test))
    return out


def sites(fn):
    """[(path index, kind, description, apply)] where apply edits a fresh copy"""
    res = []
    skip = msgnodes(fn)
    nodes = list(ast.walk(fn))
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for alt in CMP.get(type(n.ops[0]), []):
                res.append((k, ln, 'cmp %s -> %s' % (ast.unparse(n), alt.__name__), lambda m, alt=alt: m.ops.__setitem__(0, alt())))
        elif isinstance(n, ast.BoolOp):
            def sw(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            res.append((k, ln, 'boolop ' + ast.unparse(n), sw))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for alt in BIN[type(n.op)]:
                res.append((k, ln, 'bin %s -> %s' % (ast.unparse(n), alt.__name__), lambda m, alt=alt: setattr(m, 'op', alt())))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            for alt in BIN[type(n.op)]:
                res.append((k, ln, 'aug %s -> %s' % (ast.unparse(n), alt.__name__), lambda m, alt=alt: setattr(m, 'op', alt())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            res.append((k, ln, 'neg ' + ast.unparse(n), lambda m: setattr(m, 'op', ast.UAdd())))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                res.append((k, ln, 'const %r' % v, lambda m: setattr(m, 'value', not m.value)))
            elif isinstance(v, (int, float)):
                res.append((k, ln, 'const %r -> +1' % v, lambda m: setattr(m, 'value', m.value + 1)))
                if v not in (0,):
                    res.append((k, ln, 'const %r -> -1' % v, lambda m: setattr(m, 'value', m.value - 1)))
            elif isinstance(v, str) and v and re.match(r'^\w+$', v):
                res.append((k, ln, 'const %r -> X' % v, lambda m: setattr(m, 'value', m.value + 'X')))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and ast.dump(n.args[0]) != ast.dump(n.args[1]) and not any(isinstance(a, ast.Starred) for a in n.args):
                def swp(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                res.append((k, ln, 'swapargs ' + ast.unparse(n), swp))
            if n.keywords:
                res.append((k, ln, 'dropkw ' + ast.unparse(n), lambda m: m.keywords.pop()))
        elif isinstance(n, ast.Break):
            res.append((k, ln, 'break->continue', 'CONT'))
        elif isinstance(n, ast.Continue):
            res.append((k, ln, 'continue->break', 'BRK'))
        if isinstance(n, (ast.If, ast.While)):
            def ng(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            if not isinstance(n.test, ast.Compare):
                res.append((k, ln, 'negate ' + ast.unparse(n.test), ng))
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range':
            def rg(m):
                a = m.iter.args
                i = 0 if len(a) == 1 else 1
                a[i] = ast.BinOp(a[i], ast.Sub(), ast.Constant(1))
            res.append((k, ln, 'range-1 ' + ast.unparse(n.iter), rg))
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, ast.Return) and s.value is None and n is fn:
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Return, ast.Break, ast.Continue)) and id(s) not in skip or \
                            isinstance(s, ast.Expr) and not is_doc(s) and not is_print(s) and id(s) not in skip:
                        def dl(m, fld=fld, j=j):
                            getattr(m, fld)[j] = ast.Pass()
                        res.append((k, s.lineno, 'delete ' + ast.unparse(s), dl))
    return res


_T = {}


def job(a):
    file, qual, line, k, i = a
    src, tree = _T[file]
    t = copy.deepcopy(tree)
    fn = locate(t, qual, line)
    nodes = list(ast.walk(fn))
    s = sites(fn)[i]
    n = nodes[k]
    if s[3] in ('CONT', 'BRK'):
        new = ast.Continue() if s[3] == 'CONT' else ast.Break()
        for p in nodes:
            for fld in ('body', 'orelse'):
                b = getattr(p, fld, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = new
    else:
        s[3](n)
    ast.fix_missing_locations(t)
    try:
        new = ast.unparse(t)
        compile(new, file, 'exec')
    except Exception:
        return a, 'invalid', ''
    root = _T['root']
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for f in os.listdir(root):
            if f.endswith('.py') and f != file:
                os.symlink(os.path.join(root, f), os.path.join(d, f))
        open(os.path.join(d, file), 'w').write(new)
        base.REPO = d
        base._worlds.pop('py', None)
        und = 0
        for o in _T['cov'][qual]:
            check._OBLS[:] = [o]
            r = check.run_one((0, 1, 'quick'))
            if r.status == 'violated':
                return a, 'killed', o.name
            if r.status == 'undecided':
                und += 1
        return a, 'undecided' if und else 'survived', ''
    finally:
        shutil.rmtree(d)
        base._worlds.pop('py', None)


def locate(tree, qual, line):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno == line:
            return n


if __name__ == '__main__':
    args = sys.argv[1:]
    only = None
    mx = None
    if '--only' in args:
        i = args.index('--only')
        only = args[i + 1]
        del args[i:i + 2]
    if '--max' in args:
        i = args.index('--max')
        mx = int(args[i + 1])
        del args[i:i + 2]
    frm = None
    if '--from' in args:
        i = args.index('--from')
        frm = {x[1] for x in json.load(open(args[i + 1]))}
        del args[i:i + 2]
    cov = json.load(open(args[0]))
    byname = {}
    for k, v in cov.items():
        for q in [v[2]] + list(v[3]):
            if q:
                byname.setdefault(q, []).append(k)
    obl = {o.pid + ' ' + o.name: o for o in collect(['--py'])}
    base.specworld()
    w = base.pyworld()
    _T['root'] = base.REPO
    _T['cov'] = {}
    jobs = []
    desc = {}
    for m in w.modules.values():
        file = os.path.basename(m.file)
        src = open(m.file).read()
        _T[file] = (src, ast.parse(src))
    seen = set()
    for fl in w.by_name.values():
        for f in fl:
            q = f.qual()
            if q not in byname or only and not re.search(only, q):
                continue
            file = os.path.basename(f.file)
            if (file, f.node.lineno) in seen:
                continue
            seen.add((file, f.node.lineno))
            cs = sorted((obl[k] for k in byname[q] if k in obl), key=lambda o: cov[o.pid + ' ' + o.name][4])
            if not cs:
                continue
            _T['cov'][q] = cs
            fn = locate(_T[file][1], q, f.node.lineno)
            if fn is None:
                continue
            for i, s in enumerate(sites(fn)):
                jobs.append((file, q, f.node.lineno, s[0], i))
                desc[jobs[-1]] = '%s:%d %s: %s' % (file, s[1], q, s[2])
    if frm:
        jobs = [j for j in jobs if desc[j] in frm]
    random.Random(int(os.environ.get('VERIF_SEED', '1'))).shuffle(jobs)
    if mx:
        jobs = jobs[:mx]
    import multiprocessing as mp
    t0 = time.time()
    cnt = {}
    out = []
    with mp.get_context('fork').Pool(8) as pool:
        for a, st, by in pool.imap_unordered(job, jobs, chunksize=4):
            cnt[st] = cnt.get(st, 0) + 1
            if st in ('survived', 'undecided'):
                out.append((st, desc[a]))
    out.sort()
    json.dump(out, open(args[1], 'w'), indent=0)
    print(len(jobs), cnt, '%.0f s' % (time.time() - t0))
