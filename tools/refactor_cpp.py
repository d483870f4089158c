#!/usr/bin/env python3
"""developer tool: behaviour-preserving textual rewrites of the C++ sources of a copy of the repository.
usage: refactor_cpp.py SRC_REPO DST_REPO KIND"""
import os
import re
import shutil
import sys

SKIP = {'predicates.cpp', 'predicates.h', 'example.cpp', 'test_solib.cpp', 'test.h'}


def strip(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\')', lambda m: m.group(1) or '', s, flags=re.S)


def close(s, i, o='{', c='}'):
    """index just after the bracket matching s[i]"""
    d = 0
    q = None
    while i < len(s):
        ch = s[i]
        if q:
            if ch == '\\':
                i += 1
            elif ch == q:
                q = None
        elif ch == '"':
            q = ch
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError


def stmt_end(s, i):
    """end of the statement starting at i"""
    m = re.compile(r'\s*').match(s, i)
    i = m.end()
    if s[i] == '{':
        return close(s, i)
    m = re.compile(r'(if|for|while|switch)\b\s*').match(s, i)
    if m:
        j = close(s, m.end(), '(', ')')
        e = stmt_end(s, j)
        if m.group(1) == 'if':
            m2 = re.compile(r'\s*else\b').match(s, e)
            if m2:
                return stmt_end(s, m2.end())
        return e
    d = 0
    while True:
        if s[i] in '({[':
            d += 1
        if s[i] in ')}]':
            d -= 1
        if s[i] == ';' and d == 0:
            return i + 1
        i += 1


def forwhile(s):
    pos = 0
    while True:
        m = re.compile(r'\bfor\s*\(\s*([\w:]+)\s+(\w+)\s*=\s*([^;]+);([^;]+);([^;()]+)\)').search(s, pos)
        if not m:
            return s
        e = stmt_end(s, m.end())
        body = s[m.end():e]
        pos = m.end()
        if re.search(r'\bcontinue\b', body):
            continue
        new = '{ %s %s = %s; while (%s) { %s %s; } }' % (m.group(1), m.group(2), m.group(3), m.group(4), body, m.group(5))
        s = s[:m.start()] + new + s[e:]
        pos = m.start() + 10


def preinc(s):
    return re.sub(r'\b(\w+)\+\+\s*(?=[;)])', r'++\1', s)


def plusone(s):
    return re.sub(r'\b(\w+)\+\+\s*(?=[;)])', r'\1 += 1', s)


def cmpswap(s):
    s = re.sub(r'\(\s*(\w+)\s*==\s*([\w:]+)\s*\)', r'(\2 == \1)', s)
    s = re.sub(r'\(\s*(\w+)\s*!=\s*([\w:]+)\s*\)', r'(\2 != \1)', s)
    return re.sub(r';\s*(\w+)\s*<\s*(\w+)\s*;', r'; \2 > \1;', s)


def elseinvert(s):
    pos = 0
    while True:
        m = re.compile(r'\bif\s*\(').search(s, pos)
        if not m:
            return s
        pos = m.end()
        j = close(s, m.end() - 1, '(', ')')
        cond = s[m.end():j - 1]
        if s[max(0, m.start() - 10):m.start()].rstrip().endswith('else') or ';' in cond:
            continue
        k = re.compile(r'\s*').match(s, j).end()
        if s[k] != '{':
            continue
        e = close(s, k)
        m2 = re.compile(r'\s*else\s*(?=\{)').match(s, e)
        if not m2:
            continue
        e2 = close(s, m2.end())
        a, b = s[k:e], s[m2.end():e2]
        s = s[:m.start()] + 'if (!(%s)) %s else %s' % (cond, b, a) + s[e2:]


def compound(s):
    return re.sub(r'(?<=[;{}\s])([\w\[\].>-]+?)\s*([-+*])=\s*([^;=]+);', lambda m: '%s = %s %s (%s);' % (m.group(1), m.group(1), m.group(2), m.group(3)) if '->' not in m.group(1) or True else m.group(0), s)


def rename(s):
    loc = set(re.findall(r'\b(?:auto|double|int|size_t|ssize_t|bool)\s*[&*]?\s*(\w+)\s*(?:=|;|\[)', s))
    import glob
    hs = "".join(open(h).read() for h in glob.glob("/repo/cpp/*.h"))
    loc = {x for x in loc if not re.search(r"\b%s\b" % x, hs)}
    loc = {x for x in loc if not re.search(r'(\.|->|::)\s*%s\b' % x, s) and len(x) > 1}
    for x in loc:
        if re.search(r'"[^"]*\b%s\b[^"]*"' % x, s):
            continue
        s = re.sub(r'\b%s\b' % x, x + '_z', s)
    return s


def lambdabody(s):
    """the body of innermost for loops becomes a local lambda"""
    k = 0
    pos = 0
    while True:
        m = re.compile(r'\bfor\s*\(').search(s, pos)
        if not m:
            return s
        pos = m.end()
        j = close(s, m.end() - 1, '(', ')')
        e = stmt_end(s, j)
        body = s[j:e]
        if re.search(r'\b(continue|break|return|for|while|goto)\b', body):
            continue
        k += 1
        b = body.strip()
        if not b.startswith('{'):
            b = '{ %s }' % b
        s = s[:j] + ' { auto step_%d = [&]() %s; step_%d(); }' % (k, b, k) + s[e:]


def guard(s):
    """if (c) { A } as last statement of a loop body -> if (!(c)) continue; A"""
    pos = 0
    while True:
        m = re.compile(r'\bfor\s*\(').search(s, pos)
        if not m:
            return s
        pos = m.end()
        j = close(s, m.end() - 1, '(', ')')
        k = re.compile(r'\s*').match(s, j).end()
        if s[k] != '{':
            continue
        e = close(s, k)
        inner = s[k + 1:e - 1]
        i = 0
        last = None
        try:
            while inner[i:].strip():
                n = stmt_end(inner, i)
                last = (i, n)
                i = n
        except (IndexError, ValueError):
            continue
        if not last:
            continue
        st = inner[last[0]:last[1]]
        m2 = re.match(r'\s*if\s*\(', st)
        if not m2:
            continue
        j2 = close(st, m2.end() - 1, '(', ')')
        rest = st[j2:].strip()
        if re.compile(r'\belse\b').search(rest) and not rest.startswith('{') or not rest.startswith('{') or close(rest, 0) != len(rest):
            continue
        new = inner[:last[0]] + '\nif (!(%s)) continue;\n%s\n' % (st[m2.end():j2 - 1], rest[1:-1])
        s = s[:k + 1] + new + s[e - 1:]


def tern(s):
    """if (c) { x = a; } else { x = b; } -> x = c ? a : b;"""
    return re.sub(r'\bif\s*\(([^(){};]*)\)\s*\{\s*(\w+)\s*=\s*([^;{}]+);\s*\}\s*else\s*\{\s*\2\s*=\s*([^;{}]+);\s*\}', r'\2 = (\1) ? (\3) : (\4);', s)


def rangefor(s):
    """for (auto x : v) -> iterator loop"""
    pos = 0
    k = 0
    while True:
        m = re.compile(r'\bfor\s*\(\s*(auto\s*(?:const)?\s*&?)\s*(\w+)\s*:\s*(\w+)\s*\)').search(s, pos)
        if not m:
            return s
        pos = m.end()
        e = stmt_end(s, m.end())
        body = s[m.end():e]
        k += 1
        s = s[:m.start()] + 'for (auto it_%d = %s.begin(); it_%d != %s.end(); ++it_%d) { %s %s = *it_%d; %s }' % (k, m.group(3), k, m.group(3), k, m.group(1), m.group(2), k, body) + s[e:]


def none(s):
    return s


def structbind(s):
    """doubles initialised from products: introduce a named factor"""
    k = [0]

    def r(m):
        k[0] += 1
        return 'const double fac_%d = %s; %s = fac_%d*%s;' % (k[0], m.group(2), m.group(1), k[0], m.group(3))
    return re.sub(r'\b(double \w+)\s*=\s*([\w.\[\]]+)\s*\*\s*([^;]+);', r, s)


KINDS = dict(none=none, forwhile=forwhile, preinc=preinc, plusone=plusone, cmpswap=cmpswap, elseinvert=elseinvert, compound=compound, rename=rename,
             lambdabody=lambdabody, guard=guard, tern=tern, rangefor=rangefor, structbind=structbind)

if __name__ == '__main__':
    src, dst, kind = sys.argv[1:]
    if os.path.exists(dst):
        assert dst.startswith('/tmp/')
        shutil.rmtree(dst)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.git', 'docs', '__pycache__'), symlinks=True)
    d = os.path.join(dst, 'cpp')
    n = 0
    for f in sorted(os.listdir(d)):
        if f.endswith(('.cpp', '.h')) and f not in SKIP:
            p = os.path.join(d, f)
            s = strip(open(p).read())
            t = KINDS[kind](s)
            n += t != s
            open(p, 'w').write(t)
    print(kind, n, 'files changed')
