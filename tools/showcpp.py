#!/usr/bin/env python3
"""developer aid: print the Python-syntax translation of a C++ function:  showcpp.py UNIT NAME"""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from rules import base
w, u = base.cppworld(sys.argv[1])
if len(sys.argv) < 3:
    for m in w.modules.values():
        print(m.name, sorted(m.funcs), {c: sorted(e['methods']) for c, e in m.classes.items()})
    print(getattr(u, 'errs', None))
else:
    for f in w.by_name.get(sys.argv[2].split('.')[-1], []):
        if f.qual() == sys.argv[2] or '.' not in sys.argv[2]:
            print(f.qual(), f.file)
            print(ast.unparse(f.node))
