"""Particle container set-up, record layout."""
from .base import Cmp, Rule, Finding


def container():
    o = [Cmp('py.ParticleSpecies_C.__init__', 'py', 'Particle_Module', 'ParticleSpecies_C.__init__', 'setup:Species.__init__')]
    for s in ('cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r', None, 'other'):
        o.append(Cmp('py.Particle_C.__init__.%s' % s, 'py', 'Particle_Module', 'Particle_C.__init__', 'setup:Container.__init__', attr_consts=dict(coordinate_system=s),
                     sym_attrs={'SEGMENT_LENGTH'}, arg_consts={'print_flag': False}, known={'getattr', 'dtype'}, effects={'getattr': dict(pure=True), 'dtype': dict(pure=True)},
                     hints={'use_cpp_integrators': [True, False, None], 'charge': [0, 1, -2]}))
    return o


TYPES = [('cartesian_x', ['x']), ('cartesian_xy', ['x', 'y']), ('cartesian_xyz', ['x', 'y', 'z']), ('spherical_r', ['r'])]


def record(c):
    """(names of the doubles, names of the ints) in storage order"""
    return c + [a + '0' for a in c] + ['u' + a for a in c] + ['weight'], ['bitflags', 'cell_index', 'unique_ID', 'crossings']


def layout_witness():
    """type-level witness: the C++ records have the packed layout of the numpy record type (members, order, types, size)"""
    import os
    import re
    import subprocess
    import tempfile
    from .base import REPO, Broken
    from engine import cppfront
    src = ['#include <cstddef>', '#include <type_traits>', '#include "Pstruct.h"', 'using namespace dnt;']
    n = 0
    for i, (t, c) in enumerate(TYPES):
        f8, i4 = record(c)
        T = 'Pstruct<Ptype::%s>' % t
        off = 0
        for names, ty, sz in ((f8, 'double', 8), (i4, 'int', 4)):
            for m in names:
                src.append('static_assert(std::is_same<decltype(%s::%s_), %s>::value, "%s.%s is not %s");' % (T, m, ty, t, m, ty))
                src.append('static_assert(offsetof(%s, %s_) == %d, "%s.%s is not at offset %d");' % (T, m, off, t, m, off))
                off += sz
                n += 2
        src.append('static_assert(sizeof(%s) == %d, "%s does not have size %d");' % (T, off, t, off))
        src.append('static_assert(static_cast<int>(Ptype::%s) == %d, "%s is not record type %d");' % (t, i, t, i))
        n += 2
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine')
    with tempfile.NamedTemporaryFile('w', suffix='.cpp', delete=False) as f:
        f.write('\n'.join(src) + '\n')
    try:
        p = subprocess.run(['clang++'] + cppfront.flags(REPO) + ['-I' + os.path.join(REPO, 'cpp'), '-include', os.path.join(here, 'prelude.h'), '-fsyntax-only',
                            '-Wno-everything', '-ferror-limit=0', f.name], capture_output=True, text=True)
    finally:
        os.unlink(f.name)
    out = []
    for l in p.stderr.splitlines():
        m = re.search(r'error: (?:static assertion failed.*?: )?"?((?:cartesian|spherical)_.*|.*)', l)
        if not m or 'error:' not in l:
            continue
        if f.name not in l:
            raise Broken('clang cannot analyse Pstruct.h: ' + l[:200])
        out.append(Finding('layout', re.sub(r"^.*'[:;]? ?", '', m.group(1)).strip('"'), 'cpp/Pstruct.h', 'the C++ particle record does not have the layout of the numpy record: ' + re.sub(r"^.*'[:;]? ?", '', m.group(1)).strip('"')))
    return out, {'instances': n}


def registration():
    """each record type is registered with numpy under the member's own name, all members, in order"""
    import ast
    import re
    from .base import cppworld
    w, u = cppworld('numpy_types')
    out, n, seen = [], 0, {}
    for fn in w.modules['cpp_numpy_types'].funcs.values():
        for c in ast.walk(fn.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'register_dtype' and c.args and isinstance(c.args[0], ast.List):
                t, names = None, []
                for e in c.args[0].elts:
                    s = ast.unparse(e.elts[2])
                    m = re.search(r'Ptype::(\w+)>>\(\)\.(\w+)_\)', s)
                    if not m:
                        continue
                    t = m.group(1)
                    nm = e.elts[0].value
                    names.append(nm)
                    n += 1
                    if nm != m.group(2):
                        out.append(Finding('registration', '%s.%s' % (t, m.group(2)), 'cpp/numpy_types_solib.cpp', 'member %s_ of record %s is registered with numpy as "%s"' % (m.group(2), t, nm)))
                if t:
                    seen[t] = names
    for t, c in TYPES:
        f8, i4 = record(c)
        if t not in seen:
            out.append(Finding('registration', t, 'cpp/numpy_types_solib.cpp', 'record type %s is not registered with numpy' % t))
        elif sorted(seen[t]) != sorted(f8 + i4):
            out.append(Finding('registration', t, 'cpp/numpy_types_solib.cpp', 'record type %s is registered with the fields %s' % (t, seen[t])))
    return out, {'instances': n}


def flags():
    """the bit flags have the same values in Python and in every C++ module"""
    import ast
    from .base import cppworld, pyworld
    w = pyworld()
    want = {}
    out, n = [], 0
    for f, v in (('DELETE_FLAG', 1), ('TRAJECTORY_FLAG', 2)):
        r = w.class_const('Particle_C', f)
        try:
            x = eval(compile(ast.Expression(r[0]), 'flag', 'eval'), {'__builtins__': {}}) if r else None
        except Exception:
            x = None
        n += 1
        if x != v:
            out.append(Finding('flags', 'Particle_C.' + f, 'Particle_Module.py', 'Particle_C.%s is %r, not %d' % (f, x, v)))
        want[f] = v
    for un in ('part_x', 'part_xy', 'part_xyz', 'part_r', 'upbf_x', 'upbf_xy', 'upbf_xyz', 'upbf_2De', 'upbf_r'):
        _, u = cppworld(un)
        for f, v in want.items():
            for o, x in u.varnames.get(f, ()):
                if x is None:
                    continue
                n += 1
                if x != v:
                    out.append(Finding('flags', '%s %s' % (un, f), '%s:%s' % (o.get('_file'), o.get('_line')), '%s has the value %r, not %d' % (f, x, v)))
    return out, {'instances': n}


CPPU = ('part_x', 'part_xy', 'part_xyz', 'part_r', 'upbf_x', 'upbf_xy', 'upbf_xyz', 'upbf_2De', 'upbf_r')


def records_and_container():
    from .bfuncs import records
    return container() + records() + [Rule('layout_witness', layout_witness, minimum=80), Rule('numpy_registration', registration, mods=['numpy_types'], minimum=38),
                                      Rule('flags', flags, mods=CPPU, minimum=12)]
