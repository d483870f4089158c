"""The native modules export what the Python side uses: names, targets, argument names and defaults."""
import ast
from .base import Cmp, Rule, Finding, cppworld
from engine.build import Undecided

SAPDEFS = {'get_as_list': ('&get_as_list', []), 'get_as_tuple': ('&get_as_tuple', []), 'get_capacity': ('&get_capacity', []), 'get_full_index': ('&get_full_index', []),
           'get_full_indices': ('&get_full_indices', []), 'get_item': ('&get_item', []), 'get_next_out_segment': ('&get_next_out_segment', [('return_data_ptr', False)]),
           'get_next_segment': ('&get_next_segment', [None, ('return_data_ptr', False)]), 'get_current_out_segment': ('&get_current_out_segment', []),
           'get_number_of_items': ('&get_number_of_items', []), 'get_number_of_mbytes': ('&get_number_of_mbytes', []), 'get_number_of_segments': ('&get_number_of_segments', []),
           'get_segment_and_offset': ('&get_segment_and_offset', []), 'init_inout_loop': ('&init_inout_loop', [('return_data_ptrs', False)]),
           'init_out_loop': ('&init_out_loop', [('return_data_ptr', False)]), 'push_back': ('&push_back', []), 'set_number_of_items': ('&set_number_of_items', []), '__init__': (None, [])}
E6 = ['particle_P', 'species_name', 'ctrl', ('neg_E_field', None), ('external_E_field', None), ('accel_only', False)]
PMBC = {('ParticleMeshBoundaryConditions', '__init__'): (None, ['species_names', 'pmesh_M', 'userParticleBoundaryFunctions', ('print_flag', False)])}
UPBF = {('UserParticleBoundaryFunctions', '__init__'): (None, []), ('UserParticleBoundaryFunctions', 'default_bc'): ('&default_bc', [])}
MEA = {'__init__': (None, ['mesh', ('compute_field_mesh_maps', False), ('compute_particle_mesh_maps', False)]), 'compute_cell_facet_normals_array': ('&compute_cell_facet_normals_array', []),
       'compute_cell_neighbors_array': ('&compute_cell_neighbors_array', []), 'get_cell_neighbors': ('&get_cell_neighbors', []), 'get_cell_facet_normals': ('&get_cell_facet_normals', [])}
INI = {(None, 'initialize_particle_integration'): ('&initialize_particle_integration', [])}


def part(**kw):
    d = dict(INI)
    d.update(PMBC)
    for k, v in kw.items():
        d[(None, k)] = v
    return d


REF = {
    'sap': {('SegmentedArrayPair_' + t, n): v for t in ('cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r') for n, v in SAPDEFS.items()},
    'part_x': part(advance_charged_species_in_E_field_2_facets=('&advance_charged_species_in_E_field_cartesian_x@2', E6)),
    'part_xy': part(advance_charged_species_in_E_field_3_facets=('&advance_charged_species_in_E_field_cartesian_xy@3', E6),
                    advance_neutral_species_2_facets=('&advance_neutral_species_cartesian_xy@2', []), advance_neutral_species_3_facets=('&advance_neutral_species_cartesian_xy@3', [])),
    'part_xyz': part(advance_charged_species_in_uniform_fields=('&advance_charged_species_in_uniform_fields_cartesian_xyz', []),
                     advance_neutral_species_2_facets=('&advance_neutral_species_cartesian_xyz@2', []), advance_neutral_species_3_facets=('&advance_neutral_species_cartesian_xyz@3', []),
                     advance_neutral_species_4_facets=('&advance_neutral_species_cartesian_xyz@4', [])),
    'part_r': part(advance_charged_species_in_E_field_2_facets=('&advance_charged_species_in_E_field_spherical_r@2', E6)),
    'mea_solib': {('MeshEntityArrays_%d_facets' % n, k): v for n in (2, 3, 4) for k, v in MEA.items()},
    'dolfin_functions_solib': {(None, 'find_facet'): (None, ['mesh_M', 'x0', 'dx', 'cell_index', ('returnStdArray', False)]), (None, 'is_inside_vertices'): (None, []),
                               (None, 'interpolate_field_to_points_cartesian_x'): (None, []), (None, 'interpolate_field_to_points_cartesian_xy'): (None, []),
                               (None, 'interpolate_field_to_points_cartesian_xyz'): (None, [])},
}
for _u in ('upbf_x', 'upbf_xy', 'upbf_xyz', 'upbf_2De', 'upbf_r'):
    REF[_u] = UPBF
OVERLOADS = {('sap', 'push_back'): 3, ('dolfin_functions_solib', 'interpolate_field_to_points_cartesian_x'): 2, ('dolfin_functions_solib', 'interpolate_field_to_points_cartesian_xy'): 2,
             ('dolfin_functions_solib', 'interpolate_field_to_points_cartesian_xyz'): 2}
# the class template argument behind an exported class
TARG = {'SegmentedArrayPair_cartesian_x': '0', 'SegmentedArrayPair_cartesian_xy': '1', 'SegmentedArrayPair_cartesian_xyz': '2', 'SegmentedArrayPair_spherical_r': '3',
        'MeshEntityArrays_2_facets': '2', 'MeshEntityArrays_3_facets': '3', 'MeshEntityArrays_4_facets': '4'}


class Walk:
    def __init__(self, world, mod):
        self.w, self.mod = world, mod
        self.defs = []          # (class, name, target, args, template argument of the maker)
        self.depth = 0

    def run(self, fn, args):
        self.depth += 1
        if self.depth > 8:
            raise Undecided('binding helpers nest too deep')
        env = dict(zip(fn.params, args))
        t = fn.name.split('@')[1] if '@' in fn.name else None
        self.block(fn.node.body, env, t)
        self.depth -= 1

    def block(self, body, env, t):
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = self.ev(s.value, env, t)
            elif isinstance(s, ast.Expr):
                self.ev(s.value, env, t)
            elif isinstance(s, (ast.Pass, ast.Return)):
                pass
            elif isinstance(s, ast.For) and isinstance(s.iter, (ast.List, ast.Tuple)) and isinstance(s.target, ast.Name):
                for e in s.iter.elts:
                    env[s.target.id] = self.ev(e, env, t)
                    self.block(s.body, env, t)
            else:
                raise Undecided('binding code uses ' + type(s).__name__)

    def ev(self, e, env, t):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return env.get(e.id, ('?', e.id))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.ev(e.left, env, t), self.ev(e.right, env, t)
            return a + b if isinstance(a, str) and isinstance(b, str) else ('?',)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ('def', 'def_'):
                o = self.ev(f.value, env, t)
                a = [self.ev(x, env, t) for x in e.args]
                cls = o[1] if isinstance(o, tuple) and o[0] == 'class' else None
                if not (isinstance(o, tuple) and o[0] in ('class', 'module')):
                    raise Undecided('definition on an unknown object')
                if a and isinstance(a[0], tuple) and a[0][0] == 'init':
                    self.defs.append((cls, '__init__', None, self.argspec(a[1:]), t))
                else:
                    if not a or not isinstance(a[0], str) or len(a) < 2:
                        raise Undecided('a definition without a constant name')
                    self.defs.append((cls, a[0], a[1] if isinstance(a[1], str) else None, self.argspec(a[2:]), t))
                return o
            if isinstance(f, ast.Name):
                if f.id == 'class_':
                    a = [self.ev(x, env, t) for x in e.args]
                    n = [x for x in a if isinstance(x, str)]
                    if not n:
                        raise Undecided('a class without a constant name')
                    return ('class', n[0])
                if f.id == 'init':
                    return ('init',)
                if f.id == '__set__' and len(e.args) == 2:
                    return ('set', self.ev(e.args[0], env, t), self.ev(e.args[1], env, t))
                if f.id == '__lambda__':
                    return ('lambda',)
                g = self.w.modules[self.mod].funcs.get(f.id)
                if g is not None:
                    self.run(g, [self.ev(x, env, t) for x in e.args])
                    return None
            return ('?',)
        if isinstance(e, ast.Attribute) and e.attr in ('doc', ):
            return ('?',)
        return ('?',)

    @staticmethod
    def argspec(a):
        out = []
        for x in a:
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, tuple) and x[0] == 'set':
                out.append((x[1], x[2]))
            else:
                out.append(None)
        return out


def table(u):
    w, un = cppworld(u)
    mod = 'cpp_' + u
    ini = [f for f in w.modules[mod].funcs.values() if f.name.startswith('pybind11_init')]
    if not ini:
        raise Undecided('no module initialiser in ' + u)
    wk = Walk(w, mod)
    for f in ini:
        wk.run(f, [('module',)] * 1)
    return wk.defs


def exports(u):
    def fn():
        defs = table(u)
        out, n = [], 0
        for (cls, name), (target, args) in REF[u].items():
            lab = '%s: %s%s' % (u, cls + '.' if cls else '', name)
            got = [d for d in defs if d[0] == cls and d[1] == name]
            n += 1
            if not got:
                out.append(Finding('export', lab, 'cpp', 'the native module no longer exports %s' % lab))
                continue
            want = OVERLOADS.get((u, name), 1)
            if len(got) < want:
                out.append(Finding('export', lab, 'cpp', '%s has %d overloads, %d are used' % (lab, len(got), want)))
            for d in got:
                if target is not None and d[2] is not None and d[2] != target:
                    out.append(Finding('export', lab, 'cpp', '%s is bound to %s, not to %s' % (lab, d[2], target)))
                if cls in TARG and d[4] is not None and d[4] != TARG[cls]:
                    out.append(Finding('export', lab, 'cpp', '%s is bound to the instance for template argument %s, not %s' % (lab, d[4], TARG[cls])))
                for i, a in enumerate(args):
                    if a is None:
                        continue
                    b = d[3][i] if i < len(d[3]) else None
                    if b is None and i < len(d[3]):
                        continue
                    if b != a:
                        out.append(Finding('export', lab, 'cpp', 'argument %d of %s is %s, not %s' % (i + 1, lab, b, a)))
        return out, {'instances': n, 'definitions': len(defs)}
    return Rule('exports.' + u, fn, mods=[u])


KN = {'find_facet', 'interpolate_field_to_points', 'is_inside_vertices'}
EF = {'find_facet': dict(pure=True), 'is_inside_vertices': dict(pure=True), 'interpolate_field_to_points': dict(pure=False)}


def lam(name, spec):
    return Cmp('cpp.bind.' + name, 'cpp:dolfin_functions_solib', 'cpp_dolfin_functions_solib', 'bind:' + name, 'cppmesh:' + spec, known=KN, effects=EF)


def interface():
    o = [exports(u) for u in REF]
    o += [lam('find_facet', 'bind_find_facet'), lam('is_inside_vertices', 'bind_inside')]
    for d in ('x', 'xy', 'xyz'):
        for k in ('', '#2'):
            o.append(lam('interpolate_field_to_points_cartesian_%s%s' % (d, k), 'bind_interpolate'))
    o.append(Rule('callbacks', callbacks, mods=CB, minimum=60))
    return o


CB = ('part_x', 'part_xy', 'part_xyz', 'part_r', 'upbf_x', 'upbf_xy', 'upbf_xyz', 'upbf_2De', 'upbf_r', 'dolfin_functions', 'dolfin_functions_solib', 'mea', 'mea_solib')
EXTERN = {'_cpp_object'}         # DOLFIN's own attribute


def callbacks():
    """what the C++ side asks of Python objects by name exists there, and the methods it calls take those arguments"""
    import glob
    import os
    import re
    from .base import REPO, pyworld
    w = pyworld()
    names = set()
    for m in w.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.ClassDef):
                names.add(n.name)
            elif isinstance(n, ast.Assign):
                names.update(t.id for t in n.targets if isinstance(t, ast.Name))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                names.add(n.value)        # slots, setattr
    out, n = [], 0
    for p in sorted(glob.glob(os.path.join(REPO, 'cpp', '*.cpp')) + glob.glob(os.path.join(REPO, 'cpp', '*.h'))):
        if os.path.basename(p) in ('example.cpp', 'test_solib.cpp', 'test.h'):
            continue
        t = re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), open(p).read(), flags=re.S)
        for m in re.finditer(r'\battr\(\s*"(\w+)"\s*\)', t):
            n += 1
            if m.group(1) not in names and m.group(1) not in EXTERN:
                out.append(Finding('callback', m.group(1), '%s:%d' % (os.path.relpath(p, REPO), t.count('\n', 0, m.start()) + 1),
                                   'the C++ code asks a Python object for "%s", which no Python module defines' % m.group(1)))
    for u in CB:
        cw, _ = cppworld(u)
        for fl in cw.by_name.values():
            for f in fl:
                for c in ast.walk(f.node):
                    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)):
                        continue
                    g = w.method('Particle_C', c.func.attr)
                    if g is None or any(isinstance(a, ast.Starred) for a in c.args):
                        continue
                    n += 1
                    ps = g.params[1:]
                    args, kws = [], [k.arg for k in c.keywords]
                    for a in c.args:
                        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == '__set__' and isinstance(a.args[0], ast.Constant):
                            kws.append(a.args[0].value)
                        else:
                            args.append(a)
                    need = [x for x in ps if x not in g.defaults()]
                    given = ps[:len(args)] + [k for k in kws]
                    if len(args) > len(ps) or any(k not in ps for k in kws) or len(set(given)) != len(given) or any(x not in given for x in need):
                        out.append(Finding('callback', '%s in %s' % (c.func.attr, f.qual()), u, '%s calls Particle_C.%s with %d positional arguments and %s, which takes %s' % (
                            f.qual(), c.func.attr, len(args), kws, ps)))
    return out, {'instances': n}
