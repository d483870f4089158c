"""Mesh entity tables, point location, facet search."""
from .base import Cmp, Rule, Finding

KN = {'cells', 'facets', 'vertices', 'index', 'entities', 'init', 'normal', 'x', 'y', 'z', 'volume', 'get_vertex_coordinates', 'contains', 'Point',
      'compute_first_entity_collision', 'dot', 'reshape', 'array', 'tolist'}
EF = {n: dict(pure=True) for n in KN}
EF['init'] = dict(pure=False)


def py(qual, spec, name=None, **kw):
    kw.setdefault('spec_inline', {'point'})
    return Cmp('py.' + (name or qual), 'py', 'Dolfin_Module', 'Mesh_C.' + qual, 'mesh:Mesh.' + spec, known=KN, effects=EF, **kw)


def tables():
    o = [py('compute_cell_dict', 'cells'), py('compute_cell_entity_indices_dict', 'entity_indices'), py('compute_cell_vertices_dict', 'vertices'),
         py('compute_cell_neighbors_dict', 'neighbors'), py('compute_vertex_cells_dict', 'vertex_cells'), py('compute_cell_volume_dict', 'volumes', hints={'coordinate_system': ['Cartesian', '1D-spherical-radial', 'other']})]
    for d in (1, 2, 3):
        o.append(py('compute_cell_facet_normals_dict', 'normals', 'compute_cell_facet_normals_dict.%d' % d, attr_consts=dict(gdim=d)))
    return o


def location():
    o = [py('compute_cell_index', 'cell_index', hints={'gdim': [1, 2, 3], 'compute_first_entity_collision': [0, 1, 5, 0xFFFFFFFF]}), py('is_inside_cell', 'inside', hints={'gdim': [1, 2, 3]})]
    for d in (1, 2, 3):
        o.append(py('find_facet', 'find_facet', 'find_facet.%d' % d, attr_consts=dict(gdim=d), hints={'dot': 'float'}, samples=600))
    return o


CK = {'Cell', 'get_vertex_coordinates', 'get_cell_facet_normals', 'get_cell_neighbors', 'geometry', 'topology', 'dim', 'array_t', 'coordinates', '_orient2d', '_orient3d',
      '_collides_segment_point_1d', 'function_space', 'dofmap', 'cell_dofs', 'vector', 'get_local', 'size', 'data', 'init', 'resize', 'num_cells', 'num_entities', 'entities',
      'index', 'normal', 'x', 'y', 'z', '__entities__', 'compute_cell_neighbors_array', 'compute_cell_facet_normals_array', 'element', 'space_dimension'}
CE = {n: dict(pure=True) for n in CK}
CE['get_vertex_coordinates'] = dict(pure=False, modifies=[(0, ['elem'])])
CE['get_local'] = dict(pure=False, modifies=[(0, ['elem'])])
for n in ('init', 'resize', 'compute_cell_neighbors_array', 'compute_cell_facet_normals_array'):
    CE[n] = dict(pure=False)


def cpp(unit, name, qual, spec, **kw):
    return Cmp('cpp.' + name, 'cpp:' + unit, 'cpp_' + unit, qual, 'cppmesh:' + spec, known=CK, effects=CE, **kw)


def cpp_mea():
    o = []
    for n in (2, 3, 4):
        c = 'MeshEntityArrays<%d>.' % n
        for q, s in (('compute_cell_neighbors_array', 'neighbors'), ('get_cell_neighbors', 'get_neighbors'), ('compute_cell_facet_normals_array', 'normals'),
                     ('get_cell_facet_normals', 'get_normals'), ('__init__', '__init__')):
            o.append(cpp('mea', c + q, c + q, 'Mea.' + s, names={'__N__': n}))
    return o


def cpp_location():
    o = [cpp('dolfin_functions', 'find_facet.%d' % d, 'find_facet', 'find_facet', arg_consts={}, attr_consts={'NO_FACET': -1}, hints={'NO_FACET': [-1], 'returnStdArray': [True, False]},
             const_calls={'dim': d}, samples=600) for d in (1, 2, 3)]
    o += [cpp('dolfin_functions', 'is_inside_vertices.%d' % d, 'is_inside_vertices', 'inside', const_calls={'dim': d}, samples=800, hints={'_orient2d': [-1.0, 0.0, 1.0, 0.0], '_orient3d': [-1.0, 0.0, 1.0, 1.0], '_collides_segment_point_1d': [True, False]}) for d in (1, 2, 3)]
    for q, sp in (('_orient2d', 'orient2d'), ('_orient3d', 'orient3d'), ('_collides_segment_point_1d', 'between')):
        o.append(Cmp('cpp.' + q, 'cpp:predicates', 'cpp_predicates', q, 'cppmesh:' + sp, known={'orient2dadapt', 'orient3dadapt'},
                     effects={'orient2dadapt': dict(pure=True), 'orient3dadapt': dict(pure=True)}))
    return o


def cpp_interpolate():
    return [cpp('dolfin_functions', f, f, 'interpolate') for f in ['interpolate_field_to_points@%s' % n for n in ('0', '0#2', '1', '1#2', '2', '2#2', '3')]]


def all_tables():
    return tables() + cpp_mea()


def all_location():
    return location() + cpp_location()
