"""Construction of meshes, boundary markers and Poisson problems."""
from .base import Cmp

NAMES = {'IntervalMesh', 'RectangleMesh', 'BoxMesh', 'UnitIntervalMesh', 'MeshFunction', 'CellFunction', 'File', 'mark', 'set_all', 'topology', 'geometry', 'dim', 'XBoundary', 'YBoundary', 'XBoundary_C', 'YBoundary_C',
         'SourceXrange', 'coordinates', 'transpose', 'array', 'cos', 'sin', 'Point', 'Mesh', 'bounding_box_tree', 'getattr', 'plot', 'show', '__lshift__', '__rshift__',
         'compute_cell_dict', 'compute_cell_vertices_dict', 'compute_cell_entity_indices_dict', 'compute_vertex_cells_dict', 'compute_cell_facet_normals_dict', 'compute_cell_neighbors_dict', 'compute_cell_volume_dict',
         'create_mesh', 'DirichletBC', 'Constant', 'inner', 'grad', 'nabla_grad', 'SpatialCoordinate', 'assemble_matrix', 'assemble_source_expression', 'set_log_level', 'x', 'y', 'z'}
PURE = {'topology', 'geometry', 'dim', 'coordinates', 'transpose', 'array', 'cos', 'sin', 'Point', 'XBoundary', 'YBoundary', 'XBoundary_C', 'YBoundary_C', 'getattr', 'DirichletBC', 'Constant', 'inner', 'grad', 'nabla_grad',
        'SpatialCoordinate', 'x', 'y', 'z'}
EF = {n: dict(pure=n in PURE) for n in NAMES}
XYZ, FE2D, SPH = 'UserMesh_y_Fields_FE_XYZ_Module', 'UserMesh_y_Fields_FE2D_Module', 'UserMesh_y_Fields_Spherical1D_Module'


def py(mod, qual, spec, **kw):
    return Cmp('py.' + qual if 'name' not in kw else 'py.' + kw.pop('name'), 'py', mod, qual, 'usermesh:' + spec, known=NAMES, effects=EF, **kw)


def meshinit():
    return [py('Dolfin_Module', 'Mesh_C.__init__', 'MeshInit.__init__', samples=300), py('Dolfin_Module', 'Mesh_C.compute_cpp_arrays', 'MeshInit.cpp_arrays')]


def meshes():
    o = meshinit()
    for m, c, s in ((XYZ, 'UserMesh_C', 'XYZ'), (FE2D, 'UserMesh2DCirc_C', 'Circ'), (SPH, 'UserMesh1DS_C', 'Radial')):
        o.append(py(m, c + '.__init__', s + '.__init__'))
        o.append(py(m, c + '.create_mesh', s + '.create', arg_consts={'plot_flag': False}, attr_consts={'__version__': '2019.2.0'}, hints={'particle_source_dict': [None]}))
    for m, cs in ((XYZ, (('XBoundary_C', 'XB'), ('YBoundary_C', 'YB'), ('SourceXrange', 'SX'))), (FE2D, (('XBoundary', 'XB'), ('YBoundary', 'YB'), ('AllFacets', 'AllF'))), (SPH, (('XBoundary', 'XB'),))):
        for c, s in cs:
            if s != 'AllF':
                o.append(py(m, c + '.__init__', s + '.__init__', name='%s:%s.__init__' % (m[16:], c)))
            o.append(py(m, c + '.inside', s + '.inside', name='%s:%s.inside' % (m[16:], c), hints={'arg2': [True, False]}, samples=300))
    return o


def poisson():
    return [py(XYZ, 'UserPoissonSolve1D_C.__init__', 'Poisson.x'), py(FE2D, 'UserPoissonSolve2DCirc_C.__init__', 'Poisson.circ'), py(SPH, 'UserPoissonSolve1DS_C.__init__', 'Poisson.radial')]
