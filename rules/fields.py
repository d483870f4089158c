"""Finite-element fields, Poisson solver, cell sets."""
from .base import Cmp, Rule, Finding

PURE = {'geometry', 'topology', 'dim', 'FunctionSpace', 'VectorFunctionSpace', 'Function', 'vector', 'dofmap', 'cell_dofs', 'Point', 'PointSource', 'Cell', 'element',
        'get_coordinate_dofs', 'evaluate_basis_all', 'orientation', 'cells', 'index', 'TestFunction', 'TrialFunction', 'Vector', 'mpi_comm', 'assemble', 'Constant', 'Expression',
        'ufl_element', 'degree', 'grad', 'project', 'midpoint', 'circumradius', 'contains', 'norm', 'hasattr', 'inside', 'sorted', 'array', 'space_dimension'}
EFF = {'normal': dict(pure=False), 'update': dict(pure=False), 'function': dict(pure=False, modifies=[(1, ['elem'])]), 'apply': dict(pure=False), 'solve': dict(pure=False),
       'compute_negE': dict(pure=False), 'plot': dict(pure=False), 'show': dict(pure=False)}
EF = {n: dict(pure=True) for n in PURE}
EF.update(EFF)
KN = PURE | set(EFF)


def py(cls, qual, scls, spec, **kw):
    kw.setdefault('spec_inline', {'dofs'})
    h = {'gaussian': [True, False], 'plot_flag': [False], 'pde_has_constant_coeffs': [True, False], 'mesh_gdim': [1, 2, 3], 'gdim': [1, 2, 3], 'field_type': ['scalar', 'vector']}
    h.update(kw.pop('hints', {}))
    return Cmp('py.%s.%s' % (cls, qual), 'py', 'Dolfin_Module', '%s.%s' % (cls, qual), 'fields:%s.%s' % (scls, spec), known=KN, effects=EF, hints=h, **kw)


def fields():
    o = [py('Field_C', q, 'Field', s) for q, s in (
        ('__init__', '__init__'), ('set_values', 'set_values'), ('multiply_values', 'multiply_values'), ('set_gaussian_values', 'set_gaussian_values'), ('multiply_add', 'multiply_add'),
        ('interpolate_field_to_points', 'interpolate'), ('interpolate_random_field_to_points', 'interpolate_random'), ('integrate_delta_function', 'integrate_delta'),
        ('interpolate_delta_function_to_dofs', 'delta_to_dofs'), ('add_weight_to_cell', 'add_weight'), ('divide_by_cell_volumes', 'divide_volumes'))]
    from .mesh import cpp_interpolate
    return o + cpp_interpolate()


def poisson():
    return [py('PoissonSolve_C', q, 'Poisson', s, arg_consts={'plot_flag': False}) for q, s in (
        ('__init__', 'setup'), ('initialize_Vuvwb', 'setup'), ('assemble_matrix', 'matrix'), ('assemble_source_expression', 'source'), ('solve_for_phi', 'solve'), ('compute_negE', 'negE'))]


BOX = {'arg1[]': [0, 1, 2, 1], 'pmin[]': [0, 1, 0, 2], 'pmax[]': [1, 2, 2, 0], 'pmin': [0, 1], 'pmax': [1, 2], 'center': [0, 1], 'region_radius': [0, 1, 2]}


def regions():
    return [py('CellSet_C', '__init__', 'Cells', '__init__'), py('CellSet_C', 'in_cell', 'Cells', 'in_cell'), py('RectangularRegion_C', '__init__', 'Box', '__init__'),
            py('RectangularRegion_C', 'inside', 'Box', 'inside', hints=BOX, samples=1500), py('SphericalRegion_C', '__init__', 'Ball', '__init__'), py('SphericalRegion_C', 'inside', 'Ball', 'inside', hints=BOX, samples=400)]
