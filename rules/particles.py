"""Particle bookkeeping outside the movers."""
from .base import Cmp, Rule, Finding
from .common import POS, PT, fields

KN = {'init_out_loop', 'get_next_segment', 'get_number_of_items', 'push_back', 'get_segment_and_offset', 'create_from_list', 'create_trajectory',
      'interpolate_field_to_points', 'record_trajectory_datum', 'compute_cell_index', 'is_inside_cell', 'in_cell', 'interpolate_delta_function_to_dofs',
      'add_weight_to_cell', 'divide_by_cell_volumes', 'multiply_add', 'get_total_particle_count', 'get_species_particle_count', 'create_group', 'create_dataset',
      'compute_cell_vertices_dict', 'compute_cell_entity_indices_dict', 'compute_cell_facet_normals_dict', 'compute_cell_neighbors_dict', 'compute_cell_volume_dict',
      'topology', 'dim', 'uniform', 'normal', 'File', 'getattr', 'hasattr'}
EF = {
    'init_out_loop': dict(pure=False, tag='tuple', rec=(1,)),
    'get_next_segment': dict(pure=False, tag='tuple', rec=(1,)),
    'get_number_of_items': dict(pure=True), 'get_species_particle_count': dict(pure=True), 'get_total_particle_count': dict(pure=True),
    'push_back': dict(pure=False, tag='tuple'), 'get_segment_and_offset': dict(pure=True, tag='tuple', rec=(0,)),
    'create_from_list': dict(pure=False), 'create_trajectory': dict(pure=False),
    'interpolate_field_to_points': dict(pure=False, modifies=[(1, ['elem'])]),
    'record_trajectory_datum': dict(pure=False), 'compute_cell_index': dict(pure=True), 'is_inside_cell': dict(pure=True), 'in_cell': dict(pure=True),
    'interpolate_delta_function_to_dofs': dict(pure=False), 'add_weight_to_cell': dict(pure=False), 'divide_by_cell_volumes': dict(pure=False), 'multiply_add': dict(pure=False),
    'topology': dict(pure=True), 'dim': dict(pure=True), 'uniform': dict(pure=False), 'normal': dict(pure=False), 'getattr': dict(pure=True), 'hasattr': dict(pure=True),
    'dyncall': dict(pure=False, tag='tuple'),
}
H = {'use_cpp_integrators': [True, False], 'arg2': [True, False], 'pmesh_M': 'obj'}


def py(qual, spec, hints={}, **kw):
    return Cmp('py.' + qual, 'py', 'Particle_Module', 'Particle_C.' + qual, 'particles:Particles.' + spec, known=KN, effects=EF, hints=dict(H, **hints),
               sym_attrs={'SEGMENT_LENGTH'}, **kw)


def sums():
    return [py('get_species_number', 'species_number'), py('get_species_KE', 'species_KE'), py('get_species_particle_count', 'count'),
            py('get_total_particle_count', 'total_count')]


def creation():
    o = [py('initialize_particles', 'initialize_particles'), py('create_from_list', 'create_from_list'), py('add_more_particles', 'add_more')]
    for d in POS:
        o.append(Cmp('py.%s.create_maxwellian_particles' % d, 'py', 'Particle_Module', 'Particle_C.create_maxwellian_particles', 'particles:Particles.maxwellian',
                     known=KN, effects=EF, hints=dict(H, UNIQUE_ID_COUNTER=[0, 499, 500, 501, 500]), fields=fields(d), attr_consts=dict(particle_dimension=len(POS[d])), samples=40,
                     sym_attrs={'UNIQUE_ID_COUNTER'}))
    return o


def cells():
    return [py('compute_mesh_cell_indices', 'cell_indices', hints=dict(pmesh_M=[None, 1, 2])), py('initialize_particle_mesh', 'particle_mesh')]


def density():
    return [py('accumulate_number_density', 'number_density'), py('accumulate_charge_density_from_particles', 'charge_density')]


def output():
    return [py('check_particle_output_parameters', 'check_output'), py('initialize_particle_output_file', 'output_header'), py('write_particles_to_file', 'write')]


def bcs():
    o = [Cmp('py.ParticleMeshBoundaryConditions', 'py', 'Particle_Module', 'ParticleMeshBoundaryConditions_C.__init__', 'particles:BCs.select', known=KN, effects=EF),
         Cmp('py.ParticleMeshSources', 'py', 'Particle_Module', 'ParticleMeshSources_C.__init__', 'particles:Sources.select', known=KN, effects=EF)]
    for d in POS:
        u = 'part_' + d
        c = 'ParticleMeshBoundaryConditions<%d>' % PT[d]
        o.append(Cmp('cpp.%s.ParticleMeshBoundaryConditions' % d, 'cpp:' + u, 'cpp_' + u, c + '.__init__', 'particles:bc_cpp', known=KN, effects=EF, hints={'arg4': [True, False], 'bc_function_map[]': 'obj'}))
    return o


def density_and_cells():
    return density() + cells()
