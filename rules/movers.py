"""Particle movers: storage, kinematics, facet tracking, callbacks, trajectory bookkeeping."""
from .base import Cmp, Rule, Finding
from .common import POS, PT, fields

SAPCALLS = {'init_inout_loop', 'init_out_loop', 'get_next_segment', 'get_next_out_segment', 'get_current_out_segment', 'set_number_of_items',
            'get_number_of_items', 'get_full_index', 'get_full_indices', 'push_back', 'get_segment_length', 'get_item'}
KNOWN = SAPCALLS | {'is_inside_cell', 'is_inside_vertices', 'find_facet', 'interpolate_field_to_points', 'interpolate_random_field_to_points',
                    'record_trajectory_datum', 'update_trajectory_particleId', 'remove_trajectory_particleId', 'get_species_particle_count',
                    'get_cell_neighbors', 'get_cell_facets'}


def effects():
    e = {
        'init_inout_loop': dict(pure=False, rec=(1, 2), tag='tuple', items={0: 'npSeg'}),
        'get_next_segment': dict(pure=False, rec=(1,), tag='tuple', items={0: 'npSeg'}),
        'get_next_out_segment': dict(pure=False, tag='rec'),
        'set_number_of_items': dict(pure=False),
        'get_full_index': dict(pure=True),
        'is_inside_cell': dict(pure=True),
        'find_facet': dict(pure=True, tag='tuple', items={0: 'cFacet', 1: 'dxFraction'}),
        'interpolate_field_to_points': dict(pure=False, modifies=[(1, ['struct'])]),
        'interpolate_random_field_to_points': dict(pure=False, modifies=[(1, ['struct'])]),
        'record_trajectory_datum': dict(pure=False),
        'update_trajectory_particleId': dict(pure=False),
        'remove_trajectory_particleId': dict(pure=False),
        'get_species_particle_count': dict(pure=True),
        'dyncall': dict(pure=False, modifies=[(0, ['fld'])]),
    }
    return e


STRUCTS = {'negE', 'Eext', 'zeroE', 'negE1', 'Eext1'}
HINTS = {
    'SEGMENT_LENGTH': lambda seed, r: 1 + seed % 4,
    'npSeg': lambda seed, r: r % 4,
    'cFacet': [-1, 0, 1, 2, 0, 1],
    'dxFraction': 'unit',
    'bitflags': [0, 1, 2, 3],
    'cell_neighbors_dict[][]': [-1, 0, 1, 2, 3],
    'particle_boundary_marker[]': [0, 1, 2],
    'MAX_FACET_CROSS_COUNT': [2, 5, 20],
}


# kept particles counted by full segments, one by one, or by segments at the end
COUNTS = ({'COUNT': 0}, {'COUNT': 1}, {'COUNT': 2})


def py(name, qual, spec, dim, hints={}, samples=40, **kw):
    a = dict(position_coordinates=list(POS[dim]), particle_dimension=len(POS[dim]), names=list(POS[dim]))
    return Cmp('py.%s.%s' % (dim, name), 'py', 'Particle_Module', 'Particle_C.' + qual, 'movers:PyMover.' + spec,
               known=KNOWN, effects=effects(), fields=fields(dim), hints=dict(HINTS, **hints), attr_consts=a, sym_attrs={'SEGMENT_LENGTH'}, structs=STRUCTS, struct_fields=list(POS[dim]),
               ignore=['fld:*@*'], samples=samples, variants=COUNTS, **kw)


def allpy(dims=('x', 'xy', 'xyz', 'r')):
    o = []
    for d in dims:
        o += [py('charged', 'advance_charged_species_in_E_field', 'charged_species', d, hints={'arg5': [True, False]}),
              py('neutral', 'advance_neutral_species', 'neutral_species', d),
              py('electrostatic', 'move_particles_in_electrostatic_field', 'charged_all', d, samples=12, hints={'arg4': [True, False]})]
    o.append(py('uniform', 'advance_charged_species_in_uniform_fields', 'uniform', 'xyz'))
    return o


def cppeffects():
    e = effects()
    e.update({
        'get_segment_length': dict(pure=True, sig=None),
        'get_next_out_segment': dict(pure=False, rec=(0,), tag='tuple'),
        'interpolate_field_to_points': dict(pure=False, modifies=[(3, ['elem'])]),
        'is_inside_vertices': dict(pure=True),
        'get_cell_neighbors': dict(pure=True),
        'Cell': dict(pure=True), 'entities': dict(pure=True), 'topology': dict(pure=True), 'dim': dict(pure=True), 'shape': dict(pure=True),
    })
    e['get_segment_length'] = dict(pure=True)
    return e


CPPKNOWN = KNOWN | {'Cell', 'entities', 'topology', 'dim', 'shape'}
CPPHINTS = {
    'get_segment_length': lambda seed, r: 1 + seed % 4,
    'cFacet': [-1, 0, 1, 2, 0, 1],
    'NO_FACET': [-1], 'NO_CELL': [-1],
    'shape': [1, 2, 3], 'zeroE': 'obj', 'negE': 'obj', 'Eext': 'obj', 'E1_comps': 'obj', 'Eext1_comps': 'obj',
}


def cpp(name, qual, spec, dim, consts={}, hints={}, samples=40):
    return Cmp('cpp.%s.%s' % (dim, name), 'cpp:part_' + dim, 'cpp_part_' + dim, qual, 'cppmovers:' + spec,
               known=CPPKNOWN, effects=cppeffects(), fields=fields(dim), rec_cls='Pstruct<%d>' % PT[dim], hints=dict(HINTS, **dict(CPPHINTS, **hints)),
               attr_consts={'particle_dimension': len(POS[dim])}, names={'__POS__': POS[dim]}, arg_consts=consts, samples=samples, variants=COUNTS)


def allcpp():
    h = {'arg5': [True, False]}
    return [cpp('charged', 'advance_charged_species_in_E_field_cartesian_x@2', 'charged', 'x', {4: None}, h),
            cpp('charged', 'advance_charged_species_in_E_field_cartesian_xy@3', 'charged', 'xy', {4: None}, h),
            cpp('charged', 'advance_charged_species_in_E_field_spherical_r@2', 'charged', 'r', {4: None}, h),
            cpp('neutral<2>', 'advance_neutral_species_cartesian_xy@2', 'neutral', 'xy'),
            cpp('neutral<3>', 'advance_neutral_species_cartesian_xy@3', 'neutral', 'xy'),
            cpp('neutral<2>', 'advance_neutral_species_cartesian_xyz@2', 'neutral', 'xyz'),
            cpp('neutral<3>', 'advance_neutral_species_cartesian_xyz@3', 'neutral', 'xyz'),
            cpp('neutral<4>', 'advance_neutral_species_cartesian_xyz@4', 'neutral', 'xyz'),
            cpp('uniform', 'advance_charged_species_in_uniform_fields_cartesian_xyz', 'uniform', 'xyz')]


# ---- dispatch -------------------------------------------------------------------------------
DK = {'advance_charged_species_in_E_field', 'advance_neutral_species', 'get_species_particle_count', 'cpp_object', 'getattr', 'topology', 'dim', 'get_number_of_items'}
DE = {'get_species_particle_count': dict(pure=True), 'cpp_object': dict(pure=True), 'getattr': dict(pure=True), 'topology': dict(pure=True), 'dim': dict(pure=True),
      'get_number_of_items': dict(pure=True), 'dyncall': dict(pure=False)}


def disp(name, spec, **kw):
    return Cmp('py.' + name, 'py', 'Particle_Module', 'Particle_C.' + name, 'movers:Dispatch.' + spec, known=DK, effects=DE,
               sym_attrs={'SEGMENT_LENGTH'},
               hints={'use_cpp_integrators': [True, False], 'arg4': [True, False]}, **kw)


def dispatch():
    return [disp('advance_charged_particles_in_E_field', 'charged'), disp('advance_neutral_particles', 'neutral'),
            disp('initialize_particle_integration', 'integration')]


def movers():
    return allpy() + allcpp() + dispatch()


def movers_and_ids():
    from .traj import trajectories
    return movers() + [x for x in trajectories() if 'Id' in x.name]
