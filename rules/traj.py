"""Trajectories and histories."""
from .base import Cmp, Rule, Finding
from .common import POS, fields

KN = {'get_full_index', 'get_full_indices', 'get_current_out_segment', 'get_segment_and_offset', 'interpolate_field_to_points', 'get_species_number', 'index'}
EF = {
    'get_full_index': dict(pure=True), 'get_full_indices': dict(pure=True, tag='tuple'), 'index': dict(pure=True),
    'get_current_out_segment': dict(pure=True, tag='rec'),
    'get_segment_and_offset': dict(pure=True, tag='tuple', rec=(0,)),
    'interpolate_field_to_points': dict(pure=False, modifies=[(1, ['elem'])]),
    'get_species_number': dict(pure=True),
    'dyncall': dict(pure=True),
}
HINTS = {'arg7': [True, False], 'trajectory_length[][]': [0, 1, 2, 3], 'npoints': [0, 1, 2, 3],
         'names[]': ['step', 't', 'x', 'ux', '-Ex', 'Ex_ext', 'weight'], 'last_step': [0, 1], 'charge[]': [0, 1]}


def py(name, qual, spec, **kw):
    return Cmp('py.' + name, 'py', 'Particle_Module', 'Particle_C.' + qual, 'traj:Traj.' + spec, known=KN, effects=EF, hints=dict(HINTS, **kw.pop('h', {})), **kw)


def trajectories():
    return [py('update_trajectory_particleId', 'update_trajectory_particleId', 'update_id'),
            py('remove_trajectory_particleId', 'remove_trajectory_particleId', 'remove_id', samples=300),
            py('record_trajectory_datum', 'record_trajectory_datum', 'datum', samples=300),
            py('record_trajectory_data', 'record_trajectory_data', 'data')]


def histories():
    return [py('record_history_data', 'record_history_data', 'history')]


def histories_and_sums():
    from .particles import sums
    return histories() + sums()
