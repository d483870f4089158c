"""Reference definitions: set-up of the particle container, its record type and species tables."""
import numpy as np_m
import SegmentedArrayPair_Module as SA_M
import segmented_array_pair_solib as sapSOlib
import particle_cartesian_x_solib
import particle_cartesian_xy_solib
import particle_cartesian_xyz_solib
import particle_spherical_r_solib


class Species:
    def __init__(self, name, charge, mass, dynamics):
        self.name = name
        self.charge = charge
        self.mass = mass
        self.dynamics = dynamics


class Container:
    def __init__(self, particle_input, print_flag=False):
        P = particle_input
        species = P.particle_species
        self.precision = P.precision
        self.coordinate_system = P.coordinate_system
        self.use_cpp_integrators = P.use_cpp_integrators
        self.force_components = P.force_components
        self.force_precision = P.force_precision
        if P.coordinate_system == 'cartesian_x':
            X = ['x']
        elif P.coordinate_system == 'cartesian_xy':
            X = ['x', 'y']
        elif P.coordinate_system == 'cartesian_xyz':
            X = ['x', 'y', 'z']
        elif P.coordinate_system == 'spherical_r':
            X = ['r']
        else:
            raise RuntimeError()
        D = len(X)
        self.position_coordinates = X
        self.particle_dimension = D
        self.velocity_coordinates = ['u' + c for c in X]
        self.pmesh_M = None
        self.pmesh_bcs = None
        self.number_of_species = len(species)
        self.species_names = [s.name for s in species]
        self.species_class_dict = {s.name: s for s in species}
        self.species_index = {}
        k = 0
        for n in self.species_names:
            k = k + 1
            self.species_index[n] = k
        self.initial_distribution_type = {}
        self.initial_distribution_function = {}
        self.charge = {}
        self.mass = {}
        self.dynamics = {}
        self.qom = {}
        self.charged_species = []
        self.neutral_species = []
        self.sap_dict = {}
        self.particle_count = {}
        names = X + [c + '0' for c in X] + ['u' + c for c in X] + ['weight']
        types = [P.precision for n in names]
        self.particle_dtype = np_m.dtype({'names': names + ['bitflags', 'cell_index', 'unique_ID', 'crossings'],
                                          'formats': types + [np_m.int32, np_m.int32, np_m.int32, np_m.int32]})
        for s in species:
            self.charge[s.name] = s.charge
            if s.charge == 0.0:
                self.neutral_species.append(s.name)
            else:
                self.charged_species.append(s.name)
            self.mass[s.name] = s.mass
            self.qom[s.name] = s.charge / s.mass
            self.dynamics[s.name] = s.dynamics
            if P.use_cpp_integrators is None:
                raise RuntimeError()
            if P.use_cpp_integrators is True:
                if P.coordinate_system == 'cartesian_x':
                    lib = particle_cartesian_x_solib
                    self.sap_dict[s.name] = sapSOlib.SegmentedArrayPair_cartesian_x(self.SEGMENT_LENGTH)
                elif P.coordinate_system == 'cartesian_xy':
                    lib = particle_cartesian_xy_solib
                    self.sap_dict[s.name] = sapSOlib.SegmentedArrayPair_cartesian_xy(self.SEGMENT_LENGTH)
                elif P.coordinate_system == 'cartesian_xyz':
                    lib = particle_cartesian_xyz_solib
                    self.sap_dict[s.name] = sapSOlib.SegmentedArrayPair_cartesian_xyz(self.SEGMENT_LENGTH)
                else:
                    lib = particle_spherical_r_solib
                    self.sap_dict[s.name] = sapSOlib.SegmentedArrayPair_spherical_r(self.SEGMENT_LENGTH)
                self.particle_solib = lib
            else:
                self.sap_dict[s.name] = SA_M.SegmentedArrayPair_C(self.SEGMENT_LENGTH, self.particle_dtype)
            self.particle_count[s.name] = 0
        self.initial_particles_dict = None
        self.particle_source_dict = None
        self.traj_T = None
        self.histories = None
        self.history_function_dict = {'count': getattr(Particle_C, 'get_total_particle_count'),
                                      'species_count': getattr(Particle_C, 'get_species_particle_count'),
                                      'species_KE': getattr(Particle_C, 'get_species_KE')}
        self.one_particle_arr = np_m.empty(1, dtype=self.particle_dtype)
        self.pcoord = np_m.empty(D, dtype=P.precision)
        self.pvel = np_m.empty(D, dtype=P.precision)
        self.pcoord2 = np_m.empty(2 * D, dtype=P.precision)
        self.random_vals = np_m.empty(D, dtype=P.precision)
        self.dx = np_m.empty(D, dtype=P.precision)
        self.dx_in_cell = np_m.empty(D, dtype=P.precision)
        self.h5_step_counter = 0
        self.h5_last_write_step = -1
        self.h5_buffer_length = self.number_of_species * self.SEGMENT_LENGTH
        self.h5_buffer = np_m.empty(self.h5_buffer_length, dtype=np_m.float64)
        self.particle_integration_loop = P.particle_integration_loop
