"""Reference definitions: freshly made input and control objects."""
import numpy as np_m


class Inputs:
    def particleinput_c(self):
        self.precision = self.coordinate_system = self.force_components = self.force_precision = self.use_cpp_integrators = self.particle_solib = None
        self.particle_integration_loop = self.particle_species = None

    def dtcontrol_c(self, use_mpi=False):
        self.precision = self.dt = self.coordinate_system = self.E0 = self.B0 = self.apply_solved_electric_field = None
        self.apply_external_electric_field = self.apply_random_external_electric_field = self.use_particles = self.PARTICLE_SEGMENT_LENGTH = self.MAX_FACET_CROSS_COUNT = self.potential_field_output_file = None
        self.electric_field_output_file = self.field_output_interval = self.particle_output_file = self.particle_output_interval = self.particle_output_attributes = self.write_trajectory_files = None
        self.timeloop_count = self.time = None
        self.coordinate_systems = ('Cartesian', '1D-spherical-radius')
        self.random_seed = np_m.random.seed(1)
        if use_mpi:
            from mpi4py import MPI
            self.use_mpi = True
            self.mpi_comm = MPI.COMM_WORLD
            self.mpi_rank = self.mpi_comm.Get_rank()
            self.mpi_size = self.mpi_comm.Get_size()

    def historyinput_c(self):
        self.max_points = None
        self.scalar_histories = []
        self.vector_histories = []

    def particlehistoryinput_c(self):
        self.max_points = None
        self.scalar_histories = []

    def fieldhistoryinput_c(self):
        self.max_points = None
        self.scalar_histories = []
        self.vector_histories = []

    def trajectoryinput_c(self):
        self.max_points = self.npoints = self.extra_points = self.charged_dict = self.neutral_dict = None

    def usermeshinput2dcirc_c(self):
        self.mesh_file = self.user_mesh_input = self.user_mesh_class = self.precision = self.mesh_class = self.rmin = None
        self.rmax = self.nr = self.stretch = self.tmax = self.nt = self.diagonal = None
        self.field_boundary_file = self.field_boundary_dict = self.particle_boundary_file = self.particle_boundary_dict = self.particle_source_file = self.particle_source_dict = None
        self.mesh_M = self.pmesh_M = None

    def usermeshinput_c(self):
        self.mesh_file = self.precision = self.pmin = self.pmax = self.diagonal = self.field_boundary_file = None
        self.field_boundary_dict = self.field_boundary_marker = self.particle_boundary_file = self.particle_boundary_dict = self.particle_boundary_marker = self.particle_source_file = None
        self.particle_source_dict = self.particle_source_marker = None
        self.cells_on_side = []

    def usermeshinput1ds_c(self):
        self.mesh_file = self.user_mesh_input = self.user_mesh_class = self.precision = self.mesh_class = self.rmin = None
        self.rmax = self.nr = self.stretch = self.field_boundary_file = self.field_boundary_dict = self.field_boundary_marker = None
        self.particle_boundary_file = self.particle_boundary_dict = self.particle_boundary_marker = self.particle_source_file = self.particle_source_dict = self.particle_source_marker = None
        self.mesh_M = self.pmesh_M = None

    def userpoissonsolveinput1ds_c(self):
        self.user_poissonsolve_input = self.user_poissonsolve_class = self.mesh_M = self.element_type = self.element_degree = self.linear_solver = None
        self.preconditioner = self.phi_BCs = self.computeEflag = None
