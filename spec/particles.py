"""Reference definitions: particle bookkeeping, creation, sums, densities, output, boundary-condition selection."""
import h5py

import numpy as np_m


class Particles:
    TRAJECTORY_FLAG = 0b10

    # ---- counts and sums ------------------------------------------------------------------
    def species_number(self, sn):
        sap = self.sap_dict[sn]
        total = 0.0
        (n, seg) = sap.init_out_loop()
        while isinstance(seg, np_m.ndarray):
            total = total + np_m.sum(seg['weight'][0:n])
            (n, seg) = sap.get_next_segment('out')
        return total

    def species_KE(self, sn):
        sap = self.sap_dict[sn]
        total = 0.0
        (n, seg) = sap.init_out_loop()
        while isinstance(seg, np_m.ndarray):
            for u in self.velocity_coordinates:
                total = total + np_m.sum(seg['weight'][0:n] * seg[u][0:n] ** 2)
            (n, seg) = sap.get_next_segment('out')
        return 0.5 * self.mass[sn] * total

    def count(self, sn, print_flag=False):
        return self.sap_dict[sn].get_number_of_items()

    def total_count(self, print_flag=False):
        total = 0
        for sn in self.species_names:
            total = total + self.sap_dict[sn].get_number_of_items()
        return total

    # ---- creation -------------------------------------------------------------------------
    def initialize_particles(self, print_flags, neg_E_field=None):
        for name, entry in self.initial_particles_dict.items():
            params = entry[0]
            sn = params['species_name']
            kind = params['initial_distribution_type']
            loud = print_flags[sn]
            if kind == 'listed':
                self.create_from_list(sn, loud)
            elif kind == 'function_over_region':
                entry[1](0, 0.0, entry[2], params, neg_E_field)
            else:
                raise RuntimeError()

    def create_from_list(self, sn, print_flag=False):
        sap = self.sap_dict[sn]
        (n, items) = getattr(self.user_particles_class, sn)(type='listed')
        for i in range(n):
            full = sap.push_back(items[i])[1]
            (seg, off) = sap.get_segment_and_offset(full)
            p = seg[off]
            if (p['bitflags'] & self.TRAJECTORY_FLAG) != 0 and self.traj_T is not None:
                kind = 'neutral'
                if self.charge[sn] != 0.0:
                    kind = 'charged'
                self.traj_T.create_trajectory(sn, full, kind, unique_id_int=p['unique_ID'])

    def add_more(self, ctrl, neg_E_field=None, external_E_field=None):
        for name, src in self.particle_source_dict.items():
            (params, f, region) = src
            if ctrl.timeloop_count % params['timestep_interval'] == 0:
                f(ctrl.timeloop_count, ctrl.time, region, params, neg_E_field, external_E_field)

    def maxwellian(self, step, time, domain, paramDict, neg_E_field=None, external_E_field=None):
        sn = paramDict['species_name']
        density = paramDict['number_density']
        vth = paramDict['thermal_speed']
        drift = paramDict['drift_velocity']
        paramDict['velocity_coordinate_system']
        N = paramDict['number_per_cell']
        sap = self.sap_dict[sn]
        d = self.particle_dimension
        arr = self.one_particle_arr
        rec = arr[0]
        x = self.pcoord
        u = self.pvel
        x[:] = 0.0
        w = density / N
        if self.coordinate_system == 'spherical_r':
            w = w / (4.0 * np_m.pi)
        for c in range(domain.ncell):
            weight = domain.volume[c] * w
            cell = domain.cell_index[c]
            for i in range(N):
                flags = 0
                if i == 0:
                    for j in range(domain.gdim):
                        x[j] = domain.midpoint[c][j]
                else:
                    while True:
                        r = np_m.random.uniform(-1.0, 1.0, domain.gdim)
                        for j in range(domain.gdim):
                            x[j] = domain.midpoint[c][j] + r[j] * domain.radius[c]
                        if domain.in_cell(x, c):
                            break
                u[:] = np_m.random.normal(0.0, vth, d) + drift
                for j in range(d):
                    rec[j] = x[j]
                    rec[d + j] = x[j]
                    rec[2 * d + j] = u[j]
                uid = Particle_C.UNIQUE_ID_COUNTER
                rec[3 * d] = weight
                if uid == 500:
                    flags = flags | self.TRAJECTORY_FLAG
                rec[3 * d + 1] = flags
                rec[3 * d + 2] = cell
                rec[3 * d + 3] = uid
                rec[3 * d + 4] = 0
                Particle_C.UNIQUE_ID_COUNTER = uid + 1
                (off, full) = sap.push_back(arr)
                if (flags & self.TRAJECTORY_FLAG) != 0 and self.traj_T is not None:
                    kind = 'neutral'
                    if self.charge[sn] != 0.0:
                        kind = 'charged'
                    self.traj_T.create_trajectory(sn, full, kind, unique_id_int=rec[3 * d + 3])
                    if neg_E_field is None:
                        self.E1_comps[0][:] = 0.0
                    else:
                        neg_E_field.interpolate_field_to_points(arr, self.negE1)
                        for j in range(len(self.negE1.dtype.names)):
                            self.E1_comps[0][j] = -self.negE1[0][j]
                    if external_E_field is None:
                        self.Eext1_comps[0][:] = 0.0
                    else:
                        external_E_field.interpolate_field_to_points(arr, self.Eext1)
                        for j in range(len(self.Eext1.dtype.names)):
                            self.Eext1_comps[0][j] = self.Eext1[0][j]
                    self.record_trajectory_datum(sn, None, full, step, time, E_field_comps=self.E1_comps, external_E_field_comps=self.Eext1_comps)

    # ---- mesh -----------------------------------------------------------------------------
    def cell_indices(self):
        m = self.pmesh_M
        if m is not None:
            for sn in self.species_names:
                sap = self.sap_dict[sn]
                (n, seg) = sap.init_out_loop()
                while isinstance(seg, np_m.ndarray):
                    for i in range(n):
                        seg[i]['cell_index'] = m.compute_cell_index(seg[i])
                        if not m.is_inside_cell(seg[i], seg[i]['cell_index']):
                            raise RuntimeError()
                    (n, seg) = sap.get_next_segment('out')

    def particle_mesh(self, mesh_M):
        if mesh_M is None:
            raise RuntimeError()
        self.pmesh_M = mesh_M
        if self.use_cpp_integrators is True:
            import mesh_entity_arrays_solib
            cls = getattr(mesh_entity_arrays_solib, 'MeshEntityArrays_' + str(mesh_M.mesh.topology().dim() + 1) + '_facets')
            mesh_M.mea_object = cls(mesh_M.mesh, compute_particle_mesh_maps=True)
        else:
            mesh_M.compute_cell_vertices_dict()
            mesh_M.compute_cell_entity_indices_dict('facet')
            mesh_M.compute_cell_facet_normals_dict()
            mesh_M.compute_cell_neighbors_dict()
            mesh_M.compute_cell_volume_dict()

    # ---- densities ------------------------------------------------------------------------
    def number_density(self, sn, dof_number_density_F=None, cell_number_density_F=None):
        sap = self.sap_dict[sn]
        (n, seg) = sap.init_out_loop()
        while isinstance(seg, np_m.ndarray):
            for p in seg[0:n]:
                if dof_number_density_F is not None:
                    dof_number_density_F.interpolate_delta_function_to_dofs(p)
                if cell_number_density_F is not None:
                    cell_number_density_F.add_weight_to_cell(p)
            (n, seg) = sap.get_next_segment('out')
        if cell_number_density_F is not None:
            cell_number_density_F.divide_by_cell_volumes()

    def charge_density(self, dof_number_density_dict_F, charge_density_F):
        if self.pmesh_M is None:
            raise RuntimeError()
        for sn in self.species_names:
            charge_density_F.multiply_add(dof_number_density_dict_F[sn], self.charge[sn])

    # ---- output ---------------------------------------------------------------------------
    def check_output(self, ctrl):
        for a in ctrl.particle_output_attributes:
            if a != 'species_index' and not (a in self.particle_dtype.names):
                raise RuntimeError()

    def output_header(self, ctrl):
        if ctrl.particle_output_file is None:
            raise RuntimeError()
        f = h5py.File(ctrl.particle_output_file, 'w')
        self.particle_output_handle = f
        f.attrs['Title:'] = ctrl.title
        f.attrs['Author:'] = ctrl.author
        f.attrs['NumParticleTypes:'] = self.number_of_species
        for sn in self.species_names:
            k = str(self.species_index[sn])
            f.attrs['particle_type_' + k] = sn
            f.attrs['mass_' + k] = self.mass[sn]
            f.attrs['charge_' + k] = self.charge[sn]
        self.h5_step_counter = 0
        self.particle_output_handle.flush()

    def write(self, ctrl, close_flag=False):
        step = ctrl.timeloop_count
        if step != self.h5_last_write_step:
            g = self.particle_output_handle.create_group('Step#' + str(self.h5_step_counter))
            g.attrs['TimeValue'] = ctrl.time
            n = self.get_total_particle_count(print_flag=False)
            if n > self.h5_buffer_length:
                self.h5_buffer_length = int(1 + n / self.SEGMENT_LENGTH) * self.SEGMENT_LENGTH
                self.h5_buffer = np_m.empty(self.h5_buffer_length, dtype=np_m.float64)
            buf = self.h5_buffer
            for a in ctrl.particle_output_attributes:
                if a == 'species_index':
                    buf.dtype = np_m.int64
                elif np_m.issubdtype(self.particle_dtype[a], np_m.floating):
                    buf.dtype = np_m.float64
                elif np_m.issubdtype(self.particle_dtype[a], np_m.integer):
                    buf.dtype = np_m.int64
                else:
                    raise RuntimeError()
                k = 0
                for sn in self.species_names:
                    if self.get_species_particle_count(sn) != 0:
                        if a == 'species_index':
                            m = self.get_species_particle_count(sn, print_flag=False)
                            buf[k:k + m] = self.species_index[sn]
                            k = k + m
                        else:
                            sap = self.sap_dict[sn]
                            (m, seg) = sap.init_out_loop()
                            while isinstance(seg, np_m.ndarray):
                                buf[k:k + m] = seg[a][0:m]
                                k = k + m
                                (m, seg) = sap.get_next_segment('out')
                g.create_dataset(a, data=buf[0:k])
            self.h5_step_counter = self.h5_step_counter + 1
            self.h5_last_write_step = step
            self.particle_output_handle.flush()
        if close_flag is True:
            self.particle_output_handle.close()


class BCs:
    def select(self, speciesNames, pmesh_M, fns, print_flag=False):
        name_of = {v: k for k, v in pmesh_M.particle_boundary_dict.items()}
        tags = list(name_of.keys())
        self.bc_function_dict = dict((t, dict((sn, None) for sn in speciesNames)) for t in tags)
        g = getattr(fns, 'default_bc') if hasattr(fns, 'default_bc') else None
        for t in tags:
            b = 'default_bc_at_' + name_of[t]
            db = getattr(fns, b) if hasattr(fns, b) else g
            for sn in speciesNames:
                s = 'bc_at_' + name_of[t] + '_for_' + sn
                self.bc_function_dict[t][sn] = getattr(fns, s) if hasattr(fns, s) else db


class Sources:
    def select(self, speciesNames, pmesh_M, fns, print_flag=False):
        name_of = {v: k for k, v in pmesh_M.particle_source_dict.items()}
        tags = list(name_of.keys())
        self.srcFunctionDict = dict((t, dict((sn, None) for sn in speciesNames)) for t in tags)
        g = getattr(fns, 'default_bc') if hasattr(fns, 'default_bc') else None
        for t in tags:
            b = 'default_bc_at_' + name_of[t]
            db = getattr(fns, b) if hasattr(fns, b) else g
            for sn in speciesNames:
                s = 'bc_at_' + name_of[t] + '_for_' + sn
                self.srcFunctionDict[t][sn] = getattr(fns, s) if hasattr(fns, s) else db


def bc_cpp(self, species_names, pmesh_M, fns, print_flag):
    self.user_particle_boundary_functions = fns
    fmap = fns.bc_function_map
    name_of = {}
    for it in pmesh_M.particle_boundary_dict:
        name_of[it.second] = it.first
    tags = []
    for it in name_of:
        tags.append(it.first)
    g = fmap['default_bc'] if 'default_bc' in fmap else None
    for t in tags:
        b = 'default_bc_at_' + name_of[t]
        db = fmap[b] if b in fmap else g
        for sn in species_names:
            s = 'bc_at_' + name_of[t] + '_for_' + sn
            f = fmap[s] if s in fmap else db
            if f == None:
                exit(1)
            self.bc_function_dict[t, sn] = f
