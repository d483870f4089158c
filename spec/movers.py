"""Reference definitions of the particle movers.

One step of a species: every stored particle is copied from "in" to the next free "out" slot, accelerated, moved,
followed from facet to facet to the cell containing its end point (calling the boundary function of every marked facet
it crosses), and kept unless it is flagged deleted.
"""
import numpy as np_m


class PyMover:
    DELETE_FLAG = 0b1
    TRAJECTORY_FLAG = 0b10

    # ---- storage frame ------------------------------------------------------------------
    def advance(self, kind, sn, ctrl, negE_field, ext_field, accel_only):
        sap = self.sap_dict[sn]
        L = self.SEGMENT_LENGTH
        kick = self.qom[sn] * ctrl.dt
        (n, src, dst) = sap.init_inout_loop()
        total = 0
        k = 0
        moved = False
        while isinstance(src, np_m.ndarray):
            E = None
            Eext = None
            if kind == 'charged' or kind == 'old':
                E = self.field(sn, ctrl, negE_field, src, n)
                Eext = self.external(sn, ctrl, ext_field, src, n, E)
            for i in range(n):
                if k == L:
                    dst = sap.get_next_out_segment()
                    k = 0
                    if COUNT == 2:
                        total = total + 1
                dst[k] = src[i]
                if E is not None:
                    for c in self.position_coordinates:
                        dst[k]['u' + c] = dst[k]['u' + c] + kick * E[i][c]
                if not accel_only:
                    for c in self.position_coordinates:
                        dst[k][c + '0'] = dst[k][c]
                        dst[k][c] = dst[k][c] + ctrl.dt * dst[k]['u' + c]
                dst[k]['crossings'] = self.track(kind, sn, ctrl, sap, dst, k, i, E, Eext)
                gone = (dst[k]['bitflags'] & self.DELETE_FLAG) != 0
                if gone:
                    moved = True
                    if self.traj_T is not None and (src[i]['bitflags'] & self.TRAJECTORY_FLAG) != 0:
                        self.remove_trajectory_particleId(sn, i, k, ctrl.timeloop_count, ctrl.time, ctrl.dt)
                else:
                    if self.traj_T is not None and (dst[k]['bitflags'] & self.TRAJECTORY_FLAG) != 0 and moved:
                        self.update_trajectory_particleId(sn, i, k)
                    k = k + 1
                    if COUNT == 1:
                        total = total + 1
                if COUNT == 0 and k == L:
                    total = total + L
            (n, src) = sap.get_next_segment('in')
        if COUNT == 0 and k != L:
            total = total + k
        if COUNT == 2:
            total = total * L + k
        sap.set_number_of_items('out', total)

    # ---- fields ---------------------------------------------------------------------------
    def field(self, sn, ctrl, negE_field, src, n):
        on = negE_field is not None and (ctrl.apply_solved_electric_field is None or ctrl.apply_solved_electric_field[sn] is True)
        E = self.negE[0:n]
        if on:
            negE_field.interpolate_field_to_points(src[0:n], self.negE)
            for c in self.position_coordinates:
                E[c] = -E[c]
        else:
            self.negE[0:n] = self.zeroE[0:n]
        return E

    def external(self, sn, ctrl, ext_field, src, n, E):
        Eext = None
        if ext_field is not None and (ctrl.apply_random_external_electric_field is None or ctrl.apply_random_external_electric_field[sn] is True):
            ext_field.interpolate_random_field_to_points(src, self.Eext)
            Eext = self.Eext[0:n]
            for c in self.position_coordinates:
                E[c] = E[c] + Eext[c]
        return Eext

    # ---- facet tracking ---------------------------------------------------------------------
    def track(self, kind, sn, ctrl, sap, dst, k, i, E, Eext):
        m = self.pmesh_M
        cell = dst[k]['cell_index']
        d = self.particle_dimension
        xs = self.position_coordinates
        last = -1
        count = 0
        t = ctrl.time - ctrl.dt
        rest = ctrl.dt
        while not m.is_inside_cell(dst[k], cell):
            count = count + 1
            if count > ctrl.MAX_FACET_CROSS_COUNT:
                raise RuntimeError()
            for j in range(d):
                self.pcoord2[j] = dst[k][xs[j]]
            for j in range(d):
                self.pcoord2[d + j] = dst[k][xs[j] + '0']
            for j in range(d):
                self.dx[j] = self.pcoord2[j] - self.pcoord2[d + j]
            (f, s, normal) = m.find_facet(self.pcoord2[d:2 * d], self.dx, cell)
            if f == -1:
                raise RuntimeError()
            t = t + s * rest
            rest = rest - s * rest
            for j in range(d):
                dst[k][xs[j] + '0'] = dst[k][xs[j] + '0'] + s * self.dx[j]
            facet = m.cell_entity_indices_dict['facet'][cell][f]
            if facet == last:
                raise RuntimeError()
            last = facet
            mark = m.particle_boundary_marker[facet]
            if mark != 0:
                if (dst[k]['bitflags'] & self.TRAJECTORY_FLAG) != 0:
                    self.record_crossing(kind, sn, ctrl, sap, dst, k, i, t, E, Eext)
                self.pmesh_bcs.bc_function_dict[mark][sn](dst[k], sn, facet, dx_fraction=s, facet_normal=normal)
            nb = m.cell_neighbors_dict[cell][f]
            if nb == -1:
                if (dst[k]['bitflags'] & self.DELETE_FLAG) == 1:
                    dst[k]['cell_index'] = -1
                    return count
            else:
                dst[k]['cell_index'] = nb
                cell = nb
        return count

    def record_crossing(self, kind, sn, ctrl, sap, dst, k, i, t, E, Eext):
        if kind == 'charged':
            self.one_particle_arr[0] = dst[k]
            for j in range(self.particle_dimension):
                self.E1_comps[0][j] = E[i][j]
            if Eext is None:
                self.Eext1_comps[0][:] = 0.0
            else:
                for j in range(self.particle_dimension):
                    self.Eext1_comps[0][j] = Eext[i][j]
            self.record_trajectory_datum(sn, k, sap.get_full_index(i, 'in'), ctrl.timeloop_count, t, self.E1_comps, self.Eext1_comps, True)
        else:
            self.record_trajectory_datum(sn, k, sap.get_full_index(i, 'in'), ctrl.timeloop_count, t, None, None, True)

    # ---- entry points -----------------------------------------------------------------------
    def charged_species(self, sn, ctrl, neg_E_field=None, external_E_field=None, accel_only=False):
        self.advance('charged', sn, ctrl, neg_E_field, external_E_field, accel_only)

    def neutral_species(self, sn, ctrl):
        self.advance('neutral', sn, ctrl, None, None, False)

    def charged_all(self, ctrl, neg_E_field=None, external_E_field=None, accel_only=False):
        for sn in self.charged_species:
            if self.get_species_particle_count(sn) != 0:
                self.advance('old', sn, ctrl, neg_E_field, external_E_field, accel_only)

    def uniform(self, sn, ctrl, print_flag=False):
        sap = self.sap_dict[sn]
        L = self.SEGMENT_LENGTH
        kick = self.qom[sn] * ctrl.dt
        (n, src, dst) = sap.init_inout_loop()
        total = 0
        k = 0
        while isinstance(src, np_m.ndarray):
            for i in range(n):
                if (src[i]['bitflags'] & self.DELETE_FLAG) == 0:
                    if k == L:
                        dst = sap.get_next_out_segment()
                        k = 0
                        if COUNT == 2:
                            total = total + 1
                    dst[k] = src[i]
                    dst[k]['ux'] = src[i]['ux'] + kick * ctrl.E0.x
                    dst[k]['uy'] = src[i]['uy'] + kick * ctrl.E0.y
                    dst[k]['uz'] = src[i]['uz'] + kick * ctrl.E0.z
                    dst[k]['x'] = src[i]['x'] + ctrl.dt * dst[k]['ux']
                    dst[k]['y'] = src[i]['y'] + ctrl.dt * dst[k]['uy']
                    dst[k]['z'] = src[i]['z'] + ctrl.dt * dst[k]['uz']
                    k = k + 1
                    if COUNT == 1:
                        total = total + 1
                    if COUNT == 0 and k == L:
                        total = total + L
            (n, src) = sap.get_next_segment('in')
        if COUNT == 0 and k != L:
            total = total + k
        if COUNT == 2:
            total = total * L + k
        sap.set_number_of_items('out', total)


class Dispatch:
    def charged(self, ctrl, neg_E_field=None, external_E_field=None, accel_only=False):
        for sn in self.charged_species:
            if self.get_species_particle_count(sn) != 0:
                f = self.integrators[sn]
                if self.use_cpp_integrators is True:
                    E = None
                    if neg_E_field is not None:
                        E = neg_E_field.function.cpp_object()
                    f(self, sn, ctrl, neg_E_field=E, external_E_field=external_E_field, accel_only=accel_only)
                else:
                    f(sn, ctrl, neg_E_field=neg_E_field, external_E_field=external_E_field, accel_only=accel_only)

    def neutral(self, ctrl):
        for sn in self.neutral_species:
            if self.get_species_particle_count(sn) != 0:
                if self.use_cpp_integrators is True:
                    self.integrators[sn](self, sn, ctrl)
                else:
                    self.integrators[sn](sn, ctrl)

    def integration(self):
        L = self.SEGMENT_LENGTH
        P = self.force_precision
        if self.force_components is not None:
            F = self.force_components
            n = len(F)
            fmt = {'names': F, 'formats': [P for c in F]}
            if self.use_cpp_integrators is True:
                self.negE = np_m.zeros((L, n), dtype=P)
                self.Eext = np_m.zeros((L, n), dtype=P)
                self.zeroE = np_m.zeros((L, n), dtype=P)
            else:
                self.negE = np_m.zeros(L, dtype=fmt)
                self.Eext = np_m.zeros(L, dtype=fmt)
                self.zeroE = np_m.zeros(L, dtype=fmt)
            self.negE1 = np_m.empty(1, dtype={'names': ['E' + c for c in F], 'formats': [P for c in F]})
            self.E1_comps = np_m.empty((1, n), dtype=P)
            self.Eext1 = np_m.empty(1, dtype={'names': ['E' + c + '_ext' for c in F], 'formats': [P for c in F]})
            self.Eext1_comps = np_m.empty((1, n), dtype=P)
            self.zeroE1 = np_m.zeros(1, dtype=fmt)
        self.integrators = {}
        if self.use_cpp_integrators is True:
            facets = str(self.pmesh_M.mesh.topology().dim() + 1)
            for sn in self.charged_species:
                self.integrators[sn] = getattr(self.particle_solib, 'advance_charged_species_in_E_field_' + facets + '_facets')
            for sn in self.neutral_species:
                self.integrators[sn] = getattr(self.particle_solib, 'advance_neutral_species_' + facets + '_facets')
        else:
            for sn in self.charged_species:
                self.integrators[sn] = getattr(self, 'advance_charged_species_in_E_field')
            for sn in self.neutral_species:
                self.integrators[sn] = getattr(self, 'advance_neutral_species')
