"""Reference definitions: trajectory storage, histories."""


class Traj:
    def update_id(self, sn, ip_in, ip_out):
        old_new = self.sap_dict[sn].get_full_indices(ip_in, ip_out)
        slot = self.traj_T.particle_index_list[sn].index(old_new[0])
        self.traj_T.particle_index_list[sn][slot] = old_new[1]
        return (old_new[0], old_new[1])

    def store(self, sn, slot, n, step, time, names, rec, crossing, charged, E, Eext, hasE, hasExt):
        data = self.traj_T.data_list[sn][slot]
        for c in names:
            if c == 'step':
                data[c][n] = step
            elif c == 't':
                data[c][n] = time
            elif c in rec.dtype.names:
                if crossing and c in self.position_coordinates:
                    data[c][n] = rec[0][c + '0']
                else:
                    data[c][n] = rec[0][c]
            elif charged:
                if c in E.dtype.names:
                    data[c][n] = E[0][c] if hasE else 0.0
                elif c in Eext.dtype.names:
                    data[c][n] = Eext[0][c] if hasExt else 0.0
        self.traj_T.trajectory_length[sn][slot] = n + 1

    def remove_id(self, sn, ip_in, ip_out, step, time, dt):
        T = self.traj_T
        sap = self.sap_dict[sn]
        rec = self.one_particle_arr
        rec[0] = sap.get_current_out_segment()[ip_out]
        if step == T.last_step:
            step = step + 1
            time = time + dt
        full = sap.get_full_index(ip_in, 'in')
        slot = T.particle_index_list[sn].index(full)
        n = T.trajectory_length[sn][slot]
        if n < T.npoints:
            if self.charge[sn] != 0.0:
                self.store(sn, slot, n, step, time, T.charged_dict['names'], rec, False, True, self.negE1, self.Eext1, False, False)
            else:
                self.store(sn, slot, n, step, time, T.neutral_dict['names'], rec, False, False, None, None, False, False)
        T.particle_index_list[sn][slot] = T.NO_PINDEX
        return full

    def datum(self, sn, ip_out, full_index, step, time, E_field_comps=None, external_E_field_comps=None, facet_crossing=False):
        T = self.traj_T
        rec = self.one_particle_arr
        if ip_out is not None:
            rec[0] = self.sap_dict[sn].get_current_out_segment()[ip_out]
        if E_field_comps is not None:
            E = self.negE1
            for i in range(len(E.dtype.names)):
                E[0][i] = E_field_comps[0][i]
        if external_E_field_comps is not None:
            Eext = self.Eext1
            for i in range(len(Eext.dtype.names)):
                Eext[0][i] = external_E_field_comps[0][i]
        if T is not None:
            slot = T.particle_index_list[sn].index(full_index)
            n = T.trajectory_length[sn][slot]
            if n < T.npoints:
                if self.charge[sn] != 0.0:
                    self.store(sn, slot, n, step, time, T.charged_dict['names'], rec, facet_crossing is True, True, self.negE1, self.Eext1, E_field_comps is not None, external_E_field_comps is not None)
                else:
                    self.store(sn, slot, n, step, time, T.neutral_dict['names'], rec, facet_crossing is True, False, None, None, False, False)

    def data(self, step, time, neg_E_field=None, external_E_field=None):
        T = self.traj_T
        if step == T.last_step:
            return
        rec = self.one_particle_arr
        for sn in T.charged_species:
            sap = self.sap_dict[sn]
            for slot in range(len(T.particle_index_list[sn])):
                full = T.particle_index_list[sn][slot]
                if full != T.NO_PINDEX:
                    (seg, off) = sap.get_segment_and_offset(full)
                    rec[0] = seg[off]
                    if neg_E_field is None:
                        self.negE1[0] = self.zeroE1[0]
                    else:
                        neg_E_field.interpolate_field_to_points(rec, self.negE1)
                    E = self.negE1[0:rec.size]
                    for c in E.dtype.names:
                        E[c] = -1.0 * E[c]
                    if external_E_field is None:
                        self.Eext1[0] = self.zeroE1[0]
                    else:
                        external_E_field.interpolate_field_to_points(rec, self.Eext1)
                    Eext = self.Eext1[0:rec.size]
                    n = T.trajectory_length[sn][slot]
                    if n < T.npoints:
                        self.store(sn, slot, n, step, time, T.charged_dict['names'], rec, False, True, E, Eext, True, True)
        for sn in T.neutral_species:
            sap = self.sap_dict[sn]
            for slot in range(len(T.particle_index_list[sn])):
                full = T.particle_index_list[sn][slot]
                if full != T.NO_PINDEX:
                    (seg, off) = sap.get_segment_and_offset(full)
                    rec[0] = seg[off]
                    n = T.trajectory_length[sn][slot]
                    if n < T.npoints:
                        self.store(sn, slot, n, step, time, T.neutral_dict['names'], rec, False, False, None, None, False, False)
        T.last_step = step

    def history(self, step, time):
        h = self.histories
        n = h.counter
        h.data_array['step'][n] = step
        h.data_array['t'][n] = time
        for q in h.scalar_histories:
            total = 0.0
            for sn in self.species_names:
                v = self.history_function_dict['species_' + q](self, sn)
                h.data_array[sn + '_' + q][n] = v
                h.data_array[sn + '_ppp_' + q][n] = v / max(self.get_species_number(sn), 1)
                total = total + v
            h.data_array[q][n] = total
        h.counter = h.counter + 1
