"""Reference definitions: containers of recorded trajectories and histories, trajectory files."""
import h5py
import dolfin as df_m
import matplotlib.pyplot as mplot_m
import numpy as np_m


class Recorded:
    def trajectory(self, trajin, ctrl, charged, neutral, index, mass, charge):
        self.last_step = None
        self.charged_dict = trajin.charged_dict
        self.neutral_dict = trajin.neutral_dict
        n = ctrl.n_timesteps
        self.skip = 1 if trajin.max_points is None else int(n / trajin.max_points + 1)
        self.npoints = int(n / self.skip + 1 + trajin.extra_points)
        self.charged_species = charged
        self.neutral_species = neutral
        self.ctrl_title = ctrl.title
        self.ctrl_author = ctrl.author
        self.species_index = index
        self.species_mass = mass
        self.species_charge = charge
        self.particle_index_list = {}
        self.particle_unique_id_list = {}
        self.data_list = {}
        self.trajectory_length = {}
        for s in charged + neutral:
            self.particle_index_list[s] = []
            self.particle_unique_id_list[s] = []
            self.data_list[s] = []
            self.trajectory_length[s] = []
        if ctrl.write_trajectory_files is None:
            raise RuntimeError()

    def create(self, species, pindex, dynamics, uid=None):
        self.particle_index_list[species].append(pindex)
        self.particle_unique_id_list[species].append(uid)
        self.trajectory_length[species].append(0)
        if dynamics == 'charged':
            columns = self.charged_dict
        elif dynamics == 'neutral':
            columns = self.neutral_dict
        else:
            raise RuntimeError()
        self.data_list[species].append(np_m.empty(self.npoints, dtype=columns))

    def write(self):
        buf = np_m.empty(1, dtype=np_m.float64)
        for s in self.charged_species + self.neutral_species:
            if len(self.data_list[s]) > 0:
                columns = self.data_list[s][0].dtype.names
                dt = self.data_list[s][0].dtype
                kinds = [dt[j] for j in range(len(dt))]
                types = {}
                i = 0
                for c in columns:
                    if np_m.issubdtype(kinds[i], np_m.floating):
                        types[c] = np_m.float64
                    elif np_m.issubdtype(kinds[i], np_m.integer):
                        types[c] = np_m.int64
                    else:
                        raise RuntimeError()
                    i = i + 1
                for k in range(len(self.particle_index_list[s])):
                    data = self.data_list[s][k]
                    f = h5py.File('traj-%s-uid%d.h5part' % (s, self.particle_unique_id_list[s][k]), 'w')
                    f.attrs['Title:'] = self.ctrl_title
                    f.attrs['Author:'] = self.ctrl_author
                    f.attrs['particle_type_' + str(self.species_index[s])] = s
                    f.attrs['mass_' + str(self.species_index[s])] = self.species_mass[s]
                    f.attrs['charge_' + str(self.species_index[s])] = self.species_charge[s]
                    for n in range(self.trajectory_length[s][k]):
                        g = f.create_group('Step#' + str(n))
                        g.attrs['TimeValue'] = data['t'][n]
                        for c in columns:
                            buf.dtype = types[c]
                            buf[0] = data[c][n]
                            g.create_dataset(c, data=buf[0])
                    f.close()

    def history(self, histin, ctrl):
        self.scalar_histories = histin.scalar_histories
        self.ctrl = ctrl
        n = ctrl.n_timesteps
        self.skip = 1 if histin.max_points is None else int(n / histin.max_points + 1)
        self.npoints = int(n / self.skip + 1)
        self.counter = 0
        self.history_list_base = ['step', 't']
        self.format_list_base = [int, np_m.float32]

    def particle_history(self, histin, ctrl, function_dict, species_names):
        self.history(histin, ctrl)
        own = []
        for h in histin.scalar_histories:
            for s in species_names:
                own.append(s + '_' + h)
                own.append(s + '_ppp_' + h)
        self.species_scalar_histories = own
        names = ['step', 't'] + histin.scalar_histories + own
        self.data_array = np_m.zeros(self.npoints, dtype={'names': names, 'formats': [int, np_m.float32] + [np_m.float32 for h in histin.scalar_histories] + [np_m.float32 for h in own]})

    def plot(self, plot_vs_t_only=False):
        import matplotlib.pyplot as m
        for s in self.charged_species + self.neutral_species:
            if len(self.data_list[s]) > 0:
                names = self.data_list[s][0][0].dtype.names[2:]
                for k in range(len(self.particle_index_list[s])):
                    uid = self.particle_unique_id_list[s][k]
                    if uid is None:
                        title = "%s:_Traj#_ %d_Particle_id_%d" % (s, k, self.particle_index_list[s][k])
                    else:
                        title = "traj-%s-uid%d" % (s, uid)
                    data = self.data_list[s][k]
                    n = self.trajectory_length[s][k]
                    for c in names:
                        self.curve(m, title, data['t'][0:n], data[c][0:n], "time (s)", c)
                    if plot_vs_t_only is False:
                        if 'x' in names and 'y' in names:
                            self.curve(m, title, data['x'][0:n], data['y'][0:n], 'x', 'y')
                        if 'x' in names and 'ux' in names:
                            self.curve(m, title, data['x'][0:n], data['ux'][0:n], 'x', 'ux')
                    m.show()

    def curve(self, m, title, xs, ys, xlabel, ylabel):
        fig = m.figure()
        m.plot(xs, ys, marker="o")
        m.title(title)
        m.xlabel(xlabel)
        m.ylabel(ylabel)
        m.grid(True)
        m.show()
        m.close(fig)

    def on_mesh(self, mesh, plot_title, hold_plot=False):
        df_m.plot(mesh, title=plot_title)
        for s in self.charged_species + self.neutral_species:
            if len(self.data_list[s]) > 0:
                names = self.data_list[s][0][0].dtype.names[2:]
                for k in range(len(self.particle_index_list[s])):
                    n = self.trajectory_length[s][k]
                    if n != 1:
                        data = self.data_list[s][k]
                        if 'x' in names and 'y' in names:
                            mplot_m.plot(data['x'][0:n], data['y'][0:n], marker="o")
        mplot_m.show()

    def plot_histories(self):
        import matplotlib.pyplot as m
        self.curve(m, "timestep_number_vs._time", self.data_array['t'], self.data_array['step'], "time (s)", "timestep")
        for h in self.scalar_histories + self.species_scalar_histories:
            self.curve(m, "%s_vs._time" % (h), self.data_array['t'], self.data_array[h], "time (s)", h)
