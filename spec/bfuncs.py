"""Reference definitions: supplied particle boundary functions, particle record conversions."""
import numpy as np_m


def absorb(p, species_name, facet_index, dx_fraction=None, facet_normal=None):
    p['bitflags'] = p['bitflags'] | 1


def nothing(p, species_name, facet_index, dx_fraction=None, facet_normal=None):
    return


class Functions:
    def setup(self, position_coordinates, dx):
        self.position_coordinates = position_coordinates
        self.particle_dimension = len(position_coordinates)
        self.dx = dx
        self.pcoord = np_m.empty(len(position_coordinates), dtype=dx.dtype)
        self.pvel = np_m.empty(len(position_coordinates), dtype=dx.dtype)

    def reflect(self, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
        a = 0.0
        b = 0.0
        for i in range(__D__):
            a = a + facet_normal[i] * (1.0 - dx_fraction) * self.dx[i]
            b = b + facet_normal[i] * p['u' + __COORDS__[i]]
        for i in range(__D__):
            p[__COORDS__[i]] -= 2.0 * a * facet_normal[i]
            p['u' + __COORDS__[i]] -= 2.0 * b * facet_normal[i]

    def table(self, position_coordinates):
        self.particle_dimension = len(position_coordinates)
        for c in position_coordinates:
            self.position_coordinates.append(c)
        for n in __FUNCTIONS__:
            self.bc_function_map[n] = '&' + n

    def cpp_absorb(self, p, species_name, facet_index, dx, dx_fraction, facet_normal):
        p['bitflags'] = p['bitflags'] | 1

    def cpp_reflect(self, p, species_name, facet_index, dx, dx_fraction, facet_normal):
        a = 0.0
        b = 0.0
        for i in range(__D__):
            a = a + facet_normal[i] * (1.0 - dx_fraction) * dx[i]
            b = b + facet_normal[i] * p['u' + __COORDS__[i]]
        for i in range(__D__):
            p[__COORDS__[i]] -= 2.0 * a * facet_normal[i]
            p['u' + __COORDS__[i]] -= 2.0 * b * facet_normal[i]


class Record:
    def reflect(self, surface_normal, dx):
        a = 0.0
        b = 0.0
        for i in range(__D__):
            a = a + surface_normal[i] * dx[i]
            b = b + surface_normal[i] * self['u' + __COORDS__[i]]
        for i in range(__D__):
            self[__COORDS__[i]] -= 2.0 * a * surface_normal[i]
            self['u' + __COORDS__[i]] -= 2.0 * b * surface_normal[i]


class Record_x:
    def as_tuple(self):
        return (self['x'], self['x0'], self['ux'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings'])

    def as_list(self):
        return [self['x'], self['x0'], self['ux'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings']]

    def as_dict(self):
        return {'x': self['x'], 'x0': self['x0'], 'ux': self['ux'], 'weight': self['weight'], 'bitflags': self['bitflags'], 'cell_index': self['cell_index'], 'unique_ID': self['unique_ID'], 'crossings': self['crossings']}

    def set_from(self, p):
        self['x'] = p[0]
        self['x0'] = p[1]
        self['ux'] = p[2]
        self['weight'] = p[3]
        self['bitflags'] = p[4]
        self['cell_index'] = p[5]
        self['unique_ID'] = p[6]
        self['crossings'] = p[7]


class Record_xy:
    def as_tuple(self):
        return (self['x'], self['y'], self['x0'], self['y0'], self['ux'], self['uy'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings'])

    def as_list(self):
        return [self['x'], self['y'], self['x0'], self['y0'], self['ux'], self['uy'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings']]

    def as_dict(self):
        return {'x': self['x'], 'y': self['y'], 'x0': self['x0'], 'y0': self['y0'], 'ux': self['ux'], 'uy': self['uy'], 'weight': self['weight'], 'bitflags': self['bitflags'], 'cell_index': self['cell_index'], 'unique_ID': self['unique_ID'], 'crossings': self['crossings']}

    def set_from(self, p):
        self['x'] = p[0]
        self['y'] = p[1]
        self['x0'] = p[2]
        self['y0'] = p[3]
        self['ux'] = p[4]
        self['uy'] = p[5]
        self['weight'] = p[6]
        self['bitflags'] = p[7]
        self['cell_index'] = p[8]
        self['unique_ID'] = p[9]
        self['crossings'] = p[10]


class Record_xyz:
    def as_tuple(self):
        return (self['x'], self['y'], self['z'], self['x0'], self['y0'], self['z0'], self['ux'], self['uy'], self['uz'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings'])

    def as_list(self):
        return [self['x'], self['y'], self['z'], self['x0'], self['y0'], self['z0'], self['ux'], self['uy'], self['uz'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings']]

    def as_dict(self):
        return {'x': self['x'], 'y': self['y'], 'z': self['z'], 'x0': self['x0'], 'y0': self['y0'], 'z0': self['z0'], 'ux': self['ux'], 'uy': self['uy'], 'uz': self['uz'], 'weight': self['weight'], 'bitflags': self['bitflags'], 'cell_index': self['cell_index'], 'unique_ID': self['unique_ID'], 'crossings': self['crossings']}

    def set_from(self, p):
        self['x'] = p[0]
        self['y'] = p[1]
        self['z'] = p[2]
        self['x0'] = p[3]
        self['y0'] = p[4]
        self['z0'] = p[5]
        self['ux'] = p[6]
        self['uy'] = p[7]
        self['uz'] = p[8]
        self['weight'] = p[9]
        self['bitflags'] = p[10]
        self['cell_index'] = p[11]
        self['unique_ID'] = p[12]
        self['crossings'] = p[13]


class Record_r:
    def as_tuple(self):
        return (self['r'], self['r0'], self['ur'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings'])

    def as_list(self):
        return [self['r'], self['r0'], self['ur'], self['weight'], self['bitflags'], self['cell_index'], self['unique_ID'], self['crossings']]

    def as_dict(self):
        return {'r': self['r'], 'r0': self['r0'], 'ur': self['ur'], 'weight': self['weight'], 'bitflags': self['bitflags'], 'cell_index': self['cell_index'], 'unique_ID': self['unique_ID'], 'crossings': self['crossings']}

    def set_from(self, p):
        self['r'] = p[0]
        self['r0'] = p[1]
        self['ur'] = p[2]
        self['weight'] = p[3]
        self['bitflags'] = p[4]
        self['cell_index'] = p[5]
        self['unique_ID'] = p[6]
        self['crossings'] = p[7]
