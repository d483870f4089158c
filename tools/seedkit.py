import sys, os, io, contextlib, math
import numpy as np
import dt_pybind11_bridge
import numpy_types_solib
import dolfin as df
from DT_Module import DTcontrol_C
from Dolfin_Module import *
from Particle_Module import *
from RecordedData_Module import *

NAMES = {'x': ['x'], 'xy': ['x', 'y'], 'xyz': ['x', 'y', 'z']}


class BF:
    """boundary functions of a user: absorb everywhere, reflect at xmax"""
    def __init__(self, coords, dx):
        self.coords = coords
        self.dx = dx
        self.calls = []

    def default_bc(self, p, sn, facet, dx_fraction=None, facet_normal=None):
        self.calls.append(('default', sn, int(facet), dx_fraction))
        p['bitflags'] = p['bitflags'] | Particle_C.DELETE_FLAG

    def default_bc_at_xmax(self, p, sn, facet, dx_fraction=None, facet_normal=None):
        self.calls.append(('xmax', sn, int(facet), dx_fraction))
        d = self.dx[:len(self.coords)]
        n = np.array([facet_normal[i] for i in range(len(d))])
        x = np.array([p[c] for c in self.coords])
        v = np.array([p['u' + c] for c in self.coords])
        x = x - 2 * (1 - dx_fraction) * n.dot(d) * n
        v = v - 2 * n.dot(v) * n
        for i, c in enumerate(self.coords):
            p[c] = x[i]
            p['u' + c] = v[i]


def control(dt=1.0, n=10):
    c = DTcontrol_C()
    c.title = 't'
    c.author = 'a'
    c.dt = dt
    c.n_timesteps = n
    c.time = 0.0
    c.timeloop_count = 0
    c.MAX_FACET_CROSS_COUNT = 100
    c.write_trajectory_files = False
    return c


def mesh(dims, cells, lo, hi, cpp=False):
    if dims == 'x':
        m = df.IntervalMesh(cells[0], lo[0], hi[0])
    elif dims == 'xy':
        m = df.RectangleMesh(df.Point(*lo), df.Point(*hi), *cells)
    else:
        m = df.BoxMesh(df.Point(*lo), df.Point(*hi), *cells)
    M = Mesh_C(Mesh=m, coordinate_system='Cartesian', compute_dictionaries=True, compute_cpp_arrays=cpp, compute_tree=True)
    mark = df.MeshFunction('size_t', m, m.topology().dim() - 1)
    mark.set_all(0)
    names = {}
    k = 1
    for a, c in enumerate(dims):
        for side, v in (('min', lo[a]), ('max', hi[a])):
            class S(df.SubDomain):
                def inside(self, x, on, a=a, v=v):
                    return on and abs(x[a] - v) < 1e-10
            S().mark(mark, k)
            names[c + side] = k
            k *= 2
    M.particle_boundary_marker = mark
    M.particle_boundary_dict = names
    return M


def particles(dims, species, cpp=False):
    """species: (name, charge, mass, dynamics)"""
    pin = ParticleInput_C()
    pin.precision = np.float64
    pin.particle_integration_loop = 'loop-on-particles'
    pin.coordinate_system = 'cartesian_' + dims
    pin.force_components = NAMES[dims]
    pin.force_precision = np.float64
    pin.use_cpp_integrators = cpp
    pin.particle_species = tuple(ParticleSpecies_C(*s) for s in species)
    return Particle_C(pin, print_flag=False)


def record(dims, x, v, weight=1.0, bits=0, cell=Mesh_C.NO_CELL, uid=0, x0=None):
    x0 = x if x0 is None else x0
    return tuple(x) + tuple(x0) + tuple(v) + (weight, bits, cell, uid, 0)


def sim(dims, cells, lo, hi, species, cpp=False, pcpp=False, bf=BF):
    P = particles(dims, species, pcpp)
    M = mesh(dims, cells, lo, hi, cpp)
    P.initialize_particle_mesh(M)
    P.initialize_particle_integration()
    if pcpp:
        import importlib
        so = importlib.import_module('user_particle_boundary_functions_cartesian_%s_solib' % dims)
        fns = so.UserParticleBoundaryFunctions(P.position_coordinates)
        P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(P.species_names, P.pmesh_M, fns, print_flag=False)
    else:
        fns = bf(P.position_coordinates, P.dx)
        P.pmesh_bcs = ParticleMeshBoundaryConditions_C(P.species_names, M, fns, print_flag=False)
    P.fns = fns
    return P


def load(P, sn, records):
    for r in records:
        P.sap_dict[sn].push_back(r)
    P.compute_mesh_cell_indices()


def dump(P, sn, names):
    """the chosen fields of every particle of a species"""
    sap = P.sap_dict[sn]
    out = []
    for i in range(sap.get_number_of_items()):
        q = sap.get_item(i)
        if isinstance(q, tuple):
            q = q[0][q[1]] if len(q) == 2 else q[0]
        out.append(tuple(q[k].item() if hasattr(q[k], 'item') else q[k] for k in names))
    return out
