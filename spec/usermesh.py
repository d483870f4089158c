"""Reference definitions: construction of a Mesh_C, the user meshes and their boundary markers, the user Poisson problems."""
import numpy as np_m
import dolfin as df_m
import matplotlib.pyplot as mplot_m
import mesh_entity_arrays_solib
from Dolfin_Module import Mesh_C
from Dolfin_Module import PoissonSolve_C
import UserUnits_Module as U_M


class MeshInit:
    def __init__(self, Mesh=None, mesh_to_copy=None, mesh_file=None, coordinate_system=None, field_boundary_marker_file=None, compute_dictionaries=False, compute_cpp_arrays=False,
                 compute_tree=False, plot_flag=False, plot_title='Mesh'):
        if Mesh is not None:
            self.mesh = Mesh
        elif mesh_to_copy is not None:
            self.mesh = df_m.Mesh(mesh_to_copy)
        elif mesh_file is not None:
            self.mesh = df_m.Mesh(mesh_file)
        if coordinate_system is None:
            raise ValueError()
        self.coordinate_system = coordinate_system
        m = self.mesh
        if m is not None:
            if plot_flag is True:
                df_m.plot(m, title=plot_title)
                mplot_m.show()
            if compute_tree is True:
                self.bbtree = m.bounding_box_tree()
            G = m.geometry().dim()
            T = m.topology().dim()
            self.gdim = G
            self.tdim = T
            self.dx = np_m.empty(G, np_m.float64)
            self.x0 = np_m.empty(G, np_m.float64)
            self.facet_normal_3d = np_m.empty(3, np_m.float64)
            self.cell_dict = {}
            self.cell_vertices_dict = {}
            self.entity_dimension = {'vertex': 0, 'edge': 1, 'facet': T - 1}
            self.cell_entity_indices_dict = {}
            self.vertex_cells_dict = {}
            self.cell_facet_normals_dict = None
            self.cell_neighbors_dict = None
            self.cell_volume_dict = {}
            if compute_dictionaries is True:
                self.compute_cell_dict()
                self.compute_cell_vertices_dict()
                self.compute_cell_entity_indices_dict('facet')
                self.compute_vertex_cells_dict()
                self.compute_cell_facet_normals_dict()
                self.compute_cell_neighbors_dict()
                self.compute_cell_volume_dict()
            if compute_cpp_arrays is True:
                self.arrays(m)
            if field_boundary_marker_file is not None:
                f = df_m.File(field_boundary_marker_file)
                mark = df_m.MeshFunction('size_t', m, m.topology().dim() - 1)
                f >> mark
                self.field_boundary_marker = mark

    def arrays(self, m):
        make = getattr(mesh_entity_arrays_solib, 'MeshEntityArrays_' + str(m.topology().dim() + 1) + '_facets')
        self.mea_object = make(m, compute_particle_mesh_maps=True)

    def cpp_arrays(self):
        self.arrays(self.mesh)


def facet_marker(m):
    f = df_m.MeshFunction('size_t', m, m.topology().dim() - 1)
    f.set_all(0)
    return f


class XB(df_m.SubDomain):
    def __init__(self, value, map_tol=1.0e-10):
        self.x_boundary_value = value
        super(self.__class__, self).__init__(map_tol=1.0e-10)

    def inside(self, x, on_boundary):
        return on_boundary and abs(x[0] - self.x_boundary_value) < 1.0e-10


class YB(df_m.SubDomain):
    def __init__(self, value, map_tol=1.0e-10):
        self.y_boundary_value = value
        super(self.__class__, self).__init__(map_tol=1.0e-10)

    def inside(self, x, on_boundary):
        return on_boundary and abs(x[1] - self.y_boundary_value) < 1.0e-10


class SX(df_m.SubDomain):
    def __init__(self, lo, hi, map_tol=1.0e-10):
        self.x_min_value = lo
        self.x_max_value = hi
        super(self.__class__, self).__init__(map_tol=1.0e-10)

    def inside(self, x, on_boundary):
        return x[0] > self.x_min_value - 1.0e-10 and x[0] < self.x_max_value + 1.0e-10


class AllF(df_m.SubDomain):
    def inside(self, x, on_boundary):
        return on_boundary


class XYZ(MeshInit):
    def __init__(self, mesh_input, compute_dictionaries=False, compute_cpp_arrays=False, compute_tree=False, plot_flag=False, plot_title=None):
        self.create_mesh(mesh_input, plot_flag=plot_flag, plot_title=plot_title)
        super(self.__class__, self).__init__(mesh_file=None, coordinate_system='Cartesian', compute_dictionaries=compute_dictionaries, compute_cpp_arrays=compute_cpp_arrays, compute_tree=compute_tree)
        self.field_boundary_dict = mesh_input.field_boundary_dict
        self.particle_boundary_dict = mesh_input.particle_boundary_dict

    def create(self, mesh_input, plot_flag=False, plot_title=None):
        lo = mesh_input.pmin
        hi = mesh_input.pmax
        field = mesh_input.field_boundary_dict
        particle = mesh_input.particle_boundary_dict
        title = plot_title
        fmark = None
        pmark = None
        if lo.y() == hi.y() and lo.z() == hi.z():
            (nx,) = mesh_input.cells_on_side
            m = df_m.IntervalMesh(nx, lo.x(), hi.x())
            if plot_title is None:
                title = 'X-mesh'
            name = 'X-mesh.pvd'
            if field is not None:
                fmark = facet_marker(m)
                a = XBoundary_C(lo.x())
                b = XBoundary_C(hi.x())
                a.mark(fmark, field['xmin'])
                b.mark(fmark, field['xmax'])
            if particle is not None:
                pmark = facet_marker(m)
        elif lo.z() == hi.z():
            (nx, ny) = mesh_input.cells_on_side
            if mesh_input.diagonal is not None:
                m = df_m.RectangleMesh(lo, hi, nx, ny, mesh_input.diagonal)
            else:
                m = df_m.RectangleMesh(lo, hi, nx, ny)
            if plot_title is None:
                title = 'XY-mesh'
            name = 'XY-mesh.pvd'
            if field is not None:
                raise SystemExit()
            if particle is not None:
                pmark = facet_marker(m)
                a = XBoundary_C(lo.x())
                b = XBoundary_C(hi.x())
                c = YBoundary_C(lo.y())
                d = YBoundary_C(hi.y())
                a.mark(pmark, particle['xmin'])
                b.mark(pmark, particle['xmax'])
                c.mark(pmark, particle['ymin'])
                d.mark(pmark, particle['ymax'])
            if mesh_input.particle_source_dict is not None:
                raise SystemExit()
        else:
            (nx, ny, nz) = mesh_input.cells_on_side
            m = df_m.BoxMesh(lo, hi, nx, ny, nz)
            if plot_title is None:
                title = 'XYZ-mesh'
            name = 'XYZ-mesh.pvd'
            if field is not None:
                raise SystemExit()
            if particle is not None:
                pmark = facet_marker(m)
            if mesh_input.particle_source_dict is not None:
                raise SystemExit()
        if plot_flag:
            df_m.plot(m, title=title)
            mplot_m.show()
        f = df_m.File(name)
        f << m
        self.mesh = m
        self.field_boundary_marker = fmark
        self.particle_boundary_marker = pmark
        self.particle_source_marker = None


class Circ(MeshInit):
    def __init__(self, mesh_input, compute_dictionaries=False, compute_cpp_arrays=False, compute_tree=False, plot_flag=False, plot_title=None):
        if mesh_input.mesh_file is None:
            self.create_mesh(mesh_input, plot_flag=plot_flag, plot_title=plot_title)
        super(self.__class__, self).__init__(mesh_file=mesh_input.mesh_file, coordinate_system='Cartesian', compute_dictionaries=compute_dictionaries, compute_cpp_arrays=compute_cpp_arrays, compute_tree=compute_tree)
        self.field_boundary_dict = mesh_input.field_boundary_dict
        self.particle_boundary_dict = mesh_input.particle_boundary_dict
        if mesh_input.field_boundary_file is not None:
            self.field_boundary_marker = df_m.MeshFunction('size_t', self.mesh, mesh_input.field_boundary_file)
        if mesh_input.particle_boundary_file is not None:
            self.particle_boundary_marker = df_m.MeshFunction('size_t', self.mesh, mesh_input.particle_boundary_file)

    def create(self, mesh_input, plot_flag=False, plot_title=None):
        r0 = mesh_input.rmin
        r1 = mesh_input.rmax
        m = df_m.RectangleMesh(df_m.Point(r0, 0.0), df_m.Point(r1, 1.0), mesh_input.nr, mesh_input.nt, mesh_input.diagonal)
        field = mesh_input.field_boundary_dict
        particle = mesh_input.particle_boundary_dict
        fmark = None
        if field is not None:
            fmark = facet_marker(m)
            a = XBoundary(r0)
            b = XBoundary(r1)
            a.mark(fmark, field['rmin'])
            b.mark(fmark, field['rmax'])
        pmark = facet_marker(m)
        if particle is not None:
            a = XBoundary(r0)
            b = XBoundary(r1)
            c = YBoundary(0.0)
            d = YBoundary(1.0)
            a.mark(pmark, particle['rmin'])
            b.mark(pmark, particle['rmax'])
            c.mark(pmark, particle['thmin'])
            d.mark(pmark, particle['thmax'])
        x = m.coordinates()[:, 0]
        y = m.coordinates()[:, 1]
        r = r0 + (r1 - r0) * ((x - r0) / (r1 - r0)) ** mesh_input.stretch
        m.coordinates()[:] = np_m.array([r, y]).transpose()
        m.coordinates()[:] = np_m.array([r * np_m.cos(mesh_input.tmax * y), r * np_m.sin(mesh_input.tmax * y)]).transpose()
        if plot_flag:
            df_m.plot(m, title=plot_title)
            mplot_m.show()
        self.mesh = m
        self.field_boundary_marker = fmark
        self.particle_boundary_marker = pmark


class Radial(MeshInit):
    def __init__(self, mesh_input, compute_dictionaries=False, compute_cpp_arrays=False, compute_tree=False, plot_flag=False, plot_title=None):
        if mesh_input.mesh_file is None:
            self.create_mesh(mesh_input, plot_flag=plot_flag, plot_title=plot_title)
        super(self.__class__, self).__init__(mesh_file=mesh_input.mesh_file, coordinate_system='1D-spherical-radial', compute_dictionaries=compute_dictionaries, compute_cpp_arrays=compute_cpp_arrays, compute_tree=compute_tree)
        self.field_boundary_dict = mesh_input.field_boundary_dict
        self.particle_boundary_dict = mesh_input.particle_boundary_dict
        if mesh_input.field_boundary_file is not None:
            self.field_boundary_marker = df_m.MeshFunction('size_t', self.mesh, mesh_input.field_boundary_file)
        if mesh_input.particle_boundary_file is not None:
            self.particle_boundary_marker = df_m.MeshFunction('size_t', self.mesh, mesh_input.particle_boundary_file)

    def create(self, mesh_input, plot_flag=False, plot_title=None):
        m = df_m.UnitIntervalMesh(mesh_input.nr)
        field = mesh_input.field_boundary_dict
        particle = mesh_input.particle_boundary_dict
        fmark = None
        pmark = None
        if field is not None:
            fmark = facet_marker(m)
            a = XBoundary(0.0)
            b = XBoundary(1.0)
            a.mark(fmark, field['rmin'])
            b.mark(fmark, field['rmax'])
        facet_marker(m)
        if particle is not None:
            pmark = facet_marker(m)
            a = XBoundary(0.0)
            b = XBoundary(1.0)
            a.mark(pmark, particle['rmin'])
            b.mark(pmark, particle['rmax'])
        x = m.coordinates()[:, 0]
        m.coordinates()[:, 0] = mesh_input.rmin + (mesh_input.rmax - mesh_input.rmin) * x ** mesh_input.stretch
        if plot_flag:
            df_m.plot(m, title=plot_title + ' mesh')
            mplot_m.show()
        self.mesh = m
        self.field_boundary_marker = fmark
        self.particle_boundary_marker = pmark


class Poisson:
    def base(self, phi_F):
        self.V = phi_F.function_space
        self.u = phi_F.function
        self.v = df_m.TestFunction(self.V)
        self.w = df_m.TrialFunction(self.V)
        self.b = df_m.Vector(phi_F.mesh_M.mesh.mpi_comm(), phi_F.function_len)

    def setup(self, phi_F, linear_solver, preconditioner, E):
        self.base(phi_F)
        self.solver_parameters = {}
        if linear_solver is not None:
            self.solver_parameters['linear_solver'] = linear_solver
        if preconditioner is not None:
            self.solver_parameters['preconditioner'] = preconditioner
        self.neg_electric_field = E

    def finish(self):
        self.pde_has_constant_coeffs = True
        self.assemble_matrix()
        self.assemble_source_expression(0.0)

    def eps(self):
        return df_m.Constant(U_M.MyPlasmaUnits_C.epsilon_0)

    def condition(self, marker, bc):
        return df_m.DirichletBC(self.V, df_m.Constant(bc[1]), marker, bc[0])

    def x(self, phi_F, linear_solver, preconditioner, field_boundary_marker, phi_BCs, neg_electric_field=None):
        self.setup(phi_F, linear_solver, preconditioner, neg_electric_field)
        self.bcs = [self.condition(field_boundary_marker, phi_BCs['xmin']), self.condition(field_boundary_marker, phi_BCs['xmax'])]
        self.a = self.eps() * df_m.inner(df_m.nabla_grad(self.w), df_m.nabla_grad(self.v)) * df_m.dx
        self.finish()
        df_m.set_log_level(df_m.LogLevel.PROGRESS)

    def circ(self, phi_F, linear_solver, preconditioner, field_boundary_marker, phi_BCs, neg_electric_field=None):
        self.setup(phi_F, linear_solver, preconditioner, neg_electric_field)
        self.bcs = [self.condition(field_boundary_marker, phi_BCs['rmin']), self.condition(field_boundary_marker, phi_BCs['rmax'])]
        self.a = self.eps() * df_m.inner(df_m.grad(self.w), df_m.grad(self.v)) * df_m.dx
        self.finish()
        df_m.set_log_level(df_m.LogLevel.PROGRESS)

    def radial(self, phi_F, linear_solver, preconditioner, field_boundary_marker, phi_BCs, neg_electric_field=None):
        self.setup(phi_F, linear_solver, preconditioner, neg_electric_field)
        outer = self.condition(field_boundary_marker, phi_BCs['rmax'])
        if phi_BCs['rmin'][1] == 'unset':
            self.bcs = [outer]
        else:
            self.bcs = [self.condition(field_boundary_marker, phi_BCs['rmin']), outer]
        r = df_m.SpatialCoordinate(self.V.mesh())
        self.a = self.eps() * df_m.inner(df_m.nabla_grad(self.w), df_m.nabla_grad(self.v)) * r[0] ** 2 * df_m.dx
        self.finish()
