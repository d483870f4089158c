"""Reference definitions: finite-element fields, Poisson solver, cell sets."""
import dolfin as df_m
import numpy as np_m


class Field:
    def __init__(self, mesh_M, element_type, element_degree, field_type):
        self.mesh_M = mesh_M
        self.mesh_gdim = mesh_M.mesh.geometry().dim()
        self.mesh_tdim = mesh_M.mesh.topology().dim()
        if field_type == 'scalar':
            self.function_space = df_m.FunctionSpace(mesh_M.mesh, element_type, element_degree)
        elif field_type == 'vector':
            self.function_space = df_m.VectorFunctionSpace(mesh_M.mesh, element_type, element_degree)
        self.field_type = field_type
        self.function = df_m.Function(self.function_space)
        self.function_values = self.function.vector()
        self.function_len = len(self.function_values)
        self.scratch_array = np_m.empty(self.function_len, dtype=np_m.float64)
        self.element_type = element_type
        self.element_degree = element_degree

    def dofs(self, cell):
        return self.function_space.dofmap().cell_dofs(cell)

    def set_values(self, value, subdomain=None):
        if subdomain is None:
            self.function_values[:] = value
        else:
            self.function_values[:] = 0.0
            for i in range(subdomain.ncell):
                self.function_values[self.dofs(subdomain.cell_index[i])] = value

    def multiply_values(self, multiplier, gaussian=False, subdomain=None):
        if subdomain is None:
            if gaussian is True:
                r = self.scratch_array
                r[:] = np_m.random.normal(0.0, multiplier, self.function_len)
                self.function_values[:] *= r[:]
            else:
                self.function_values[:] *= multiplier
        else:
            s = set()
            for i in range(subdomain.ncell):
                s.update(self.dofs(subdomain.cell_index[i]))
            k = np_m.array(sorted(s), dtype=np_m.intc)
            if gaussian is True:
                self.function_values[k] *= np_m.random.normal(0.0, multiplier, len(k))
            else:
                self.function_values[k] *= multiplier

    def set_gaussian_values(self, standard_deviation, subdomain=None):
        if subdomain is None:
            self.function_values[:] = np_m.random.normal(0.0, standard_deviation, self.function_len)
        else:
            self.function_values[:] = 0.0
            n = subdomain.ncell
            r = self.scratch_array
            r[0:n] = np_m.random.normal(0.0, standard_deviation, n)
            for i in range(n):
                self.function_values[self.dofs(subdomain.cell_index[i])] = r[i]

    def multiply_add(self, field_to_add, multiplier=None):
        if multiplier is None:
            self.function_values[:] += field_to_add.function_values
        else:
            self.function_values[:] += multiplier * field_to_add.function_values

    def interpolate(self, points, out):
        n = len(out.dtype.fields)
        v = np_m.empty(n, dtype=out.dtype[0])
        for i in range(points.shape[0]):
            self.function([points[i][j] for j in range(self.mesh_gdim)], values=v)
            for j in range(n):
                out[i][j] = v[j]

    def interpolate_random(self, points, out):
        v = np_m.empty(len(out.dtype.fields), dtype=out.dtype[0])
        r = self.scratch_array
        for i in range(points.shape[0]):
            self.function([points[i][j] for j in range(self.mesh_gdim)], values=v)
            if np_m.linalg.norm(v) != 0.0:
                r[0] = np_m.random.normal(0.0, 1.0, 1)
                v *= r[0]
            for j in range(len(v)):
                out[i][j] = v[j]

    def integrate_delta(self, p):
        if self.mesh_gdim == 3:
            q = df_m.Point(p[0], p[1], p[2])
        elif self.mesh_gdim == 2:
            q = df_m.Point(p[0], p[1])
        else:
            q = df_m.Point(p[0])
        df_m.PointSource(self.function_space, q, p['weight']).apply(self.function_values)

    def delta_to_dofs(self, p):
        ci = p['cell_index']
        cell = df_m.Cell(self.mesh_M.mesh, ci)
        el = self.function_space.element()
        x = np_m.zeros(self.mesh_gdim, dtype=float)
        for j in range(self.mesh_gdim):
            x[j] = p[j]
        phi = el.evaluate_basis_all(x, cell.get_coordinate_dofs(), cell.orientation())
        self.function_values[self.dofs(ci)] += p['weight'] * phi

    def add_weight(self, p):
        self.function_values[self.dofs(p['cell_index'])] += p['weight']

    def divide_volumes(self):
        for c in df_m.cells(self.mesh_M.mesh):
            self.function_values[self.dofs(c.index())] /= self.mesh_M.cell_volume_dict[c.index()]


class Poisson:
    def setup(self, phi_F):
        self.V = phi_F.function_space
        self.u = phi_F.function
        self.v = df_m.TestFunction(self.V)
        self.w = df_m.TrialFunction(self.V)
        self.b = df_m.Vector(phi_F.mesh_M.mesh.mpi_comm(), phi_F.function_len)

    def matrix(self):
        self.A = df_m.assemble(self.a)
        for bc in self.bcs:
            bc.apply(self.A)

    def source(self, source_density):
        if source_density is None:
            s = df_m.Constant(0.0)
        elif isinstance(source_density, str):
            s = df_m.Expression(source_density, degree=self.V.ufl_element().degree())
        elif isinstance(source_density, float):
            s = df_m.Constant(source_density)
        elif isinstance(source_density, int):
            s = df_m.Constant(float(source_density))
        else:
            raise TypeError()
        self.b[:] = df_m.assemble(s * self.v * df_m.dx)
        for bc in self.bcs:
            bc.apply(self.b)

    def solve(self, assembled_charge=None, assembled_charge_factor=None, plot_flag=False, plot_title="solve_for_phi"):
        if self.pde_has_constant_coeffs is False:
            self.A = df_m.assemble(self.a)
            for bc in self.bcs:
                bc.apply(self.A)
        if assembled_charge is not None:
            if assembled_charge_factor is not None:
                assembled_charge.function_values[:] *= assembled_charge_factor
            self.b[:] = assembled_charge.function_values
            for bc in self.bcs:
                bc.apply(self.b)
        df_m.solve(self.A, self.u.vector(), self.b)
        if self.neg_electric_field is not None:
            self.compute_negE(plot_flag, plot_title)

    def negE(self, plot_flag=False, plot_title="compute_negE"):
        F = self.neg_electric_field
        F.function = df_m.project(df_m.grad(self.u), F.function_space)
        F.function_values = F.function.vector()
        return F.function


class Cells:
    def __init__(self, mesh_M, plot_flag=False):
        self.gdim = mesh_M.gdim
        if hasattr(self, 'inside'):
            self.cell_list = []
            for c in df_m.cells(mesh_M.mesh):
                if self.inside(c.midpoint()):
                    self.cell_list.append(c)
        else:
            self.cell_list = [c for c in df_m.cells(mesh_M.mesh)]
        n = len(self.cell_list)
        self.ncell = n
        if n == 0:
            raise RuntimeError()
        self.cell_index = np_m.empty(n, dtype=np_m.int32)
        self.midpoint = np_m.empty(shape=(n, self.gdim), dtype=np_m.float64)
        self.volume = np_m.empty(n, dtype=np_m.float64)
        self.radius = np_m.empty(n, dtype=np_m.float64)
        for i in range(n):
            c = self.cell_list[i]
            self.cell_index[i] = c.index()
            self.volume[i] = mesh_M.cell_volume_dict[c.index()]
            for j in range(self.gdim):
                self.midpoint[i][j] = c.midpoint()[j]
            self.radius[i] = c.circumradius()

    def in_cell(self, point, index):
        return self.cell_list[index].contains(df_m.Point(point))


class Box(Cells):
    def __init__(self, mesh_M, pmin, pmax, print_flag=False):
        self.gdim = mesh_M.gdim
        self.pmin = pmin
        self.pmax = pmax
        super(self.__class__, self).__init__(mesh_M, plot_flag=print_flag)

    def inside(self, x):
        tol = 1.0e-10
        if self.gdim == 3:
            ok = True
            for j in range(3):
                ok = ok and x[j] >= self.pmin[j] - tol and x[j] <= self.pmax[j] + tol
            return ok
        if self.gdim == 2:
            ok = True
            for j in range(2):
                ok = ok and x[j] >= self.pmin[j] - tol and x[j] <= self.pmax[j] + tol
            return ok
        return x[0] >= self.pmin - tol and x[0] <= self.pmax + tol


class Ball(Cells):
    def __init__(self, mesh_M, center, radius, plot_flag=False):
        self.center = center
        self.region_radius = radius
        super(self.__class__, self).__init__(mesh_M, plot_flag=plot_flag)

    def inside(self, x):
        tol = 1.0e-10
        return x[0] >= self.center - self.region_radius - tol and x[0] <= self.center + self.region_radius + tol
