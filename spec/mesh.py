"""Reference definitions: mesh entity tables, point location, facet search."""
import dolfin as df_m
import numpy as np_m


class Mesh:
    NO_CELL = -1
    NO_FACET = -1

    def cells(self):
        self.cell_dict = {c.index(): c for c in df_m.cells(self.mesh)}

    def entity_indices(self, entity_name):
        d = self.entity_dimension[entity_name]
        self.mesh.init(d, self.tdim)
        self.cell_entity_indices_dict[entity_name] = {c.index(): [int(i) for i in c.entities(d).tolist()] for c in df_m.cells(self.mesh)}

    def vertices(self):
        self.cell_vertices_dict = {c.index(): c.entities(0).tolist() for c in df_m.cells(self.mesh)}

    def neighbors(self):
        self.cell_neighbors_dict = {}
        self.mesh.init(self.tdim - 1, self.tdim)
        for c in df_m.cells(self.mesh):
            row = np_m.empty(self.tdim + 1, np_m.int32)
            k = 0
            for f in df_m.facets(c):
                others = [i for i in f.entities(self.tdim) if i != c.index()]
                if len(others) > 0:
                    row[k] = others[0]
                else:
                    row[k] = -1
                k = k + 1
            self.cell_neighbors_dict[c.index()] = row

    def vertex_cells(self):
        self.vertex_cells_dict = {v.index(): [c.index() for c in df_m.cells(v)] for v in df_m.vertices(self.mesh)}

    def normals(self):
        self.cell_facet_normals_dict = {}
        G = self.gdim
        for c in df_m.cells(self.mesh):
            rows = np_m.empty(shape=(G + 1, G), dtype=np_m.float64)
            n3 = self.facet_normal_3d
            for f in range(G + 1):
                n3[0] = c.normal(f).x()
                n3[1] = c.normal(f).y()
                n3[2] = c.normal(f).z()
                rows[f] = n3[0:G]
            self.cell_facet_normals_dict[c.index()] = rows

    def volumes(self):
        if self.coordinate_system == 'Cartesian':
            self.cell_volume_dict = {c.index(): c.volume() for c in df_m.cells(self.mesh)}
        elif self.coordinate_system == '1D-spherical-radial':
            for c in df_m.cells(self.mesh):
                x = c.get_vertex_coordinates()
                self.cell_volume_dict[c.index()] = (4.0 / 3.0) * np_m.pi * (x[1] ** 3 - x[0] ** 3)
        else:
            raise ValueError()

    def point(self, p):
        if self.gdim == 3:
            return df_m.Point(p[0], p[1], p[2])
        if self.gdim == 2:
            return df_m.Point(p[0], p[1])
        return df_m.Point(p[0])

    def cell_index(self, point):
        i = self.bbtree.compute_first_entity_collision(self.point(point))
        if i == 0xFFFFFFFF:
            raise RuntimeError()
        return i

    def inside(self, point, cell_index):
        c = self.cell_dict[cell_index]
        return c.contains(self.point(point))

    def find_facet(self, r0, dr, cell_index):
        G = self.gdim
        dx = self.dx
        x0 = self.x0
        dx[:] = dr[0:G]
        x0[:] = r0[0:G]
        best = -1
        frac = 1.0
        if np_m.dot(dx, dx) == 0.0:
            return best, frac, None
        v = np_m.array(self.cell_dict[cell_index].get_vertex_coordinates()).reshape((-1, G))
        n = self.cell_facet_normals_dict[cell_index]
        if G == 1:
            for f in range(2):
                s = n[f] * dx[0]
                if s > 0:
                    d = n[f] * (v[f] - x0[0])
                    if d < 0.0:
                        d = -d
                    if d < s:
                        return f, d / s, n[f]
            return best, frac, n[best]
        for f in range(G + 1):
            s = np_m.dot(n[f], dx)
            if s > 0:
                d = np_m.dot(n[f], v[(f + 1) % (G + 1)] - x0)
                if d < 0.0:
                    d = -d
                if d < frac * s:
                    best = f
                    frac = d / s
        if frac > 1.0 or frac < 0.0:
            raise RuntimeError()
        return best, frac, n[best]
