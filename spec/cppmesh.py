"""Reference definitions of the C++ mesh helpers (find_facet, point-in-cell test, mesh entity arrays)."""


def find_facet(M, x0, dx, cell_index, returnStdArray=False):
    G = M.mesh.geometry().dim()
    sq = 0.0
    for j in range(G):
        sq = sq + dx[j] * dx[j]
    if sq == 0.0:
        return (-1, 1.0, None)
    cell = Cell(M.mesh, cell_index)
    cell.get_vertex_coordinates(__G__.vertex_coords)
    v = __G__.vertex_coords
    n = M.mea_object.get_cell_facet_normals(cell_index)
    best = -1
    frac = 1.0
    if G == 1:
        for f in range(2):
            s = n[3 * f] * dx[0]
            if s > 0:
                d = n[3 * f] * (v[f] - x0[0])
                if d < 0.0:
                    d = -d
                if d < s:
                    frac = d / s
                    if returnStdArray == True:
                        return (f, frac, n[3 * f:])
                    return (f, frac, array_t(1, n[3 * f:]))
        return (-1, 1.0, None)
    for f in range(G + 1):
        w = (f + 1) % (G + 1)
        s = 0.0
        d = 0.0
        for j in range(G):
            s = s + n[3 * f + j] * dx[j]
            d = d + n[3 * f + j] * (v[w * G + j] - x0[j])
        if s > 0:
            if d < 0.0:
                d = -d
            if d < frac * s:
                best = f
                frac = d / s
    if frac > 1.0 or frac < 0.0:
        raise RuntimeError()
    if best == -1:
        return (best, frac, None)
    if returnStdArray == True:
        return (best, frac, n[3 * best:])
    return (best, frac, array_t(G, n[3 * best:]))


def between(a, b, x):
    if a > b:
        return b <= x and x <= a
    return a <= x and x <= b


def inside(mesh, vertices, point):
    T = mesh.topology().dim()
    G = mesh.geometry().dim()
    if T != G:
        return False
    X = mesh.coordinates()
    if G == 1:
        a = X[vertices[0]]
        b = X[vertices[1]]
        if a > b:
            t = a
            a = b
            b = t
        return a <= point[0] and point[0] <= b
    if G == 2:
        p = X[vertices[0] * 2:]
        q = X[vertices[1] * 2:]
        r = X[vertices[2] * 2:]
        area = _orient2d(p, q, r)
        u = _orient2d(q, r, point)
        v = _orient2d(r, p, point)
        w = _orient2d(p, q, point)
        if area > 0.0:
            return u >= 0.0 and v >= 0.0 and w >= 0.0
        if area < 0.0:
            return u <= 0.0 and v <= 0.0 and w <= 0.0
        if w == 0.0 and _collides_segment_point_1d(p[0], q[0], point[0]) and _collides_segment_point_1d(p[1], q[1], point[1]):
            return True
        if u == 0.0 and _collides_segment_point_1d(q[0], r[0], point[0]) and _collides_segment_point_1d(q[1], r[1], point[1]):
            return True
        return v == 0.0 and _collides_segment_point_1d(r[0], p[0], point[0]) and _collides_segment_point_1d(r[1], p[1], point[1])
    if G == 3:
        p = X[vertices[0] * 3:]
        q = X[vertices[1] * 3:]
        r = X[vertices[2] * 3:]
        s = X[vertices[3] * 3:]
        vol = _orient3d(p, q, r, s)
        a = _orient3d(p, q, r, point)
        b = _orient3d(p, s, q, point)
        c = _orient3d(p, r, s, point)
        d = _orient3d(q, s, r, point)
        if vol > 0.0:
            return a >= 0.0 and b >= 0.0 and c >= 0.0 and d >= 0.0
        if vol < 0.0:
            return a <= 0.0 and b <= 0.0 and c <= 0.0 and d <= 0.0
        raise RuntimeError()
    return False


def interpolate(field, points, npoints, out):
    V = field.function_space()
    D = V.dofmap()
    for i in range(npoints):
        dofs = D.cell_dofs(__recref__(points, i)['cell_index'])
        field.vector().get_local(out[i, 0], len(dofs), dofs)


class Mea:
    def neighbors(self):
        T = self._mesh.topology().dim()
        self._mesh.init(T - 1, T)
        self.cell_neighbors_array.resize(__G__.extents[self._mesh.num_cells()][__N__])
        for c in __entities__('Cell', self._mesh):
            row = self.cell_neighbors_array[c.index()]
            k = 0
            for f in __entities__('Facet', c):
                if f.num_entities(T) == 2:
                    e = f.entities(T)
                    if e[0] == c.index():
                        row[k] = e[1]
                    else:
                        row[k] = e[0]
                else:
                    row[k] = -1
                k = k + 1
        self.cell_neighbors_array_initialized = True

    def get_neighbors(self, cell_index):
        r = __new__('std::array')
        if not self.cell_neighbors_array_initialized:
            raise RuntimeError()
        for f in range(__N__):
            r[f] = self.cell_neighbors_array[cell_index][f]
        return r

    def normals(self):
        self.cell_facet_normals_array.resize(self._mesh.num_cells())
        for c in __entities__('Cell', self._mesh):
            r = __new__('std::array')
            for f in range(__N__):
                r[3 * f] = c.normal(f).x()
                r[3 * f + 1] = c.normal(f).y()
                r[3 * f + 2] = c.normal(f).z()
            self.cell_facet_normals_array[c.index()] = r
        self.cell_facet_normals_array_initialized = True

    def get_normals(self, cell_index):
        if not self.cell_facet_normals_array_initialized:
            raise RuntimeError()
        return self.cell_facet_normals_array[cell_index]

    def __init__(self, mesh, field_maps, particle_maps):
        self._mesh = mesh
        self.cell_neighbors_array = __new__('boost::multi_array')
        self.cell_neighbors_array_initialized = False
        self.cell_facet_normals_array_initialized = False
        if particle_maps == True:
            self.compute_cell_neighbors_array()
            self.compute_cell_facet_normals_array()


def orient2d(a, b, c):
    l = (a[0] - c[0]) * (b[1] - c[1])
    r = (a[1] - c[1]) * (b[0] - c[0])
    det = l - r
    if l == 0.0 or (l > 0.0 and r <= 0.0) or (l < 0.0 and r >= 0.0):
        return det
    size = l + r if l > 0.0 else -l - r
    e = __G__.ccwerrboundA * size
    if det >= e or -det >= e:
        return det
    return orient2dadapt(a, b, c, size)


def absol(x):
    return x if x >= 0.0 else -x


def orient3d(a, b, c, d):
    ax = a[0] - d[0]
    ay = a[1] - d[1]
    az = a[2] - d[2]
    bx = b[0] - d[0]
    by = b[1] - d[1]
    bz = b[2] - d[2]
    cx = c[0] - d[0]
    cy = c[1] - d[1]
    cz = c[2] - d[2]
    det = az * (bx * cy - cx * by) + bz * (cx * ay - ax * cy) + cz * (ax * by - bx * ay)
    size = (absol(bx * cy) + absol(cx * by)) * absol(az) + (absol(cx * ay) + absol(ax * cy)) * absol(bz) + (absol(ax * by) + absol(bx * ay)) * absol(cz)
    e = __G__.o3derrboundA * size
    if det > e or -det > e:
        return det
    return orient3dadapt(a, b, c, d, size)


def bind_find_facet(mesh_M, x0, dx, cell_index, returnStdArray=False):
    a = __new__('array')
    b = __new__('array')
    for i in range(len(x0)):
        a[i] = x0[i]
        b[i] = dx[i]
    return find_facet(mesh_M, a, b, cell_index, returnStdArray)


def bind_inside(mesh, vertices, point):
    v = __new__('array')
    for i in range(len(vertices)):
        v[i] = vertices[i]
    p = __new__('array')
    for i in range(len(point)):
        p[i] = point[i]
    return is_inside_vertices(mesh, v, p)


def bind_interpolate(field_F, points, npoints, field_at_points):
    interpolate_field_to_points(field_F.function._cpp_object, points, npoints, field_at_points)
