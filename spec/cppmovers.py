"""Reference definitions of the C++ movers; p is the Python Particle_C object. Segments come as pointers, fields as
plain (point, component) arrays; __POS__ is the list of coordinate names."""


def advance(kind, p, sn, ctrl, negE_field, accel_only):
    sap = p.sap_dict[sn]
    xs = __POS__
    L = sap.get_segment_length()
    t3 = sap.init_inout_loop(True)
    n = t3[0]
    src = t3[1]
    dst = t3[2]
    total = 0
    k = 0
    moved = False
    E = None
    while src != None:
        if kind == 'charged':
            on = ctrl.apply_solved_electric_field is None
            if negE_field != None and (on or ctrl.apply_solved_electric_field[sn] == True):
                interpolate_field_to_points(negE_field, src, n, p.negE)
                E = p.negE
                m = E.shape(1)
                for a in range(n):
                    for b in range(m):
                        E[a, b] = -E[a, b]
            if E == None:
                E = p.zeroE
        for i in range(n):
            if kind == 'neutral' and (src[i]['bitflags'] & 1) != 0:
                moved = True
                continue
            if k == L:
                dst = sap.get_next_out_segment(True)[0]
                k = 0
                if COUNT == 2:
                    total = total + 1
            __reccopy__(__recref__(dst, k), __recref__(src, i))
            if kind == 'charged':
                for j in range(len(xs)):
                    dst[k]['u' + xs[j]] = src[i]['u' + xs[j]] + p.qom[sn] * ctrl.dt * E[i, j]
            if not accel_only:
                for c in xs:
                    dst[k][c + '0'] = dst[k][c]
                    dst[k][c] = dst[k][c] + ctrl.dt * dst[k]['u' + c]
            dst[k]['crossings'] = track(kind, p, sn, ctrl, sap, dst, k, i, E)
            if (dst[k]['bitflags'] & 1) != 0:
                moved = True
                if not (p.traj_T is None) and (src[i]['bitflags'] & 2) != 0:
                    p.remove_trajectory_particleId(sn, i, k, ctrl.timeloop_count, ctrl.time, ctrl.dt)
            else:
                if not (p.traj_T is None) and (dst[k]['bitflags'] & 2) != 0 and moved:
                    p.update_trajectory_particleId(sn, i, k)
                k = k + 1
                if COUNT == 1:
                    total = total + 1
            if COUNT == 0 and k == L:
                total = total + L
        t2 = sap.get_next_segment('in', True)
        n = t2[0]
        src = t2[1] if n > 0 else None
    if COUNT == 0 and k != L:
        total = total + k
    if COUNT == 2:
        total = total * L + k
    sap.set_number_of_items('out', total)


def locate(p, dst, k, cell):
    __G__.pcellPtr = Cell(p.pmesh_M.mesh, cell)
    xs = __POS__
    for j in range(len(xs)):
        __G__.particlePosition[j] = dst[k][xs[j]]
    return __G__.pcellPtr.entities(0)


def track(kind, p, sn, ctrl, sap, dst, k, i, E):
    m = p.pmesh_M
    xs = __POS__
    d = len(xs)
    cell = dst[k]['cell_index']
    last = m.NO_FACET
    count = 0
    t = ctrl.time - ctrl.dt
    rest = ctrl.dt
    verts = locate(p, dst, k, cell)
    while not is_inside_vertices(m.mesh, verts, __G__.particlePosition):
        count = count + 1
        if count > ctrl.MAX_FACET_CROSS_COUNT:
            exit(1)
        for j in range(d):
            __G__.pCoord2[j] = dst[k][xs[j]]
        for j in range(d):
            __G__.pCoord2[d + j] = dst[k][xs[j] + '0']
        for j in range(d):
            __G__.dx[j] = __G__.pCoord2[j] - __G__.pCoord2[d + j]
        hit = find_facet(m, __G__.pCoord2[d:], __G__.dx, cell, False)
        f = hit[0]
        s = hit[1]
        normal = hit[2]
        if f == m.NO_FACET:
            exit(1)
        t = t + s * rest
        rest = rest - s * rest
        for j in range(d):
            dst[k][xs[j] + '0'] = dst[k][xs[j] + '0'] + s * __G__.dx[j]
        facet = __G__.pcellPtr.entities(m.mesh.topology().dim() - 1)[f]
        if facet == last:
            exit(1)
        last = facet
        mark = m.particle_boundary_marker[facet]
        if mark != 0:
            if (dst[k]['bitflags'] & 2) != 0:
                full = sap.get_full_index(i, 'in')
                if kind == 'charged':
                    for j in range(d):
                        p.E1_comps[0, j] = E[i, j]
                    for j in range(d):
                        p.Eext1_comps[0, j] = p.Eext[i, j]
                    p.record_trajectory_datum(sn, k, full, ctrl.timeloop_count, t, E_field_comps=p.E1_comps, external_E_field_comps=p.Eext1_comps, facet_crossing=True)
                else:
                    p.record_trajectory_datum(sn, k, full, ctrl.timeloop_count, t, facet_crossing=True)
            __dyn__(p.pmesh_bcs.bc_function_dict[mark, sn])(dst[k], sn, facet, __G__.dx, s, normal)
        nb = m.mea_object.get_cell_neighbors(cell)[f]
        if nb == m.NO_CELL:
            if (dst[k]['bitflags'] & 1) == 1:
                dst[k]['cell_index'] = m.NO_CELL
                return count
        else:
            dst[k]['cell_index'] = nb
            cell = nb
        verts = locate(p, dst, k, cell)
    return count


def charged(p, sn, ctrl, neg_E_field, external_E_field, accel_only):
    advance('charged', p, sn, ctrl, neg_E_field, accel_only)


def neutral(p, sn, ctrl):
    advance('neutral', p, sn, ctrl, None, False)


def uniform(p, sn, ctrl):
    sap = p.sap_dict[sn]
    kick = p.qom[sn] * ctrl.dt
    L = sap.get_segment_length()
    t3 = sap.init_inout_loop(True)
    n = t3[0]
    src = t3[1]
    dst = t3[2]
    total = 0
    k = 0
    while src != None:
        for i in range(n):
            if k == L:
                dst = sap.get_next_out_segment(True)[0]
                k = 0
                if COUNT == 2:
                    total = total + 1
            __reccopy__(__recref__(dst, k), __recref__(src, i))
            dst[k]['ux'] = src[i]['ux'] + kick * ctrl.E0.x
            dst[k]['uy'] = src[i]['uy'] + kick * ctrl.E0.y
            dst[k]['uz'] = src[i]['uz'] + kick * ctrl.E0.z
            dst[k]['x0'] = src[i]['x']
            dst[k]['y0'] = src[i]['y']
            dst[k]['z0'] = src[i]['z']
            dst[k]['x'] = src[i]['x'] + ctrl.dt * dst[k]['ux']
            dst[k]['y'] = src[i]['y'] + ctrl.dt * dst[k]['uy']
            dst[k]['z'] = src[i]['z'] + ctrl.dt * dst[k]['uz']
            k = k + 1
            if COUNT == 1:
                total = total + 1
            if COUNT == 0 and k == L:
                total = total + L
        t2 = sap.get_next_segment('in', True)
        n = t2[0]
        src = t2[1] if n > 0 else None
    if COUNT == 0 and k != L:
        total = total + k
    if COUNT == 2:
        total = total * L + k
    sap.set_number_of_items('out', total)
