"""Supplied particle boundary functions; particle record conversions."""
from .base import Cmp, Rule, Finding

COORDS = {'x': ['x'], 'xy': ['x', 'y'], 'xyz': ['x', 'y', 'z'], 'r': ['r']}
PT = {'x': 0, 'xy': 1, 'xyz': 2, 'r': 3}


SCRATCH = {'elem:pcoord[]', 'elem:pvel[]', 'elem:pcoord', 'elem:pvel'}


def fields(d):
    c = COORDS[d]
    return c + [a + '0' for a in c] + ['u' + a for a in c] + ['weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings']


def py(module, name, spec, d, tag=''):
    cls = 'UserParticleBoundaryFunctions_C.'
    refl = spec == 'Functions.reflect'
    kw = dict(attr_consts=dict(position_coordinates=COORDS[d], particle_dimension=len(COORDS[d]))) if refl else {}
    return Cmp('py.%s.%s%s' % (module, name, tag), 'py', module, cls + name, 'bfuncs:' + spec, dot_dim=len(COORDS[d]), ignore_parts=SCRATCH if refl else set(), fields=fields(d),
               arg_tags={'p': 'recref'}, names={'__D__': len(COORDS[d]), '__COORDS__': COORDS[d]}, **kw)


def python():
    o = []
    for n in ('default_bc', 'default_bc_at_xmin', 'bc_at_xmin_for_neutral_H', 'default_bc_at_rmax', 'bc_at_rmin_for_neutral_H'):
        o.append(py('UserParticles_1D', n, 'absorb', 'x'))
    o.append(py('UserParticles_1D', '__init__', 'Functions.setup', 'x'))
    o.append(py('UserParticles_1D', 'default_bc_at_rmin', 'Functions.reflect', 'r'))
    for n in ('default_bc', 'default_bc_at_rmin'):
        o.append(py('UserParticles_2D_e', n, 'absorb', 'xy'))
    o.append(py('UserParticles_2D_e', '__init__', 'Functions.setup', 'xy'))
    o.append(py('UserParticles_2D_e', 'bc_at_rmin_for_test_electrons', 'Functions.reflect', 'xy'))
    for n in ('default_bc_at_xmin', 'default_bc_at_ymin', 'bc_at_xmin_for_neutral_H'):
        o.append(py('UserParticles_3D', n, 'absorb', 'xyz'))
    return o


def cpp(unit, d, qual, spec, fns=(), **kw):
    return Cmp('cpp.%s.%s' % (unit, qual), 'cpp:' + unit, 'cpp_' + unit, qual, 'bfuncs:' + spec, fields=fields(d), rec_cls='Pstruct<%d>' % PT[d], ignore_parts=SCRATCH,
               names={'__D__': len(COORDS[d]), '__COORDS__': COORDS[d], '__FUNCTIONS__': list(fns)}, **kw)


def native():
    o = []
    for u, d in (('upbf_x', 'x'), ('upbf_xy', 'xy'), ('upbf_xyz', 'xyz'), ('upbf_2De', 'xy'), ('upbf_r', 'r')):
        c = 'UserParticleBoundaryFunctions<%d>.' % PT[d]
        o.append(cpp(u, d, c + 'default_bc', 'Functions.cpp_absorb', arg_tags={'p': 'recref'}))
        o.append(cpp(u, d, c + 'default_bc_at_rmin', 'Functions.cpp_reflect' if u == 'upbf_r' else 'Functions.cpp_absorb', arg_tags={'p': 'recref'}))
        fns = ['default_bc', 'default_bc_at_rmin'] + ([] if u == 'upbf_r' else ['bc_at_rmin_for_test_electrons'])
        o.append(cpp(u, d, c + '__init__', 'Functions.table', fns=fns))
        if u != 'upbf_r':
            o.append(cpp(u, d, c + 'bc_at_rmin_for_test_electrons', 'Functions.cpp_reflect', arg_tags={'p': 'recref'}))
    return o


def records():
    o = []
    for d in PT:
        c = 'Pstruct<%d>.' % PT[d]
        u = 'part_' + d
        o.append(cpp(u, d, c + 'reflect_from_surface', 'Record.reflect', arg_tags={'self': 'recref'}))
        for n in ('as_tuple', 'as_list', 'as_dict'):
            o.append(cpp(u, d, c + n, 'Record_%s.%s' % (d, n), arg_tags={'self': 'recref'}))
        for n in (('set_from_list_or_tuple', 'set_from_list_or_tuple#py_list_') if d in ('x', 'r') else ('set_from_tuple', 'set_from_list_or_tuple')):
            o.append(cpp(u, d, c + n, 'Record_%s.set_from' % d, arg_tags={'self': 'recref'}))
    return o


def boundary_functions():
    return python() + native()
