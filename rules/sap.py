from .base import Cmp, Rule, Finding, unit, cppworld
from .common import SAP_HINTS, INOUT, POS, PT, fields

PYM = 'SegmentedArrayPair_Module'
PYC = 'SegmentedArrayPair_C'
IGN = ['*:npmax*']


def hints(**kw):
    h = dict(SAP_HINTS)
    h.update(kw)
    return h


def py(name, spec, **h):
    return Cmp('py.' + name, 'py', PYM, PYC + '.' + name, 'sap:SAP.' + spec, ignore=IGN, hints=hints(**h))


def cpp(name, spec, dims=('x', 'xy', 'xyz', 'r'), consts=None, tag='', qual=None, **h):
    out = []
    for d in dims:
        c = 'SegmentedArrayPair<%d>' % PT[d]
        out.append(Cmp('cpp.%s.%s%s' % (d, name, tag), 'cpp:sap', 'cpp_sap', c + '.' + (qual or name), 'sap:SAPcpp.' + spec.replace('$', d),
                       ignore=IGN, hints=hints(**h), fields=fields(d), rec_cls='Pstruct<%d>' % PT[d],
                       arg_consts=consts or {}, arg_tags={}, known={'__capsule__'}, effects={'__capsule__': dict(pure=True)}))
    return out


def index():
    o = [py('get_segment_and_offset', 'get_segment_and_offset', arg1='nonneg'), py('get_item', 'get_item', arg1='nonneg'),
         py('__getitem__', 'get_item', arg1='nonneg'), py('__setitem__', 'set_item', arg1='nonneg'),
         py('get_full_index', 'get_full_index', arg2=INOUT), py('get_full_indices', 'get_full_indices')]
    o += cpp('get_segment_and_offset', 'get_segment_and_offset', arg1='nonneg')
    o += cpp('get_item', 'get_item_$', arg1='nonneg')
    o += cpp('get_as_tuple', 'get_seq_$', arg1='nonneg') + cpp('get_as_list', 'get_seq_$', arg1='nonneg')
    o += cpp('get_full_index', 'get_full_index', arg2=INOUT) + cpp('get_full_indices', 'get_full_indices')
    return o


def growth():
    o = [py('__init__', 'init_py'), py('push_back', 'push_back')]
    o += cpp('__init__', 'init_cpp') + cpp('push_back', 'push_back_record')
    o += cpp('push_back', 'push_back_seq_$', tag='(tuple)', qual='push_back#py_tuple_') + cpp('push_back', 'push_back_seq_$', tag='(list)', qual='push_back#py_list_')
    return o


def counts():
    o = [py('get_number_of_items', 'get_number_of_items'), py('set_number_of_items', 'set_number_of_items', arg1=INOUT, arg2='nonneg'),
         py('get_number_of_segments', 'get_number_of_segments'), py('get_capacity', 'get_capacity'), py('get_number_of_mbytes', 'get_number_of_mbytes')]
    o += cpp('get_number_of_items', 'get_number_of_items') + cpp('set_number_of_items', 'set_number_of_items', arg1=INOUT, arg2='nonneg')
    o += cpp('get_number_of_segments', 'get_number_of_segments') + cpp('get_capacity', 'get_capacity')
    o += cpp('get_number_of_mbytes', 'get_number_of_mbytes_cpp')
    return o


def traversal():
    o = [py('init_out_loop', 'init_out_loop'), py('init_inout_loop', 'init_inout_loop'), py('get_next_segment', 'get_next_segment', arg1=INOUT),
         py('get_next_out_segment', 'get_next_out_segment'), py('get_current_out_segment', 'get_current_out_segment')]
    for p in (False, True):
        t = '(ptr=%s)' % p
        o += cpp('init_out_loop', 'init_out_loop', consts={1: p}, tag=t) + cpp('init_inout_loop', 'init_inout_loop', consts={1: p}, tag=t)
        o += cpp('get_next_segment', 'get_next_segment', consts={2: p}, tag=t, arg1=INOUT)
        o += cpp('get_next_out_segment', 'get_next_out_segment_cpp', consts={1: p}, tag=t)
    o += cpp('get_current_out_segment', 'get_current_out_segment')
    return o
