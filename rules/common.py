"""Shared tables: record layouts, dimensions, symbol domains."""
POS = {'x': ('x',), 'xy': ('x', 'y'), 'xyz': ('x', 'y', 'z'), 'r': ('r',)}
PT = {'x': 0, 'xy': 1, 'xyz': 2, 'r': 3}
REST = ('weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')


def fields(d):
    p = POS[d]
    return list(p) + [c + '0' for c in p] + ['u' + c for c in p] + list(REST)


# symbol domains for the segmented array pair: reachable states only
# (L >= 1, 0 <= offset <= L, in and out distinct, every full-index segment allocated)
def _L(seed, r):
    return 1 + seed % 4


SAP_HINTS = {
    'segment_length': _L,
    'first_available_offset[]': lambda seed, r: r % (_L(seed, 0) + 1),
    'first_not_full_segment[]': lambda seed, r: r % 3,
    'nseg[]': lambda seed, r: 3 + r % 2,
    'current_segment[]': lambda seed, r: r % 4,
    'in_segmented_array': lambda seed, r: (seed >> 7) % 2,
    'out_segmented_array': lambda seed, r: 1 - (seed >> 7) % 2,
    'swapPair': [True],
}
INOUT = ['in', 'out']
