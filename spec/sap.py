"""Reference definitions for the segmented array pair.

Two arrays of fixed-length segments; one is "in", the other "out".  The items of an array a are
    i = 0 .. first_not_full_segment[a]*L + first_available_offset[a] - 1,
item i being at offset i % L of segment i // L.
"""
import numpy as np_m


class SAP:
    def pick(self, which):
        return self.in_segmented_array if which == 'in' else self.out_segmented_array

    # ---- index arithmetic -------------------------------------------------------------
    def get_segment_and_offset(self, i):
        return (self.seg_list_pair[self.out_segmented_array][i // self.segment_length], i % self.segment_length)

    def get_item(self, i):
        return self.seg_list_pair[self.out_segmented_array][i // self.segment_length][i % self.segment_length]

    def set_item(self, i, value):
        self.seg_list_pair[self.out_segmented_array][i // self.segment_length][i % self.segment_length] = value

    def cpp_item(self, i):
        return __recref__(self.seg_list_pair[self.out_segmented_array][i // self.segment_length], i % self.segment_length)

    def get_full_index(self, indx, which):
        return self.current_segment[self.pick(which)] * self.segment_length + indx

    def get_full_indices(self, i_in, i_out):
        return (self.get_full_index(i_in, 'in'), self.get_full_index(i_out, 'out'))

    # ---- counts -------------------------------------------------------------------------
    def get_number_of_items(self):
        o = self.out_segmented_array
        return self.first_not_full_segment[o] * self.segment_length + self.first_available_offset[o]

    def set_number_of_items(self, which, n):
        a = self.pick(which)
        if n == 0:
            self.first_not_full_segment[a] = 0
            self.first_available_offset[a] = 0
        else:
            # the last item is item n-1
            self.first_not_full_segment[a] = (n - 1) // self.segment_length
            self.first_available_offset[a] = (n - 1) % self.segment_length + 1

    def get_number_of_segments(self):
        return (self.nseg[self.in_segmented_array], self.nseg[self.out_segmented_array])

    def get_capacity(self):
        return (self.nseg[self.in_segmented_array] * self.segment_length, self.nseg[self.out_segmented_array] * self.segment_length)

    def get_number_of_mbytes(self):
        i = self.in_segmented_array
        o = self.out_segmented_array
        return (self.nseg[i] * self.seg_list_pair[i][0].nbytes / 1000000.0, self.nseg[o] * self.seg_list_pair[o][0].nbytes / 1000000.0)

    def get_number_of_mbytes_cpp(self):
        i = self.in_segmented_array
        o = self.out_segmented_array
        b = self.seg_list_pair[o][0].itemsize * self.seg_list_pair[o][0].size
        return (self.nseg[i] * b / 1000000.0, self.nseg[o] * b / 1000000.0)

    # ---- construction / growth -----------------------------------------------------------
    def init_py(self, segment_length, item_dtype):
        self.segment_length = segment_length
        self.item_dtype = item_dtype
        self.seg_list_pair = [[np_m.empty(segment_length, dtype=item_dtype)], [np_m.empty(segment_length, dtype=item_dtype)]]
        self.nseg = [1, 1]
        self.first_not_full_segment = [0, 0]
        self.first_available_offset = [0, 0]
        self.current_segment = [0, 0]
        self.in_segmented_array = 1
        self.out_segmented_array = 0

    def new_segment(self):
        return np_m.empty(self.segment_length, dtype=self.item_dtype)

    def add_segment(self, a):
        self.nseg[a] = self.nseg[a] + 1
        self.seg_list_pair[a].append(self.new_segment())
        self.first_not_full_segment[a] = self.first_not_full_segment[a] + 1
        self.first_available_offset[a] = 0

    def room(self):
        """make sure there is room for one more item of the out array"""
        o = self.out_segmented_array
        if self.first_available_offset[o] == self.segment_length:
            nxt = self.first_not_full_segment[o] + 1
            self.current_segment[o] = nxt
            if nxt < self.nseg[o]:
                self.first_not_full_segment[o] = nxt
                self.first_available_offset[o] = 0
            else:
                self.add_segment(o)

    def push_back(self, item):
        self.room()
        o = self.out_segmented_array
        s = self.first_not_full_segment[o]
        k = self.first_available_offset[o]
        value = item
        if type(item) is np_m.ndarray:
            value = item[0]
        self.seg_list_pair[o][s][k] = value
        self.first_available_offset[o] = k + 1
        return (k, s * self.segment_length + k)

    # ---- traversal ------------------------------------------------------------------------
    def count_in(self, a, seg):
        """number of items in segment seg of array a"""
        if seg > self.first_not_full_segment[a]:
            return 0
        if seg == self.first_not_full_segment[a]:
            return self.first_available_offset[a]
        return self.segment_length

    def init_out_loop(self):
        o = self.out_segmented_array
        self.current_segment[o] = 0
        n = self.count_in(o, 0)
        if n == 0:
            return (0, None)
        return (n, self.seg_list_pair[o][0][0:n])

    def init_inout_loop(self):
        new_in = self.out_segmented_array
        new_out = self.in_segmented_array
        self.current_segment[0] = 0
        self.current_segment[1] = 0
        self.first_not_full_segment[new_out] = 0
        self.first_available_offset[new_out] = 0
        n = self.count_in(new_in, 0)
        if n == 0:
            return (0, None, None)
        self.in_segmented_array = new_in
        self.out_segmented_array = new_out
        return (n, self.seg_list_pair[new_in][0][0:n], self.seg_list_pair[new_out][0])

    def get_next_segment(self, which):
        a = self.pick(which)
        s = self.current_segment[a] + 1
        self.current_segment[a] = s
        n = self.count_in(a, s)
        if n == 0:
            return (0, None)
        return (n, self.seg_list_pair[a][s][0:n])

    def get_next_out_segment(self):
        o = self.out_segmented_array
        s = self.current_segment[o] + 1
        self.current_segment[o] = s
        if s < self.nseg[o]:
            if self.first_not_full_segment[o] + 1 < self.nseg[o]:
                self.first_not_full_segment[o] = self.first_not_full_segment[o] + 1
                self.first_available_offset[o] = 0
        else:
            self.add_segment(o)
        return self.seg_list_pair[o][s]

    def get_current_out_segment(self):
        o = self.out_segmented_array
        return self.seg_list_pair[o][self.current_segment[o]]


class SAPcpp(SAP):
    """as SAP; segments are passed whole (numpy array or data pointer), records are structs"""

    def new_segment(self):
        return empty(self.segment_length)

    def init_cpp(self, segment_length):
        self.segment_length = segment_length
        self.first_not_full_segment = [0, 0]
        self.first_available_offset = [0, 0]
        self.current_segment = [0, 0]
        self.in_segmented_array = 1
        self.out_segmented_array = 0
        self.swapPair = True
        self.seg_list_pair[0].append(empty(segment_length))
        self.seg_list_pair[1].append(empty(segment_length))
        self.nseg = [len(self.seg_list_pair[0]), len(self.seg_list_pair[1])]

    def slot(self):
        self.room()
        o = self.out_segmented_array
        return __recref__(self.seg_list_pair[o][self.first_not_full_segment[o]], self.first_available_offset[o])

    def bump(self):
        o = self.out_segmented_array
        k = self.first_available_offset[o]
        self.first_available_offset[o] = k + 1
        return (k, self.first_not_full_segment[o] * self.segment_length + k)

    def push_back_record(self, item):
        __reccopy__(self.slot(), __recref__(item, 0))
        return self.bump()

    def push_back_seq_x(self, item):
        p = self.slot()
        for i, f in enumerate(('x', 'x0', 'ux', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')):
            p[f] = item[i]
        return self.bump()

    def push_back_seq_xy(self, item):
        p = self.slot()
        for i, f in enumerate(('x', 'y', 'x0', 'y0', 'ux', 'uy', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')):
            p[f] = item[i]
        return self.bump()

    def push_back_seq_xyz(self, item):
        p = self.slot()
        for i, f in enumerate(('x', 'y', 'z', 'x0', 'y0', 'z0', 'ux', 'uy', 'uz', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')):
            p[f] = item[i]
        return self.bump()

    def push_back_seq_r(self, item):
        p = self.slot()
        for i, f in enumerate(('r', 'r0', 'ur', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')):
            p[f] = item[i]
        return self.bump()

    def get_item_x(self, i):
        p = self.cpp_item(i)
        return {f: p[f] for f in ('x', 'x0', 'ux', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')}

    def get_item_xy(self, i):
        p = self.cpp_item(i)
        return {f: p[f] for f in ('x', 'y', 'x0', 'y0', 'ux', 'uy', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')}

    def get_item_xyz(self, i):
        p = self.cpp_item(i)
        return {f: p[f] for f in ('x', 'y', 'z', 'x0', 'y0', 'z0', 'ux', 'uy', 'uz', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')}

    def get_item_r(self, i):
        p = self.cpp_item(i)
        return {f: p[f] for f in ('r', 'r0', 'ur', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')}

    def get_seq_x(self, i):
        p = self.cpp_item(i)
        return [p[f] for f in ('x', 'x0', 'ux', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')]

    def get_seq_xy(self, i):
        p = self.cpp_item(i)
        return [p[f] for f in ('x', 'y', 'x0', 'y0', 'ux', 'uy', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')]

    def get_seq_xyz(self, i):
        p = self.cpp_item(i)
        return [p[f] for f in ('x', 'y', 'z', 'x0', 'y0', 'z0', 'ux', 'uy', 'uz', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')]

    def get_seq_r(self, i):
        p = self.cpp_item(i)
        return [p[f] for f in ('r', 'r0', 'ur', 'weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings')]

    def handle(self, seg, ptr):
        if ptr:
            return __capsule__(seg)
        return seg

    def init_out_loop(self, ptr):
        o = self.out_segmented_array
        self.current_segment[o] = 0
        n = self.count_in(o, 0)
        if n == 0:
            return (0, None)
        return (n, self.handle(self.seg_list_pair[o][0], ptr))

    def init_inout_loop(self, ptr):
        new_in = self.out_segmented_array
        new_out = self.in_segmented_array
        self.current_segment[0] = 0
        self.current_segment[1] = 0
        self.first_not_full_segment[new_out] = 0
        self.first_available_offset[new_out] = 0
        n = self.count_in(new_in, 0)
        if n == 0:
            return (0, None, None)
        self.in_segmented_array = new_in
        self.out_segmented_array = new_out
        return (n, self.handle(self.seg_list_pair[new_in][0], ptr), self.handle(self.seg_list_pair[new_out][0], ptr))

    def get_next_segment(self, which, ptr):
        a = self.pick(which)
        s = self.current_segment[a] + 1
        self.current_segment[a] = s
        n = self.count_in(a, s)
        if n == 0:
            return (0, None)
        return (n, self.handle(self.seg_list_pair[a][s], ptr))

    def get_next_out_segment_cpp(self, ptr):
        return (self.handle(self.get_next_out_segment(), ptr),)
