# drafted from reviewed code, parsed and never executed
import numpy
from xboa import common as Common
from xboa.hit import Hit
from xboa.tracking._tracking_base import TrackingBase
from xboa.tracking._matrix_tracking import MatrixTracking

@spec("xboa.tracking._matrix_tracking:MatrixTracking.__init__", props="P23")
def ref_MatrixTracking_init(self, list_of_transfer_matrices, list_of_offsets, offset_in):
    TrackingBase.__init__(self)
    if len(list_of_offsets) != len(list_of_transfer_matrices):
        raise IndexError('list_of_offsets must be same length as list_of_tranfer_matrices')
    mat_type = type(numpy.matrix([0.0]))
    for offset in list_of_offsets + [offset_in]:
        if type(offset) != mat_type:
            raise TypeError('Offset should be of type ' + str(mat_type) + ' not ' + str(type(offset)))
        if offset.shape != (1, 6):
            raise TypeError('Offset should be of shape (1,6) not ' + str(offset.shape))
    for tm in list_of_transfer_matrices:
        if type(tm) != mat_type:
            raise TypeError('Matrix should be of type ' + str(mat_type) + ' not ' + str(type(tm)))
        if tm.shape != (6, 6):
            raise TypeError('Matrix should be of shape (6,6) not ' + str(tm.shape))
    self.tm_list = list_of_transfer_matrices
    self.offset_list = list_of_offsets
    self.offset_in = offset_in

@spec("xboa.tracking._matrix_tracking:MatrixTracking.track_one", props="P23")
def ref_MatrixTracking_track_one(self, hit):
    hit_list = [hit.deepcopy()]
    for i, tm in enumerate(self.tm_list):
        offset_out = self.offset_list[i]
        vec_in = numpy.matrix([hit['x'], hit['px'], hit['y'], hit['py'], hit['t'], hit['energy']])
        vec_in -= self.offset_in
        vec_out = tm * vec_in.transpose() + offset_out.transpose()
        hit_out = hit.deepcopy()
        for i, key in enumerate(['x', 'px', 'y', 'py', 't', 'energy']):
            hit_out[key] = float(vec_out[i])
        hit_out.mass_shell_condition('pz')
        hit_list.append(hit_out)
    self.last = [hit_list]
    return hit_list
