# drafted from reviewed code, parsed and never executed
import numpy
import xboa.common as common
import xboa.common.config as config
from xboa.bunch.weighting._bounding_ellipse import BoundingEllipse

@spec("xboa.bunch.weighting._bounding_ellipse:BoundingEllipse.__init__", props="P28")
def ref_BoundingEllipse_init(self, limit_ellipse, limit_mean, limit_n_per_dim):
    config.has_numpy()
    self.dim = numpy.shape(limit_ellipse)[0]
    if type(limit_n_per_dim) != type(1) or limit_n_per_dim < 1:
        raise ValueError('limit_n_per_dim should be an integer > 1')
    if numpy.shape(limit_ellipse) != (self.dim, self.dim):
        raise ValueError('limit_ellipse shape ' + str(numpy.shape(limit_ellipse)) + ' should be ' + str((self.dim, self.dim)))
    if numpy.shape(limit_mean) != (self.dim,):
        raise ValueError('limit_mean shape ' + str(numpy.shape(limit_mean)) + ' should be ' + str((self.dim,)))
    self.bounding_points = common.make_shell(limit_n_per_dim, limit_ellipse)
    bp_temp = [None] * numpy.shape(self.bounding_points)[0]
    for i, row in enumerate(self.bounding_points):
        bp_temp[i] = [None] * self.dim
        for j in range(self.dim):
            bp_temp[i][j] = row[0, j] + limit_mean[j]
    self.bounding_points = numpy.array(bp_temp)
    self.ellipse_det = numpy.linalg.det(limit_ellipse)
    self.ellipse_inv = numpy.linalg.inv(limit_ellipse)
    self.mean = limit_mean

@spec("xboa.bunch.weighting._bounding_ellipse:BoundingEllipse.cut_on_bound", props="P28")
def ref_BoundingEllipse_cut_on_bound(self, points_in):
    points = points_in
    i = 0
    index = 0
    not_cut_indices = []
    while i < len(points):
        point = points[i]
        delta = point - self.mean
        delta_t = numpy.transpose(delta)
        arg = delta.dot(self.ellipse_inv.dot(delta_t))
        if arg > 1.0:
            points = numpy.delete(points, i, 0)
        else:
            not_cut_indices.append(index)
            i += 1
        index += 1
    return (points, not_cut_indices)
