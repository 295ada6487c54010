# drafted from reviewed code, parsed and never executed
import math
import multiprocessing
import signal
import os
import numpy
import scipy.spatial
import xboa.common as common
import xboa.common.config as config
from xboa.bunch.weighting._hull_content import _init_worker
from xboa.bunch.weighting._hull_content import _get_cm_matrix
from xboa.bunch.weighting._hull_content import _tile_content
from xboa.bunch.weighting._hull_content import HullContent

@spec("xboa.bunch.weighting._hull_content:_init_worker", props="P28")
def ref__init_worker():
    pass

@spec("xboa.bunch.weighting._hull_content:_get_cm_matrix", props="P28")
def ref__get_cm_matrix(simplex, triangulation, dimension):
    elements = numpy.zeros([dimension + 2, dimension + 2])
    for i in range(1, dimension + 2):
        elements[i, 0] = 1.0
        elements[0, i] = 1.0
    for i, vertex_i in enumerate(simplex):
        for j, vertex_j in enumerate(simplex[i + 1:]):
            j += i + 1
            point_i = triangulation.points[vertex_i]
            point_j = triangulation.points[vertex_j]
            square = [(point_i[d] - point_j[d]) ** 2 for d in range(dimension)]
            length_sq = sum(square)
            elements[i + 1, j + 1] = length_sq
            elements[j + 1, i + 1] = length_sq
    return elements

@spec("xboa.bunch.weighting._hull_content:_tile_content", props="P28")
def ref__tile_content(args):
    try:
        region, points = args
        if -1 in region or len(region) == 0:
            return 0.0
        dimension = numpy.shape(points)[1]
        content = 0.0
        triangulation = scipy.spatial.Delaunay(points)
        coefficient = (-1) ** (dimension + 1) / 2.0 ** dimension
        coefficient /= math.factorial(dimension) ** 2.0
        for simplex in triangulation.simplices:
            elements = _get_cm_matrix(simplex, triangulation, dimension)
            det = numpy.linalg.det(elements)
            if det != det:
                det = 0.0
            this_content = (coefficient * det) ** 0.5
            if this_content == this_content:
                content += this_content
    except KeyboardInterrupt:
        raise RuntimeError('KeyboardInterrupt helper')
    return content

@spec("xboa.bunch.weighting._hull_content:HullContent.__init__", props="P28")
def ref_HullContent_init(self, tesselation, region_list, n_procs=1):
    config.has_numpy()
    config.has_scipy()
    self.tesselation = tesselation
    self.region_list = region_list
    self.n_procs = n_procs
    self.tile_content_list = None
    self.recalculate()

@spec("xboa.bunch.weighting._hull_content:HullContent.recalculate", props="P28")
def ref_HullContent_recalculate(self):
    job_list = [None] * len(self.region_list)
    for job_index, i in enumerate(self.region_list):
        tile_index = self.tesselation.point_region[i]
        region = self.tesselation.regions[tile_index]
        points = numpy.array([self.tesselation.vertices[j] for j in region])
        job_list[job_index] = (region, points)
    with multiprocessing.Pool(self.n_procs, _init_worker) as pool:
        self.tile_content_list = pool.map(_tile_content, job_list)
