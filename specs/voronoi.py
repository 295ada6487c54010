# drafted from reviewed code, parsed and never executed
import math
import bisect
import multiprocessing
import numpy
import scipy.spatial
import ROOT
import xboa.common as common
import xboa.common.config as config
import xboa.bunch.weighting
from xboa.bunch.weighting._voronoi_weighting import VoronoiWeighting

@spec("xboa.bunch.weighting._voronoi_weighting:VoronoiWeighting.__init__", props="P28")
def ref_VoronoiWeighting_init(self, weight_variables, weight_ellipse, weight_mean=None, voronoi_bound=None):
    config.has_numpy()
    config.has_scipy()
    self.dim = len(weight_variables)
    if weight_mean is None:
        weight_mean = numpy.array([0.0] * self.dim)
    if (self.dim,) != numpy.shape(weight_mean):
        raise ValueError('weight_mean shape ' + str(numpy.shape(weight_mean)) + ' should be ' + str((self.dim,)))
    if numpy.shape(weight_ellipse) != (self.dim, self.dim):
        raise ValueError('weight_ellipse shape ' + str(numpy.shape(weight_ellipse)) + ' should be ' + str((self.dim, self.dim)))
    self.voronoi_bound = None
    if voronoi_bound != None:
        if voronoi_bound.dim != self.dim:
            raise ValueError('voronoi_bound dimension should be same as ' + 'VoronoiWeighting dimension')
        self.voronoi_bound = voronoi_bound
    self.weight_variables = weight_variables
    self.weight_ellipse_inv = numpy.linalg.inv(weight_ellipse)
    self.weight_ellipse_det = numpy.linalg.det(weight_ellipse)
    self.weight_mean = weight_mean
    self.weight_list = None
    self.tesselation = None
    self.tile_content_list = None
    self.real_points = None

@spec("xboa.bunch.weighting._voronoi_weighting:VoronoiWeighting.apply_weights", props="P28")
def ref_VoronoiWeighting_apply_weights(self, bunch, global_cut, number_of_processes=1):
    self.real_points = bunch.list_get_hit_variable(self.weight_variables)
    self.real_points = list(zip(*tuple(self.real_points)))
    self.real_points = numpy.array(self.real_points)
    if self.voronoi_bound != None:
        self.real_points, not_cut = self.voronoi_bound.cut_on_bound(self.real_points)
        points = numpy.vstack((self.real_points, self.voronoi_bound.bounding_points))
    else:
        points = self.real_points
        not_cut = range(len(self.real_points))
    self.tesselation = scipy.spatial.Voronoi(points)
    point_list = range(len(self.real_points))
    self.tile_content_list = xboa.bunch.weighting.HullContent(self.tesselation, point_list, number_of_processes).tile_content_list
    if global_cut:
        weight = 'global_weight'
    else:
        weight = 'local_weight'
    self.weight_list = [None] * len(bunch)
    for i, hit_index in enumerate(not_cut):
        hit = bunch[hit_index]
        pdf_target = self.get_pdf(self.real_points[i])
        self.weight_list[i] = pdf_target * self.tile_content_list[i]
        hit[weight] = self.weight_list[i]
    for i, hit in enumerate(bunch):
        if i not in not_cut:
            hit[weight] = 0.0

@spec("xboa.bunch.weighting._voronoi_weighting:VoronoiWeighting.get_pdf", props="P28")
def ref_VoronoiWeighting_get_pdf(self, point):
    norm = (2.0 * math.pi) ** numpy.shape(point)[0] * self.weight_ellipse_det
    delta = point - self.weight_mean
    delta_t = numpy.transpose(delta)
    arg = -0.5 * delta.dot(self.weight_ellipse_inv.dot(delta_t))
    gauss = math.exp(arg) / norm ** 0.5
    return gauss

@spec("xboa.bunch.weighting._voronoi_weighting:VoronoiWeighting.plot_two_d_projection", props="P33")
def ref_VoronoiWeighting_plot_two_d_projection(self, projection_axes, fill_option=None, lower=None, upper=None):
    config.has_root()
    if lower == None:
        lower = 0
    if upper == None:
        upper = len(self.real_points)
    if len(projection_axes) != 2:
        raise ValueError('Expected projection axes of length 2')
    if projection_axes[0] not in self.weight_variables or projection_axes[1] not in self.weight_variables:
        raise ValueError('Projection axes ' + str(projection_axes) + ' should be a subset of weight_variables ' + str(self.weight_variables))
    if self.tesselation == None:
        raise ValueError('Need to apply_weights before tesselation can be' + 'plotted')
    title = 'tesselation_' + str(projection_axes[0]) + '_' + str(projection_axes[1])
    canvas = common.make_root_canvas(title)
    proj = [self.weight_variables.index(x) for x in projection_axes]
    x_list = [vertex[proj[0]] for vertex in self.tesselation.vertices]
    y_list = [vertex[proj[1]] for vertex in self.tesselation.vertices]
    points = numpy.transpose(self.real_points)
    hist, points_graph = common.make_root_graph(title, points[0][lower:upper], projection_axes[0], points[1][lower:upper], projection_axes[1])
    if fill_option != None and fill_option != 'none':
        hist.SetTitle('Color by ' + fill_option)
    hist.Draw('colz')
    points_graph.SetMarkerStyle(6)
    tile_graphs = []
    fill_colors = self._get_fill_colors(fill_option, lower, upper)
    for point_index, tile_index in enumerate(self.tesselation.point_region[lower:upper]):
        tile = self.tesselation.regions[tile_index]
        if -1 in tile or len(tile) == 0:
            continue
        graph = ROOT.TGraph(len(tile) + 1)
        tile_graphs.append(graph)
        for i, vertex_index in enumerate(tile):
            graph.SetPoint(i, x_list[vertex_index], y_list[vertex_index])
        graph.SetPoint(len(tile), x_list[tile[0]], y_list[tile[0]])
        graph.SetFillColor(fill_colors[point_index])
        graph.Draw('f')
        graph.Draw('l')
    points_graph.Draw('p')
    canvas.Update()
    common._common._hist_persistent += tile_graphs
    return (canvas, hist, points_graph, tile_graphs)

@spec("xboa.bunch.weighting._voronoi_weighting:VoronoiWeighting._get_fill_colors", props="P33")
def ref_VoronoiWeighting_get_fill_colors(self, fill_option, lower, upper):
    if fill_option == 'weight':
        fill_data = self.weight_list[lower:upper]
    elif fill_option == 'content':
        fill_data = self.tile_content_list[lower:upper]
    elif fill_option == 'pdf':
        fill_data = [self.get_pdf(point) for point in self.real_points][lower:upper]
    elif fill_option == 'none' or fill_option == None:
        return [0] * len(self.real_points)
    else:
        raise ValueError('Did not recognise fill option ' + str(fill_option) + "should be one of ['weight', 'content', 'pdf', 'none']")
    n_colors = ROOT.TColor.GetNumberOfColors()
    bounds = [min(fill_data) + i * (max(fill_data) - min(fill_data)) / (n_colors - 1) for i in range(n_colors)]
    fill_colors = [bisect.bisect_left(bounds, fill) for fill in fill_data]
    fill_colors = [ROOT.TColor.GetColorPalette(i) for i in fill_colors]
    return fill_colors
