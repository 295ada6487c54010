# drafted from reviewed code, parsed and never executed
import sys
import math
import numpy
import xboa.common
import xboa.common.matplotlib_wrapper as matplotlib_wrapper
from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinderIteration
from xboa.algorithms.peak_finder import WindowPeakFinder
from xboa.algorithms.tune._dphi_tune import DPhiTuneFinder

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.__init__", props="P26")
def ref_DPhiTuneFinder_init(self, u_data=None, up_data=None):
    self.u = u_data
    self.up = up_data
    self.centre = None
    self.ellipse = None
    self.point_circles = []
    self.dphi = []
    self.tune = None
    self.tune_error = None
    self.axis1 = ''
    self.axis2 = ''

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.get_tune", props="P26")
def ref_DPhiTuneFinder_get_tune(self, tune_tolerance=None):
    if self.u is None or self.up is None:
        raise ValueError('Missing data set for Tune calculation')
    points = list(zip(self.u, self.up))
    self.centre, self.ellipse = xboa.common.fit_ellipse(points, 1000000000.0, verbose=False)
    self.get_dphi_list()
    self.tune = numpy.mean(self.dphi)
    self.tune_error = numpy.std(self.dphi)
    return numpy.mean(self.dphi)

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.run_tracking", props="P26")
def ref_DPhiTuneFinder_run_tracking(self, axis1, axis2, delta1, delta2, reference_hit, tracking, use_hits=None):
    hit = reference_hit.deepcopy()
    self.axis1 = axis1
    self.axis2 = axis2
    hit[axis1] += delta1
    hit[axis2] += delta2
    hits_out = tracking.track_one(hit)
    if use_hits != None:
        hits_out = [hit for i, hit in enumerate(hits_out) if i in use_hits]
    self.u = [hit[axis1] for hit in hits_out]
    self.up = [hit[axis2] for hit in hits_out]

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.get_dphi_list", props="P26")
def ref_DPhiTuneFinder_get_dphi_list(self):
    cholesky = numpy.linalg.cholesky(self.ellipse)
    cholesky_inv = numpy.linalg.inv(cholesky)
    points = zip(self.u, self.up)
    plot_x, plot_y = ([], [])
    self.point_circles = []
    self.dphi = []
    for point in points:
        point_array = numpy.array([point[0] - self.centre[0], point[1] - self.centre[1]])
        self.point_circles.append(numpy.dot(cholesky_inv, point_array))
    old_phi = -math.atan2(self.point_circles[0][1], self.point_circles[0][0])
    index = 1
    for point in self.point_circles[1:]:
        phi = -math.atan2(point[1], point[0])
        delta = phi - old_phi
        if delta < 0.0:
            delta += math.pi * 2.0
        self.dphi.append(delta / math.pi / 2.0)
        old_phi = phi
        index += 1

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.plot_phase_space_root", props="P33")
def ref_DPhiTuneFinder_plot_phase_space_root(self):
    ps_canvas = xboa.common.make_root_canvas('dphi tune PS canvas')
    ps_hist, ps_graph = xboa.common.make_root_graph('dphi PS', self.u, self.axis1, self.up, self.axis2)
    ps_hist.SetTitle('Fitted points before Cholesky decomposition to circle')
    ps_hist.Draw()
    ps_graph.SetMarkerStyle(24)
    ps_graph.Draw('PSAME')
    ps_canvas.Update()
    return (ps_canvas, ps_hist, ps_graph)

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.plot_cholesky_space_root", props="P33")
def ref_DPhiTuneFinder_plot_cholesky_space_root(self, circle_canvas=None, scale=1.0):
    circle_x = [point[0] * scale for point in self.point_circles]
    circle_y = [point[1] * scale for point in self.point_circles]
    circle_hist, circle_graph = xboa.common.make_root_graph('dphi circle', circle_x, '', circle_y, '')
    circle_hist.SetTitle('Fitted points after Cholesky decomposition to circle')
    if circle_canvas == None:
        circle_canvas = xboa.common.make_root_canvas('dphi tune circle canvas')
        circle_hist.Draw()
    circle_graph.SetMarkerStyle(24)
    circle_graph.Draw('PSAME')
    circle_canvas.Update()
    return (circle_canvas, circle_hist, circle_graph)

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.plot_phase_space_matplotlib", props="P33")
def ref_DPhiTuneFinder_plot_phase_space_matplotlib(self, x_label, y_label, fig_index=None):
    fig_index = matplotlib_wrapper.make_scatter(self.u, x_label, self.up, y_label, fig_index=fig_index)
    return fig_index

@spec("xboa.algorithms.tune._dphi_tune:DPhiTuneFinder.plot_cholesky_space_matplotlib", props="P33")
def ref_DPhiTuneFinder_plot_cholesky_space_matplotlib(self, fig_index=None, scale=1.0):
    circle_x = [point[0] * scale for point in self.point_circles]
    circle_y = [point[1] * scale for point in self.point_circles]
    fig_index = matplotlib_wrapper.make_scatter(circle_x, '', circle_y, '', fig_index=fig_index)
    return fig_index
