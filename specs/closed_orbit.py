# drafted from reviewed code, parsed and never executed
import math
import copy
import numpy
import xboa.common as common
import xboa.common.matplotlib_wrapper as matplotlib_wrapper
import xboa.common.config as config
from xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder import EllipseClosedOrbitFinder
from xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder import EllipseClosedOrbitFinderIteration

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinder.__init__", props="P25")
def ref_EllipseClosedOrbitFinder_init(self, tracking, seed_hit, eps_max=1000000.0, use_seed=False):
    config.has_numpy()
    self.tracking = tracking
    self.seed = seed_hit
    self.eps_max = eps_max
    self.use_seed = use_seed

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinder.scan_generator", props="P25")
def ref_EllipseClosedOrbitFinder_scan_generator(self, step_start_dict, step_end_dict, step_size_dict):
    next_hit = self.seed.deepcopy()
    step = copy.deepcopy(step_start_dict)
    keys = sorted(step.keys())
    while True:
        for key in keys:
            if step[key] >= step_end_dict[key]:
                return
            next_hit[key] = step[key]
        hit_list = self.tracking.track_one(next_hit)
        x_list = [[hit[key] for key in keys] for hit in hit_list]
        yield EllipseClosedOrbitFinderIteration(keys, x_list, self.eps_max)
        i = len(keys) - 1
        key = keys[i]
        step[key] += step_size_dict[key]
        while step[key] >= step_end_dict[key] and i > 0:
            step[key] = step_start_dict[key]
            i -= 1
            key = keys[i]
            step[key] += step_size_dict[key]

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinder.find_closed_orbit_generator", props="P25")
def ref_EllipseClosedOrbitFinder_find_closed_orbit_generator(self, closed_orbit_variable_list, number_of_points, max_iterations=100):
    keys = closed_orbit_variable_list
    next_hit = self.seed.deepcopy()
    noise_mean = None
    iteration = 0
    while max_iterations == None or iteration < max_iterations:
        iteration += 1
        x_list = self._get_points(keys, next_hit, number_of_points)
        try:
            my_co = EllipseClosedOrbitFinderIteration(keys, x_list, self.eps_max, True)
        except (numpy.linalg.LinAlgError, ValueError):
            if len(x_list) > number_of_points:
                return
            else:
                raise ValueError('Failed to find ellipse determinant.')
        yield my_co
        if my_co.get_mean_noise() < my_co.get_sigma_noise():
            return
        for i, var in enumerate(keys):
            next_hit[var] = my_co.centre[i]

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinder.check_closed_orbit", props="P25")
def ref_EllipseClosedOrbitFinder_check_closed_orbit(self, test_variable_dict, number_of_points):
    next_hit = self.seed.deepcopy()
    keys = sorted(test_variable_dict.keys())
    for var in keys:
        next_hit[var] = test_variable_dict[var]
    x_list = self._get_points(keys, next_hit, number_of_points)
    co_check = EllipseClosedOrbitFinderIteration(keys, x_list, self.eps_max, False)
    try:
        co_check.calculate_ellipse()
    except numpy.linalg.LinAlgError:
        pass
    except ValueError:
        pass
    return co_check

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinder._get_points", props="P25")
def ref_EllipseClosedOrbitFinder_get_points(self, keys, next_hit, number_of_points):
    hit_list = []
    if self.use_seed:
        hit_list.append(next_hit)
    while len(hit_list) < number_of_points:
        hit_list += self.tracking.track_one(next_hit)[1:]
        if hit_list[-1] == next_hit:
            raise RuntimeError('Tracking failed to generate an ellipse')
        next_hit = hit_list[-1]
    x_list = [[hit[var] for var in keys] for hit in hit_list]
    return x_list

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.__init__", props="P25")
def ref_EllipseClosedOrbitFinderIteration_init(self, keys, points, eps_max, calculate_ellipse=False):
    config.has_numpy()
    self.keys = keys
    self.points = points
    self.eps_max = eps_max
    self.centre = None
    self.ellipse = None
    self.noise = None
    if calculate_ellipse == True:
        self.calculate_ellipse()

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.calculate_ellipse", props="P25")
def ref_EllipseClosedOrbitFinderIteration_calculate_ellipse(self):
    self.centre, self.ellipse = common.fit_ellipse(self.points, self.eps_max, verbose=False)
    noise_list = []
    ellipse = copy.deepcopy(self.ellipse)
    ellipse /= numpy.linalg.det(ellipse) ** (1.0 / len(self.centre))
    ellipse_inv = numpy.linalg.inv(ellipse)
    for x_vec in self.points:
        x_numpy = numpy.matrix(x_vec) - self.centre
        noise = x_numpy * ellipse_inv * x_numpy.transpose()
        noise_list.append(float(noise[0]))
    for value in noise_list:
        if math.isnan(value) or math.isinf(value):
            raise ValueError('Failed to calculate noise; ' + 'ellipse may not be well-conditioned')
    self.noise = noise_list

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.get_mean_noise", props="P25")
def ref_EllipseClosedOrbitFinderIteration_get_mean_noise(self):
    if self.noise == None:
        self.calculate_ellipse()
    if len(self.noise) == 0:
        raise ValueError('Failed to calculate noise - ellipse singular?')
    n_noise = float(len(self.noise))
    mean_noise = sum(self.noise) / n_noise
    return mean_noise

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.get_sigma_noise", props="P25")
def ref_EllipseClosedOrbitFinderIteration_get_sigma_noise(self):
    if self.noise == None:
        self.calculate_ellipse()
    if len(self.noise) == 0:
        raise ValueError('Failed to calculate noise - ellipse singular?')
    mean_noise = self.get_mean_noise()
    noise_squ = [noise * noise for noise in self.noise]
    var_noise = sum(noise_squ) / len(self.noise) - mean_noise ** 2
    if var_noise <= 0.0:
        return 0.0
    return var_noise ** 0.5

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.plot_ellipse_root", props="P33")
def ref_EllipseClosedOrbitFinderIteration_plot_ellipse_root(self, x_axis_string, y_axis_string, x_axis_units, y_axis_units, marker_style=4, title_string='fit', canvas=None):
    config.has_root()
    x_var = self.keys.index(x_axis_string)
    x_list = [x[x_var] * common.units[x_axis_units] for x in self.points]
    y_var = self.keys.index(y_axis_string)
    y_list = [x[y_var] * common.units[y_axis_units] for x in self.points]
    if x_axis_units != '':
        x_axis_string += ' [' + x_axis_units + ']'
    if y_axis_units != '':
        y_axis_string += ' [' + y_axis_units + ']'
    hist, graph = common.make_root_graph(title_string, x_list, x_axis_string, y_list, y_axis_string)
    if canvas == None:
        canvas = common.make_root_canvas(title_string)
        hist.Draw()
    canvas.cd()
    x_min = hist.GetXaxis().GetXmin()
    x_max = hist.GetXaxis().GetXmax()
    y_min = hist.GetYaxis().GetXmin()
    y_max = hist.GetYaxis().GetXmax()
    graph.SetMarkerStyle(marker_style)
    graph.Draw('p')
    ellipse = None
    if type(self.centre) != type(None):
        ell_centre = [self.centre[x_var], self.centre[y_var]]
        ell_matrix = [[self.ellipse[x_var, x_var], self.ellipse[x_var, y_var]], [self.ellipse[x_var, y_var], self.ellipse[y_var, y_var]]]
        ell_matrix = numpy.array(ell_matrix)
        contours = [self.get_mean_noise()]
        ellipse = common.make_root_ellipse_function(ell_centre, ell_matrix, [2.0], x_min, x_max, y_min, y_max)
        ellipse.Draw('SAME')
    else:
        ellipse = common.make_root_ellipse_function([0.0, 0.0], [[1, 0], [0.0, 1.0]], [2.0], x_min, x_max, y_min, y_max)
    canvas.Update()
    return (canvas, hist, ellipse, graph)

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.plot_ellipse_matplotlib", props="P33")
def ref_EllipseClosedOrbitFinderIteration_plot_ellipse_matplotlib(self, x_axis_string, y_axis_string, x_axis_units='', y_axis_units=''):
    config.has_matplotlib()
    x_var = self.keys.index(x_axis_string)
    x_list = [x[x_var] * common.units[x_axis_units] for x in self.points]
    y_var = self.keys.index(y_axis_string)
    y_list = [x[y_var] * common.units[y_axis_units] for x in self.points]
    if x_axis_units != '':
        x_axis_string += ' [' + x_axis_units + ']'
    if y_axis_units != '':
        y_axis_string += ' [' + y_axis_units + ']'
    fig_index = matplotlib_wrapper.make_scatter(x_list, x_axis_string, y_list, y_axis_string)
    return fig_index

@spec("xboa.algorithms.closed_orbit._ellipse_closed_orbit_finder:EllipseClosedOrbitFinderIteration.json_repr", props="P25")
def ref_EllipseClosedOrbitFinderIteration_json_repr(self):
    return {'points': self.points, 'keys': self.keys, 'eps_max': self.eps_max}
