# drafted from reviewed code, parsed and never executed
import math
import sys
import numpy
import ROOT
import xboa.common as common
from xboa.algorithms.peak_finder import WindowPeakFinder
from xboa.algorithms.tune._fft_tune import FFTTuneFinder

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.__init__", props="P26")
def ref_FFTTuneFinder_init(self, u_data=None, up_data=None, peak_finder=None, use_hanning_filter=False):
    self._peak_finder = peak_finder
    if self._peak_finder == None:
        self._peak_finder = WindowPeakFinder(5, 0.0, 1)
    self.u = u_data
    self.up = up_data
    self.use_hanning_filter = use_hanning_filter
    self.fractional_tune = None
    self.peak_x_list = []
    self.peak_y_list = []
    self.k_mag_x = None
    self.k_mag_y = None

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.get_tune", props="P26")
def ref_FFTTuneFinder_get_tune(self, tune_tolerance=None):
    if self.u is None:
        raise ValueError('No data set for Fourier Transform')
    if len(self.u) % 2 == 0:
        if self.up is not None:
            self.up = self.up[:-1]
        self.u = self.u[:-1]
    if tune_tolerance == None:
        tune_tolerance = 1.0 / len(self.u) / 100.0
    self._fft_find_peaks()
    if len(self.peak_x_list) == 0:
        self._sft_find_peaks(tune_tolerance)
    self._get_max_peak()
    if tune_tolerance < 1.0 / len(self.k_mag_x):
        for i, k_x in enumerate(self.peak_x_list):
            try:
                new_peak_x = self._recursive_refine_peak(k_x, tune_tolerance)
                self.peak_x_list[i] = new_peak_x
                index = self.k_mag_x.index(new_peak_x)
                self.peak_y_list[i] = self.k_mag_y[index]
            except ValueError:
                sys.excepthook(*sys.exc_info())
        self._get_max_peak()
    return self.fractional_tune

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.run_tracking", props="P26")
def ref_FFTTuneFinder_run_tracking(self, axis, delta, reference_hit, tracking, use_hits=None):
    hit = reference_hit.deepcopy()
    hit[axis] += delta
    hits_out = tracking.track_one(hit)
    if use_hits != None:
        hits_out = [hit for i, hit in enumerate(hits_out) if i in use_hits]
    self.u = [hit[axis] for hit in hits_out]
    self.up = [hit['p' + axis] for hit in hits_out]

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.plot_signal", props="P33")
def ref_FFTTuneFinder_plot_signal(self, title):
    canvas = common.make_root_canvas(title)
    x_list = range(len(self.u))
    hist, graph = common.make_root_graph(title, x_list, 'count', self.u, 'signal')
    hist.SetTitle(title)
    hist.Draw()
    graph.Draw('l')
    canvas.Update()
    return (canvas, hist, graph)

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.plot_phase_space", props="P33")
def ref_FFTTuneFinder_plot_phase_space(self, title):
    canvas = common.make_root_canvas(title)
    hist, graph = common.make_root_graph(title, self.u, 'displacement', self.up, 'divergence')
    hist.SetTitle(title)
    hist.Draw()
    graph.SetMarkerStyle(26)
    graph.Draw('p')
    canvas.Update()
    return (canvas, hist, graph)

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.plot_fft", props="P33")
def ref_FFTTuneFinder_plot_fft(self, title, ymin=None, ymax=None):
    if self.k_mag_x == None or self.k_mag_y == None:
        self.get_tune()
    canvas = common.make_root_canvas(title)
    if ymin == None:
        ymin = max([1e-05, min(self.k_mag_y)])
    hist, graph = common.make_root_graph(title, self.k_mag_x, 'frequency', self.k_mag_y, 'magnitude', ymin=ymin, ymax=ymax)
    hist.SetTitle(title)
    hist.Draw()
    graph.Draw('l')
    canvas.SetLogy()
    canvas.Update()
    return (canvas, hist, graph)

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder.plot_fft_fit", props="P33")
def ref_FFTTuneFinder_plot_fft_fit(self, title, peak_k_index, fit_lower_index, fit_upper_index, fit=None):
    canvas, hist, graph = self.plot_fft(title)
    fit_height = self.k_mag_y[peak_k_index]
    fit_centre = self.k_mag_x[peak_k_index]
    fit_low = self.k_mag_x[fit_lower_index]
    fit_hi = self.k_mag_x[fit_upper_index]
    if fit == None:
        fit_function = '[1]*exp(-((x-[0])*[2])**2)'
        fit = ROOT.TF1(title + ' fit', fit_function, fit_low, fit_hi)
        fit.SetParameter(0, fit_centre)
        fit.SetParameter(1, fit_height)
        fit.SetParameter(2, fit_height)
    graph.Fit(fit)
    canvas.cd()
    fit.Draw('SAME')
    canvas.Update()
    return (canvas, hist, graph, fit)

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder._get_max_peak", props="P26")
def ref_FFTTuneFinder_get_max_peak(self):
    peak_index_list = [self.k_mag_x.index(k_x) for k_x in self.peak_x_list]
    peak_values = [self.k_mag_y[i] for i in peak_index_list]
    if len(peak_values) == 0:
        raise ValueError("Can't get max peak - found no peaks at all")
    peak_max = max(peak_values)
    peak_index = self.k_mag_y.index(peak_max)
    self.fractional_tune = self.k_mag_x[peak_index]
    return peak_index

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder._sft_find_peaks", props="P26")
def ref_FFTTuneFinder_sft_find_peaks(self, interval):
    n_items = int(1.0 / interval / 2.0)
    self.k_mag_x = [i * interval for i in range(n_items)]
    self.k_mag_y = [self._sft(k_x) for k_x in self.k_mag_x]
    self._find_peaks()

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder._fft_find_peaks", props="P26")
def ref_FFTTuneFinder_fft_find_peaks(self):
    fft = numpy.fft.rfft(numpy.array(self.u))
    k_list = [[float(numpy.real(z)), float(numpy.imag(z))] for z in fft]
    self.k_mag_y = [(z[0] ** 2 + z[1] ** 2) ** 0.5 for z in k_list]
    self.k_mag_x = [i / float(len(self.u)) for i, z in enumerate(k_list)]
    self._find_peaks()

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder._find_peaks", props="P26")
def ref_FFTTuneFinder_find_peaks(self):
    self.peak_x_list, self.peak_y_list = ([], [])
    peak_index_list = sorted(self._peak_finder.find_peaks(self.k_mag_y))
    if len(peak_index_list) == 0:
        return
    if peak_index_list[0] == 0:
        peak_index_list.pop(0)
    self.peak_x_list = [self.k_mag_x[i] for i in peak_index_list]
    self.peak_y_list = [self.k_mag_y[i] for i in peak_index_list]

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder._recursive_refine_peak", props="P26")
def ref_FFTTuneFinder_recursive_refine_peak(self, k_x, x_tolerance):
    peak_index = self.k_mag_x.index(k_x)
    if peak_index + 1 == len(self.k_mag_y):
        peak_index -= 1
    y_values = [self.k_mag_y[peak_index - 1], self.k_mag_y[peak_index], self.k_mag_y[peak_index + 1]]
    if y_values[2] > y_values[0]:
        del y_values[0]
        x_values = [self.k_mag_x[peak_index], self.k_mag_x[peak_index + 1]]
        index_right = peak_index + 1
    else:
        del y_values[2]
        x_values = [self.k_mag_x[peak_index - 1], self.k_mag_x[peak_index]]
        index_right = peak_index
    new_x = (x_values[0] + x_values[1]) / 2.0
    new_y = self._sft(new_x)
    if abs(x_values[1] - x_values[0]) < x_tolerance:
        return self.k_mag_x[peak_index]
    self.k_mag_x.insert(index_right, new_x)
    self.k_mag_y.insert(index_right, new_y)
    if new_y > y_values[0] and new_y > y_values[1]:
        new_peak_index = index_right
    elif y_values[0] > new_y and y_values[1] > new_y:
        new_peak_index = self.k_mag_y.index(y_values[0])
        self._recursive_refine_peak(self.k_mag_x[new_peak_index], x_tolerance)
        new_peak_index = self.k_mag_y.index(y_values[1])
    elif y_values[0] > y_values[1]:
        new_peak_index = peak_index
    else:
        new_peak_index = peak_index + 1
    return self._recursive_refine_peak(self.k_mag_x[new_peak_index], x_tolerance)

@spec("xboa.algorithms.tune._fft_tune:FFTTuneFinder._sft", props="P26")
def ref_FFTTuneFinder_sft(self, k_x):
    y_point, z_point = (0.0, 0.0)
    n = float(len(self.u))
    hanning = 1.0
    for m, a_m in enumerate(self.u):
        if self.use_hanning_filter:
            hanning = 2.0 * math.sin(math.pi * m / n) ** 2.0
        f = 2.0 * math.pi * m * k_x
        dy = hanning * a_m * math.cos(f)
        dz = hanning * a_m * math.sin(f)
        y_point += dy
        z_point += dz
    k_y = (y_point ** 2 + z_point ** 2) ** 0.5
    return k_y
