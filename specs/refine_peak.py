# drafted from reviewed code, parsed and never executed
import xboa.common as common
import ROOT
import numpy
from xboa.algorithms.peak_finder._refine_peak_finder import RefinePeakFinder

@spec("xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder.__init__", props="P27")
def ref_RefinePeakFinder_init(self, peak_list, delta_seed, max_delta, draw):
    self.fit = None
    self.peak_list = peak_list
    self.delta_seed = delta_seed
    self.max_delta = max_delta
    self.draw = draw

@spec("xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder.sigma", props="P27")
def ref_RefinePeakFinder_sigma(self, data):
    mean_square_sum = sum([y ** 2 for y in data]) / len(data)
    mean_sum_square = sum([y for y in data]) / len(data)
    return (mean_square_sum - mean_sum_square ** 2) ** 0.5

@spec("xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder._peak_fit", props="P27")
def ref_RefinePeakFinder_peak_fit(self, data, peak_index, delta_fit, delta_bite):
    x_min = max(peak_index - delta_fit, 0)
    x_max = min(peak_index + delta_fit + 1, len(data))
    x_list = range(x_min - peak_index, x_max - peak_index)
    y_list = data[x_min:x_max]
    hist, graph = common.make_root_graph('name', x_list, '', data[x_min:x_max], '')
    if self.fit == None:
        quadratic = '[0]+[1]*x+[2]*x*x'
        self.fit = ROOT.TF1('fit', quadratic, min(y_list), max(y_list))
    fit = self.fit
    fit.SetRange(min(y_list), max(y_list))
    for i in range(3):
        fit.ReleaseParameter(i)
        fit.SetParameter(i, 0.0)
    graph.Fit(fit, 'QNO')
    delta_list = [y_list[i] - fit.Eval(x) for i, x in enumerate(x_list)]
    sigma_delta = self.sigma(delta_list)
    sigma_bite = self.sigma(y_list[delta_fit - delta_bite:delta_fit + delta_bite])
    fit_quality = (sigma_delta / sigma_bite - 1.0) * delta_bite ** 0.5
    return (fit_quality, hist, graph, fit)

@spec("xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder.find_peak_errors", props="P27")
def ref_RefinePeakFinder_find_peak_errors(self, data):
    this_max_delta = min(len(data), self.max_delta)
    peak_with_errors = []
    fail_list = []
    for peak in self.peak_list:
        fit_quality = 0.0
        delta_fit = self.delta_seed
        while fit_quality < 1.0 and delta_fit < this_max_delta:
            delta_fit *= 2
            try:
                fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
            except Exception:
                break
        delta_fit //= 2
        fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
        if self.draw:
            canvas = common.make_root_canvas('values')
            canvas.Draw()
            canvas.cd()
            hist.Draw()
            graph.SetMarkerStyle(6)
            graph.Draw('p')
            fit_result = graph.Fit(fit, 'S')
            self.fit_list.append(fit)
            self.fit = None
            canvas.Update()
        else:
            fit_result = graph.Fit(fit, 'QNOS')
            common.clear_root()
        p0 = fit.GetParameter(0)
        p1 = fit.GetParameter(1)
        p2 = fit.GetParameter(2)
        peak_out = [-p1 / 2.0 / p2 + peak, -p1 * p1 / 4.0 / p2 + p0]
        if abs(peak_out[0] - peak) > delta_fit or peak_out[0] < 0 or peak_out[0] > len(data):
            continue
        J = numpy.matrix([[0.0, -1.0 / 2.0 / p2, p1 / 2.0 / p2 / p2], [1.0, -p1 / 2.0 / p2, p1 * p1 / 4.0 / p2 / p2]])
        JT = J.T
        CovP = numpy.matrix([[fit_result.GetCovarianceMatrix()(i, j) for i in range(3)] for j in range(3)])
        CovPeak = J * CovP * JT
        if self.draw:
            pass
        CovPeak = [[CovPeak[i, j] for i in range(2)] for j in range(2)]
        peak_with_errors.append({'x': peak_out[0], 'y': peak_out[1], 'x_in': peak, 'cov(x,y)': CovPeak})
    return peak_with_errors

@spec("xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder.find_peaks", props="P27")
def ref_RefinePeakFinder_find_peaks(self, data):
    peak_error_list = self.find_peak_errors(data)
    peak_list = [int(x['x']) for x in peak_error_list]
    return peak_list
