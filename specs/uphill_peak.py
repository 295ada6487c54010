# drafted from reviewed code, parsed and never executed
import xboa.common as common
import ROOT
from xboa.algorithms.peak_finder._uphill_downhill_peak_finder import UphillDownhillPeakFinder

@spec("xboa.algorithms.peak_finder._uphill_downhill_peak_finder:UphillDownhillPeakFinder.__init__", props="P27")
def ref_UphillDownhillPeakFinder_init(self):
    self.fit = ROOT.TF1('fit', '[0]+[1]*x+[2]*x*x+[3]*x*x*x+[4]*x*x*x', 0.0, 1.0)

@spec("xboa.algorithms.peak_finder._uphill_downhill_peak_finder:UphillDownhillPeakFinder._get_derivative", props="P27")
def ref_UphillDownhillPeakFinder_get_derivative(self, data):
    return [data[i + 1] - data[i] for i, x in enumerate(data[1:])]

@spec("xboa.algorithms.peak_finder._uphill_downhill_peak_finder:UphillDownhillPeakFinder.find_peak_errors_derivative", props="P27")
def ref_UphillDownhillPeakFinder_find_peak_errors_derivative(self, data, peak_list, delta_index, draw=False):
    derivative = self._get_derivative(data)
    peak_with_errors = []
    for peak in peak_list:
        x_min = max(peak - delta_index, 0)
        x_max = min(peak + delta_index + 1, len(derivative))
        x_list = range(x_min, x_max)
        y_list = derivative[x_min:x_max]
        graph = ROOT.TGraph(len(x_list))
        for i in range(5):
            self.fit.SetParameter(i, 0.0)
        for i in range(2, 5):
            self.fit.FixParameter(i, 0.0)
        self.fit.SetRange(min(y_list), max(y_list))
        for i, x in enumerate(x_list):
            y = y_list[i]
            graph.SetPoint(i, y, x)
        graph.Fit(self.fit, 'NO')
        if draw:
            canvas = common.make_root_canvas('derivatives')
            canvas.Draw()
            canvas.cd()
            hist, graph = common.make_root_graph('name', x_list, '', y_list, '')
            hist.Draw()
            graph.SetMarkerStyle(6)
            graph.Draw('p')
            canvas.Update()
            canvas = common.make_root_canvas('values')
            canvas.Draw()
            canvas.cd()
            hist, graph = common.make_root_graph('name', x_list, '', data[x_min:x_max], '')
            hist.Draw()
            graph.SetMarkerStyle(6)
            graph.Draw('p')
            canvas.Update()
        peak_with_errors.append([self.fit.GetParameter(0), self.fit.GetParError(0)])
    return peak_with_errors

@spec("xboa.algorithms.peak_finder._uphill_downhill_peak_finder:UphillDownhillPeakFinder.find_peaks", props="P27")
def ref_UphillDownhillPeakFinder_find_peaks(self, data):
    derivative = self._get_derivative(data)
    peak_list = []
    for i, x in enumerate(derivative[1:]):
        if derivative[i] > 0.0 and derivative[i + 1] < 0.0:
            peak_list.append(i + 1)
    return peak_list
