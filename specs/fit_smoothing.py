# drafted from reviewed code, parsed and never executed
import copy
import ROOT
from xboa.algorithms.smoothing._fit_smoothing import FitSmoothing

@spec("xboa.algorithms.smoothing._fit_smoothing:FitSmoothing.__init__", props="P27")
def ref_FitSmoothing_init(self, fit_function):
    self.fit = fit_function

@spec("xboa.algorithms.smoothing._fit_smoothing:FitSmoothing.smooth", props="P27")
def ref_FitSmoothing_smooth(self, data):
    graph = ROOT.TGraph(len(data))
    for i, data_y in enumerate(data):
        graph.SetPoint(i, i, data_y)
    graph.Fit(self.fit)
    data_out = [self.fit.Eval(i) for i in range(len(data))]
    return data_out
