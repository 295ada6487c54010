# drafted from reviewed code, parsed and never executed
import math
from xboa.algorithms.smoothing._gaussian_smoothing import GaussianSmoothing

@spec("xboa.algorithms.smoothing._gaussian_smoothing:GaussianSmoothing.__init__", props="P27")
def ref_GaussianSmoothing_init(self, sigma, range_, adjust_boundary_normalisation):
    self.sigma = sigma
    self.range_ = range_
    two_sig_sq = 2.0 * sigma ** 2
    self._weights = [math.exp(-i ** 2.0 / two_sig_sq) for i in range(-self.range_, self.range_ + 1)]
    self.norm = None
    if not adjust_boundary_normalisation:
        self.norm = sum(self._weights)

@spec("xboa.algorithms.smoothing._gaussian_smoothing:GaussianSmoothing.smooth", props="P27")
def ref_GaussianSmoothing_smooth(self, signal):
    signal_out = [self._smooth_one(signal, i) for i in range(len(signal))]
    return signal_out

@spec("xboa.algorithms.smoothing._gaussian_smoothing:GaussianSmoothing._smooth_one", props="P27")
def ref_GaussianSmoothing_smooth_one(self, signal, i):
    s_0 = max(0, i - self.range_)
    s_1 = min(len(signal), i + self.range_ + 1)
    sigs = [signal[s_index] for s_index in range(s_0, s_1)]
    w_0 = s_0 - i + self.range_
    w_1 = s_1 - i + self.range_
    assert w_1 - w_0 == s_1 - s_0
    weights = [self._weights[w_index] for w_index in range(w_0, w_1)]
    if self.norm == None:
        this_norm = sum(weights)
    else:
        this_norm = self.norm
    weighted = [weights[j] * sigs[j] / this_norm for j in range(s_1 - s_0)]
    smoothed = sum(weighted)
    return smoothed
