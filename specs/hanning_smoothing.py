# drafted from reviewed code, parsed and never executed
import copy
import math
from xboa.algorithms.smoothing._hanning_smoothing import HanningSmoothing

@spec("xboa.algorithms.smoothing._hanning_smoothing:HanningSmoothing.__init__", props="P27")
def ref_HanningSmoothing_init(self):
    pass

@spec("xboa.algorithms.smoothing._hanning_smoothing:HanningSmoothing.smooth", props="P27")
def ref_HanningSmoothing_smooth(self, data):
    omega = math.pi * len(data)
    data_out = copy.deepcopy(data)
    for i_index, item in enumerate(data):
        x_smoothed = data[i_index]
        for j_index, item in enumerate(data):
            x_smoothed += data[j_index] * math.cos(omega * (j_index - i_index)) ** 2.0
        data_out[i_index] = x_smoothed
    return data_out
