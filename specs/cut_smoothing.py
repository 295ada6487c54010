# drafted from reviewed code, parsed and never executed
import copy
import numpy
from xboa.algorithms.smoothing._cut_smoothing import CutSmoothing

@spec("xboa.algorithms.smoothing._cut_smoothing:CutSmoothing.__init__", props="P27")
def ref_CutSmoothing_init(self, cut_range, step):
    self.cut_range = cut_range
    self.step = step

@spec("xboa.algorithms.smoothing._cut_smoothing:CutSmoothing.smooth", props="P27")
def ref_CutSmoothing_smooth(self, signal):
    table_out = self.smooth_table([signal], 0)
    return table_out[0]

@spec("xboa.algorithms.smoothing._cut_smoothing:CutSmoothing.smooth_table", props="P27")
def ref_CutSmoothing_smooth_table(self, table, target_column):
    signal = table[target_column]
    n_signal = len(signal)
    for column in table:
        if len(column) != n_signal:
            raise IndexError('Column with length ' + str(len(column)) + ' not equal to ' + str(n_signal))
    will_cut_data = [False] * n_signal
    for i in range(n_signal // self.step):
        data_mean = numpy.mean(signal[i * self.step:(i + 1) * self.step])
        for j in range(i * self.step, (i + 1) * self.step):
            will_cut_data[j] = abs(signal[j] - data_mean) > self.cut_range
    data_mean = numpy.mean(signal[max(n_signal - self.step, 0):n_signal])
    for j in range(n_signal // self.step * self.step, n_signal):
        will_cut_data[j] = abs(signal[j] - data_mean) > self.cut_range
    table_out = copy.deepcopy(table)
    for column in table_out:
        n_cuts = 0
        for i in range(n_signal):
            if will_cut_data[i]:
                del column[i - n_cuts]
                n_cuts += 1
    return table_out
