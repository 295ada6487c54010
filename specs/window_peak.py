# drafted from reviewed code, parsed and never executed
from xboa.algorithms.peak_finder._window_peak_finder import WindowPeakFinder

@spec("xboa.algorithms.peak_finder._window_peak_finder:WindowPeakFinder.__init__", props="P27")
def ref_WindowPeakFinder_init(self, window_size, threshold_over_mean, window_step):
    self.window_size = int(window_size)
    self.threshold = float(threshold_over_mean)
    self.window_step = int(window_step)

@spec("xboa.algorithms.peak_finder._window_peak_finder:WindowPeakFinder.find_peaks", props="P27")
def ref_WindowPeakFinder_find_peaks(self, data):
    peaks = []
    window_size = self.window_size
    if len(data) < self.window_size:
        window_size = len(data)
    win_sz_float = float(window_size)
    for i in range(0, len(data) - window_size + 1, self.window_step):
        test = data[i:i + window_size]
        max_value = max(test)
        max_index = test.index(max_value)
        if i != 0 and max_index == 0 or (i != len(data) - window_size and max_index == window_size - 1):
            pass
        else:
            max_index += i
            if max_index not in peaks:
                if self.threshold < 1.0:
                    peaks.append(max_index)
                else:
                    mean = sum(test) / win_sz_float
                    sigma = (sum([x ** 2 for x in test]) - mean ** 2) ** 0.5 / win_sz_float
                    if max_value - mean > sigma * self.threshold:
                        peaks.append(max_index)
    return peaks
