# drafted from reviewed code, parsed and never executed
import time
from xboa.tracking import MatrixTracking
from xboa.tracking._timeout_tracking import TimeoutTracking

@spec("xboa.tracking._timeout_tracking:TimeoutTracking.__init__", props="P23")
def ref_TimeoutTracking_init(self, list_of_transfer_matrices, list_of_offsets, offset_in, timeout):
    MatrixTracking.__init__(self, list_of_transfer_matrices, list_of_offsets, offset_in)
    self.timeout = timeout

@spec("xboa.tracking._timeout_tracking:TimeoutTracking.track_many", props="P23")
def ref_TimeoutTracking_track_many(self, hit_list):
    tracking_out = MatrixTracking.track_many(self, hit_list)
    time.sleep(self.timeout)
    return tracking_out
