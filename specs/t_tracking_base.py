# drafted from reviewed code, parsed and never executed
from xboa.tracking._tracking_base import TrackingBase

@spec("xboa.tracking._tracking_base:TrackingBase.__init__", props="P23")
def ref_TrackingBase_init(self):
    self.last = []

@spec("xboa.tracking._tracking_base:TrackingBase.track_one", props="P23")
def ref_TrackingBase_track_one(self, hit):
    raise NotImplementedError('track_one was not implemented')

@spec("xboa.tracking._tracking_base:TrackingBase.track_many", props="P23")
def ref_TrackingBase_track_many(self, list_of_hits):
    hits_out = [self.track_one(hit) for hit in list_of_hits]
    self.last = hits_out
    return hits_out
