# drafted from reviewed code, parsed and never executed
import copy
from xboa.tracking.tracking_process import TrackingProcess
from xboa.tracking import TrackingBase
from xboa.tracking._multitrack import MultiTrack

@spec("xboa.tracking._multitrack:MultiTrack.__init__", props="P24")
def ref_MultiTrack_init(self, n_processes, tracking_process):
    TrackingBase.__init__(self)
    self.tracking_job = tracking_process
    self.n_processes = n_processes
    self.job_list = []
    self.last = []

@spec("xboa.tracking._multitrack:MultiTrack.track_many_async", props="P24")
def ref_MultiTrack_track_many_async(self, hit_list):
    self.job_list = []
    self.last = []
    n_hits = len(hit_list)
    n_hits_per_process = n_hits // int(self.n_processes)
    remainder = n_hits % int(self.n_processes)
    for i in range(self.n_processes):
        if remainder > 0:
            this_hit_list = hit_list[0:n_hits_per_process + 1]
            hit_list = hit_list[n_hits_per_process + 1:]
            remainder -= 1
        else:
            this_hit_list = hit_list[0:n_hits_per_process]
            hit_list = hit_list[n_hits_per_process:]
        next_job = copy.deepcopy(self.tracking_job)
        next_job.new_out_dir()
        next_job.set_hit_list(this_hit_list)
        self.job_list.append(next_job)
        next_job.start()
    return self.job_list

@spec("xboa.tracking._multitrack:MultiTrack.track_one", props="P24")
def ref_MultiTrack_track_one(self, a_hit):
    hit_list = self.tracking_job.tracking.track_one(a_hit)
    self.last = [hit_list]
    return hit_list

@spec("xboa.tracking._multitrack:MultiTrack.track_many", props="P24")
def ref_MultiTrack_track_many(self, hit_list):
    self.track_many_async(hit_list)
    tmp_job_list = [job for job in self.job_list]
    while len(tmp_job_list) > 0:
        very_tmp_job_list = []
        for job in tmp_job_list:
            if job.is_alive():
                very_tmp_job_list.append(job)
            else:
                print('Process', job.pid, 'finished with exitcode', end=' ')
                print(job.exitcode)
        tmp_job_list = very_tmp_job_list
    return self.get_return_value()

@spec("xboa.tracking._multitrack:MultiTrack.get_return_value", props="P24")
def ref_MultiTrack_get_return_value(self):
    self.last = []
    for job in self.job_list:
        try:
            self.last += job.get_return_value()
        except RuntimeError:
            pass
    return self.last
