# drafted from reviewed code, parsed and never executed
import os
import tempfile
import pickle
import time
import stat
from xboa.tracking.tracking_process._tracking_process import TrackingProcess

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.__init__", props="P24")
def ref_TrackingProcess_init(self, tracking, tmp_dir='/tmp/tracking'):
    self.pid = None
    self.exitcode = None
    self.return_value = None
    self.hit_list = None
    self.tracking = tracking
    self.tmp_dir = tmp_dir
    self.out_dir = self.new_out_dir()

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.new_out_dir", props="P24")
def ref_TrackingProcess_new_out_dir(self):
    try:
        os.makedirs(self.tmp_dir)
    except OSError:
        pass
    self.out_dir = tempfile.mkdtemp(dir=self.tmp_dir)
    return self.out_dir

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.set_hit_list", props="P24")
def ref_TrackingProcess_set_hit_list(self, hit_list):
    self.hit_list = hit_list
    pickle_path = os.path.join(self.out_dir, self.pickle_jar)
    with open(pickle_path, 'wb') as process_out:
        pickle.dump(self, process_out)

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.start", props="P24")
def ref_TrackingProcess_start(self):
    raise NotImplementedError('A virtual method was called on ' + 'TrackingProcess base class that was not overloaded')

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.is_alive", props="P24")
def ref_TrackingProcess_is_alive(self):
    raise NotImplementedError('A virtual method was called on ' + 'TrackingProcess base class that was not overloaded')

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.terminate", props="P24")
def ref_TrackingProcess_terminate(self, timeout=None):
    raise NotImplementedError('A virtual method was called on ' + 'TrackingProcess base class that was not overloaded')

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.kill", props="P24")
def ref_TrackingProcess_kill(self, timeout=None):
    raise NotImplementedError('A virtual method was called on ' + 'TrackingProcess base class that was not overloaded')

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.run", props="P24")
def ref_TrackingProcess_run(self):
    return self.tracking.track_many(self.hit_list)

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.join", props="P24")
def ref_TrackingProcess_join(self, timeout=None):
    start_time = time.time()
    delta_t = -1
    while self.is_alive() and (timeout == None or delta_t < timeout):
        delta_t = time.time() - start_time

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.get_return_value", props="P24")
def ref_TrackingProcess_get_return_value(self):
    if self.is_alive():
        raise RuntimeError('Cannot get return value while the job is ' + 'running')
    if self.exitcode == None:
        raise RuntimeError('Call tracking_process.start() before trying ' + 'get the return value')
    return_path = os.path.join(self.out_dir, self.pickle_sandwich)
    if not os.path.exists(return_path):
        raise RuntimeError('The TrackingProcess finished without leaving ' + 'a return value')
    with open(return_path, 'rb') as fin:
        self.return_value = pickle.load(fin)
    return self.return_value

@spec("xboa.tracking.tracking_process._tracking_process:TrackingProcess.new_from_pickle", props="P24")
def ref_TrackingProcess_new_from_pickle(cls, pickle_dir):
    with open(os.path.join(pickle_dir, cls.pickle_jar), 'rb') as fin:
        process = pickle.load(fin)
    return process
