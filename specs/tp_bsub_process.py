# drafted from reviewed code, parsed and never executed
import os
import pickle
import subprocess
from xboa.tracking.tracking_process._tracking_process import TrackingProcess
from xboa.tracking.tracking_process._bsub_process import BSubProcess

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess.__init__", props="P24")
def ref_BSubProcess_init(self, tracking, queue, job_time):
    if not self.has_bsub():
        raise ImportError('bsub not available on this machine')
    TrackingProcess.__init__(self, tracking, self.scratch_dir)
    self.queue = queue
    self.job_time = job_time
    out_path = os.path.join(self.out_dir, self.pickle_jar)
    with open(out_path, 'wb') as process_out:
        pickle.dump(self, process_out)

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess.start", props="P24")
def ref_BSubProcess_start(self):
    if self.is_alive():
        raise RuntimeError('Attempt to start a process that is already ' + 'started')
    log = os.path.join(self.out_dir, self.std_out)
    err = os.path.join(self.out_dir, self.std_err)
    proc_output = subprocess.check_output(['bsub', '-q', self.queue, '-W', self.job_time, '-o', log, '-e', err, self.run_executable, '--out-dir', self.out_dir], universal_newlines=True)
    start_index = proc_output.find('<') + 1
    end_index = proc_output.find('>')
    self.pid = int(proc_output[start_index:end_index])

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess.is_alive", props="P24")
def ref_BSubProcess_is_alive(self):
    if self.pid == None:
        return False
    proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)], universal_newlines=True)
    status = self._get_substr(proc_output, 'Status <', '>')
    if status in ['PEND', 'RUN', 'WAIT']:
        return True
    self.exitcode = 0
    try:
        self.exitcode = self._get_substr(proc_output, 'exit code ', '.')
    except ValueError:
        pass
    return False

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess.terminate", props="P24")
def ref_BSubProcess_terminate(self, timeout=None):
    self.kill(timeout)

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess.kill", props="P24")
def ref_BSubProcess_kill(self, timeout=None):
    if self.pid == None:
        raise RuntimeError('Attempt to kill process before it has started')
    subprocess.call(['bkill', str(self.pid)])

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess._get_substr", props="P24")
def ref_BSubProcess_get_substr(cls, a_string, start_key, end_key):
    start_index = a_string.find(start_key)
    if start_index < 0:
        raise ValueError('start_key ' + start_key + ' could not be found in ' + 'string ' + a_string)
    a_string = a_string[start_index + len(start_key):]
    end_index = a_string.find(end_key)
    if end_index < 0:
        raise ValueError('end_key ' + end_key + ' could not be found in ' + 'string ' + a_string)
    return a_string[:end_index]

@spec("xboa.tracking.tracking_process._bsub_process:BSubProcess.has_bsub", props="P24")
def ref_BSubProcess_has_bsub(cls):
    try:
        subprocess.call(['bsub', '-h'], stdout=cls.dump_handle, stderr=subprocess.STDOUT)
        return True
    except OSError:
        return False
