# drafted from reviewed code, parsed and never executed
import os
import pickle
import subprocess
from xboa.tracking.tracking_process._tracking_process import TrackingProcess
from xboa.tracking.tracking_process._this_node_process import ThisNodeProcess

@spec("xboa.tracking.tracking_process._this_node_process:ThisNodeProcess.__init__", props="P24")
def ref_ThisNodeProcess_init(self, tracking):
    TrackingProcess.__init__(self, tracking)
    self.proc = None

@spec("xboa.tracking.tracking_process._this_node_process:ThisNodeProcess.start", props="P24")
def ref_ThisNodeProcess_start(self):
    if self.is_alive():
        raise RuntimeError('Attempt to start a process that is already ' + 'started')
    self.proc = subprocess.Popen([self.run_executable, '--out-dir', self.out_dir])
    self.pid = self.proc.pid

@spec("xboa.tracking.tracking_process._this_node_process:ThisNodeProcess.is_alive", props="P24")
def ref_ThisNodeProcess_is_alive(self):
    if self.proc == None:
        return False
    self.exitcode = self.proc.poll()
    return self.exitcode == None

@spec("xboa.tracking.tracking_process._this_node_process:ThisNodeProcess.terminate", props="P24")
def ref_ThisNodeProcess_terminate(self, timeout=None):
    if self.proc == None:
        raise RuntimeError('Attempt to terminate a process before it has ' + 'been started')
    self.proc.terminate()
    self.join(timeout)
    self.exitcode = self.proc.poll()

@spec("xboa.tracking.tracking_process._this_node_process:ThisNodeProcess.kill", props="P24")
def ref_ThisNodeProcess_kill(self, timeout=None):
    if self.proc == None:
        raise RuntimeError('Attempt to terminate a process before it has ' + 'been started')
    self.proc.kill()
    self.join(timeout)
    self.exitcode = self.proc.poll()
