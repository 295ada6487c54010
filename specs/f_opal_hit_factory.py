# drafted from reviewed code, parsed and never executed
import xboa.common as common
import xboa.hit
from xboa.hit.factory import LineFactoryBase
from xboa.hit.factory._opal_hit_factory import OpalHitFactory

@spec("xboa.hit.factory._opal_hit_factory:OpalHitFactory.__init__", props="P11")
def ref_OpalHitFactory_init(self, pid, probes, ignore_probes, filehandle):
    super(OpalHitFactory, self).__init__()
    if abs(pid) not in common.pdg_pid_to_mass or pid not in common.pdg_pid_to_charge:
        raise KeyError('Did not recognise pid ' + str(pid))
    self.pid = pid
    self.probes = probes
    self.ignore_probes = ignore_probes
    self.filehandle = filehandle

@spec("xboa.hit.factory._opal_hit_factory:OpalHitFactory.make_hit", props="P11")
def ref_OpalHitFactory_make_hit(self):
    probes = self.probes
    pid = self.pid
    try:
        line = next(self.filehandle)
    except StopIteration:
        raise EOFError('End of file reached')
    words = line.split()
    if words[0] in self.ignore_probes:
        raise xboa.hit.BadEventError('Failed to parse event')
    if not len(words) == 10:
        raise xboa.hit.BadEventError('Failed to parse event')
    if words[0] not in probes.keys():
        probes[words[0]] = len(probes.keys())
    hit_dict = dict(((key, float(words[i + 1])) for i, key in enumerate(['x', 'y', 'z', 'px', 'py', 'pz', 'event_number', 'station', 't'])))
    hit_dict['pid'] = pid
    hit_dict['mass'] = common.pdg_pid_to_mass[abs(pid)]
    hit_dict['charge'] = common.pdg_pid_to_charge[pid]
    hit_dict['station'] = probes[words[0]] + len(probes) * (int(words[8]) - 1)
    for item in ['px', 'py', 'pz']:
        hit_dict[item] *= hit_dict['mass']
    hit = xboa.hit.Hit.new_from_dict(hit_dict)
    hit.mass_shell_condition('energy')
    return hit
