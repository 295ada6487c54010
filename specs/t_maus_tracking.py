# drafted from reviewed code, parsed and never executed
import json
import maus_cpp.globals
import maus_cpp.simulation
from xboa import common
from xboa.common import config
from xboa.hit import Hit
from xboa.tracking._tracking_base import TrackingBase
from xboa.tracking._maus_tracking import MAUSTracking

@spec("xboa.tracking._maus_tracking:MAUSTracking.__init__", props="P23")
def ref_MAUSTracking_init(self, datacards=None, seed=0):
    config.has_maus()
    TrackingBase.__init__(self)
    if type(datacards) == type({}) or type(datacards) == type([]):
        datacards = json.dumps(datacards)
    if datacards != None:
        if maus_cpp.globals.has_instance():
            maus_cpp.globals.death()
        maus_cpp.globals.birth(datacards)
    self.datacards = datacards
    self.random_seed = seed
    self.spill = 0
    self.last = []

@spec("xboa.tracking._maus_tracking:MAUSTracking.track_one", props="P23")
def ref_MAUSTracking_track_one(self, hit):
    return self.track_many([hit])[0]

@spec("xboa.tracking._maus_tracking:MAUSTracking.track_many", props="P23")
def ref_MAUSTracking_track_many(self, list_of_hits):
    primary_list = [self._hit_to_primary(hit) for hit in list_of_hits]
    primary_str = json.dumps(primary_list)
    mc_events_str = maus_cpp.simulation.track_particles(primary_str)
    mc_events = json.loads(mc_events_str)
    self.last = [self._mc_event_to_hit_list(event, i) for i, event in enumerate(mc_events)]
    self.spill += 1
    return self.last

@spec("xboa.tracking._maus_tracking:MAUSTracking._mc_event_to_hit_list", props="P23")
def ref_MAUSTracking_mc_event_to_hit_list(self, mc_event, event_number):
    hit_list = [self._primary_to_xboa_hit(mc_event['primary'], event_number, 1)]
    if 'virtual_hits' in mc_event:
        hit_list += [self._virtual_hit_to_xboa_hit(vhit, event_number) for vhit in mc_event['virtual_hits']]
    return hit_list

@spec("xboa.tracking._maus_tracking:MAUSTracking._virtual_hit_to_xboa_hit", props="P23")
def ref_MAUSTracking_virtual_hit_to_xboa_hit(self, virtual_hit, event):
    hit = Hit()
    pid = virtual_hit['particle_id']
    for key in ('x', 'y', 'z'):
        hit[key] = virtual_hit['position'][key]
        hit['p' + key] = virtual_hit['momentum'][key]
    hit['pid'] = pid
    hit['t'] = virtual_hit['time']
    hit['mass'] = common.pdg_pid_to_mass[abs(pid)]
    hit['charge'] = common.pdg_pid_to_charge[pid]
    hit['particle_number'] = virtual_hit['track_id']
    hit['event_number'] = event
    hit['spill'] = self.spill
    hit['station'] = virtual_hit['station_id']
    hit.mass_shell_condition('energy')
    return hit

@spec("xboa.tracking._maus_tracking:MAUSTracking._primary_to_xboa_hit", props="P23")
def ref_MAUSTracking_primary_to_xboa_hit(self, primary, event, particle):
    hit = Hit()
    pid = primary['particle_id']
    for key in ('x', 'y', 'z'):
        hit[key] = primary['position'][key]
        hit['p' + key] = primary['momentum'][key]
    hit['pid'] = pid
    hit['energy'] = primary['energy']
    hit['t'] = primary['time']
    hit['mass'] = common.pdg_pid_to_mass[abs(pid)]
    hit['charge'] = common.pdg_pid_to_charge[pid]
    hit['particle_number'] = particle
    hit['event_number'] = event
    hit['spill'] = self.spill
    hit['station'] = -1
    return hit

@spec("xboa.tracking._maus_tracking:MAUSTracking._hit_to_primary", props="P23")
def ref_MAUSTracking_hit_to_primary(self, hit):
    primary = {'primary': {'position': {'x': hit['x'], 'y': hit['y'], 'z': hit['z']}, 'momentum': {'x': hit['px'], 'y': hit['py'], 'z': hit['pz']}, 'particle_id': hit['pid'], 'energy': hit['energy'], 'time': hit['t'], 'random_seed': self.random_seed}}
    self.random_seed += 1
    return primary

@spec("xboa.tracking._maus_tracking:MAUSTracking.__getstate__", props="P23")
def ref_MAUSTracking_getstate(self):
    return {'datacards': self.datacards, 'random_seed': self.random_seed, 'spill': self.spill, 'last': self.last}

@spec("xboa.tracking._maus_tracking:MAUSTracking.__setstate__", props="P23")
def ref_MAUSTracking_setstate(self, state):
    datacards = state['datacards']
    random_seed = state['random_seed']
    self.__init__(datacards, random_seed)
    self.spill = state['spill']
    self.last = state['last']
