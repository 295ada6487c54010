# drafted from reviewed code, parsed and never executed
import sys
import json
import xboa.common as common
import xboa.hit
from xboa.hit.factory import HitFactoryBase
from xboa.hit.factory._maus_json_hit_factory import MausJsonHitFactory

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory.__init__", props="P11")
def ref_MausJsonHitFactory_init(self, file_handle, format):
    if format in self.file_types():
        format = format[10:]
    elif format in self.deprecated_file_types():
        format = format[5:]
    else:
        raise KeyError('Did not recognise format ' + str(format))
    self.fin = file_handle
    self.hits = []
    self.format = format
    self.spill = None

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory.new_spill", props="P11")
def ref_MausJsonHitFactory_new_spill(self):
    found_spill = False
    if len(self.hits) == 0:
        while not found_spill:
            line = self.fin.readline()
            if line == '':
                raise xboa.hit.BadEventError('Reached the end of the file')
            new_line = json.loads(line)
            if 'maus_event_type' in new_line and new_line['maus_event_type'] == 'Spill':
                found_spill = True
                self.spill = new_line
                try:
                    self._read_maus_spill()
                except KeyError:
                    pass

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory.make_hit", props="P11")
def ref_MausJsonHitFactory_make_hit(self):
    try:
        while len(self.hits) == 0:
            self.new_spill()
        hit = self.hits.pop(0)
        return hit
    except IndexError:
        raise xboa.hit.BadEventError('Run out of events')

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory._read_maus_spill", props="P11")
def ref_MausJsonHitFactory_read_maus_spill(self):
    if self.format == 'virtual_hit':
        self._read_virtual_hits()
    elif self.format == 'special_virtual_hit':
        self._read_special_virtual_hits()
    elif self.format == 'primary':
        self._read_primaries()

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory._read_virtual_hits", props="P11")
def ref_MausJsonHitFactory_read_virtual_hits(self):
    for ev, mc_event in enumerate(self.spill['mc_events']):
        for virtual_hit in mc_event['virtual_hits']:
            hit = self.hit_from_maus_object('virtual_hit', virtual_hit, ev)
            hit['spill'] = self.spill['spill_number']
            self.hits.append(hit)

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory._read_special_virtual_hits", props="P11")
def ref_MausJsonHitFactory_read_special_virtual_hits(self):
    for ev, mc_event in enumerate(self.spill['mc_events']):
        for virtual_hit in mc_event['special_virtual_hits']:
            hit = self.hit_from_maus_object('special_virtual_hit', virtual_hit, ev)
            hit['spill'] = self.spill['spill_number']
            self.hits.append(hit)

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory._read_primaries", props="P11")
def ref_MausJsonHitFactory_read_primaries(self):
    for ev, mc_event in enumerate(self.spill['mc_events']):
        hit = self.hit_from_maus_object('primary', mc_event['primary'], ev)
        hit['spill'] = self.spill['spill_number']
        self.hits.append(hit)

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory.hit_from_maus_object", props="P11")
def ref_MausJsonHitFactory_hit_from_maus_object(cls, format, maus_dict, event_number):
    xboa_dict = {}
    three_vec_conversions = cls._maus_three_vec_conversions[format]
    conversion_dict = cls._maus_variable_conversions[format]
    for maus_name, xboa_suffix in three_vec_conversions.items():
        for maus_xyz, value in maus_dict[maus_name].items():
            xboa_dict[xboa_suffix + maus_xyz] = value
    for maus_key, xboa_key in conversion_dict.items():
        xboa_dict[xboa_key] = maus_dict[maus_key]
    xboa_dict['event_number'] = event_number
    if 'mass' not in xboa_dict.keys():
        try:
            xboa_dict['mass'] = common.pdg_pid_to_mass[abs(xboa_dict['pid'])]
        except KeyError:
            xboa_dict['mass'] = 0.0
            cls.bad_pid(xboa_dict['pid'])
    if 'charge' not in xboa_dict.keys():
        try:
            xboa_dict['charge'] = common.pdg_pid_to_charge[xboa_dict['pid']]
        except KeyError:
            xboa_dict['charge'] = 0.0
            cls.bad_pid(xboa_dict['pid'])
    hit = xboa.hit.Hit.new_from_dict(xboa_dict, cls._file_mass_shell[format])
    return hit

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory.file_types", props="P08")
def ref_MausJsonHitFactory_file_types(cls):
    return ['maus_json_virtual_hit', 'maus_json_primary', 'maus_json_special_virtual_hit']

@spec("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory.deprecated_file_types", props="P11")
def ref_MausJsonHitFactory_deprecated_file_types(cls):
    return ['maus_virtual_hit', 'maus_primary']
