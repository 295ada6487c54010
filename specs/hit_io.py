# drafted from reviewed code, parsed and never executed
import copy
import xboa.common as Common
import xboa.common.config as config
import math
import gzip
import warnings
import array
import json
from xboa.core import Hitcore
import xboa.hit.factory
import numpy
from numpy import matrix
from xboa.hit._hit import BadEventError
from xboa.hit._hit import Hit

@spec("xboa.hit._hit:BadEventError.__init__", props="P02")
def ref_BadEventError_init(self, value):
    self.value = value

@spec("xboa.hit._hit:BadEventError.__str__", props="P11")
def ref_BadEventError_str(self):
    return repr(self.value)

@spec("xboa.hit._hit:Hit.__init__", props="P02")
def ref_Hit_init(self):
    self.__hitcore = Hitcore()

@spec("xboa.hit._hit:Hit.__del__", props="P02")
def ref_Hit_del(self):
    del self.__hitcore

@spec("xboa.hit._hit:Hit.new_from_read_builtin", props="P11")
def ref_Hit_new_from_read_builtin(format, filehandle):
    if format == 'opal_loss':
        return xboa.hit.factory.OpalHitFactory(Hit.__opal_pid, Hit.__opal_probes, Hit.__opal_ignore_probes, filehandle).make_hit()
    else:
        return xboa.hit.factory.BuiltinHitFactory(format, filehandle).make_hit()

@spec("xboa.hit._hit:Hit.new_from_read_user", props="P11")
def ref_Hit_new_from_read_user(format_list, format_units_dict, filehandle, mass_shell_condition=''):
    return xboa.hit.factory.UserHitFactory(format_list, format_units_dict, filehandle, mass_shell_condition).make_hit()

@spec("xboa.hit._hit:Hit.new_list_from_maus_root", props="P11")
def ref_Hit_new_list_from_maus_root(cls, format, root_tree, entry_number=0):
    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
    hit_list = [hit for hit in fac.hit_generator()]
    return hit_list

@spec("xboa.hit._hit:Hit.new_list_from_maus_json", props="P11")
def ref_Hit_new_list_from_maus_json(cls, format, filehandle):
    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
    hit_list = [hit for hit in fac.hit_generator()]
    return hit_list

@spec("xboa.hit._hit:Hit.set", props="P02")
def ref_Hit_set(self, key, value):
    try:
        self.__hitcore.set(key, value)
        return
    except:
        pass
    if key in self.__set_variables:
        self.__set_variables[key](self, value)
    else:
        raise IndexError("Key '" + str(key) + "' could not be found for Hit.set() - should be one of " + str(Hit.set_variables()))

@spec("xboa.hit._hit:Hit.write_builtin_formatted", props="P08")
def ref_Hit_write_builtin_formatted(self, format, file_handle):
    if format.find('maus') > -1:
        raise IOError("Can't write single maus hits, only lists of hits")
    pid = self.get('pid')
    try:
        if format.find('icool') > -1:
            self.set('pid', Common.pdg_pid_to_icool[pid])
        if format.find('mars') > -1:
            self.set('pid', Common.pdg_pid_to_mars[pid])
        self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
    finally:
        self.set('pid', pid)

@spec("xboa.hit._hit:Hit.write_list_builtin_formatted", props="P08")
def ref_Hit_write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
    if file_type_string not in cls.__file_types:
        raise IOError(f'Did not recognise file type {file_type_string}, should be one of {cls.__file_types}')
    if file_type_string.find('maus_root') > -1:
        raise IOError("Can't write maus_root formats")
    if file_type_string.find('maus') > -1:
        maus_tree = Hit.get_maus_tree(list_of_hits, file_type_string)
        with Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment) as filehandle:
            for spill_number, item in enumerate(maus_tree):
                item['maus_event_type'] = 'Spill'
                item['spill_number'] = spill_number
                print(json.dumps(item), file=filehandle)
        return
    sort_key = lambda hit: hit['station']
    list_of_hits = sorted(list_of_hits, key=sort_key)
    with Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment) as filehandle:
        for hit_out in list_of_hits:
            try:
                hit_out.write_builtin_formatted(file_type_string, filehandle)
            except Exception:
                pass
    return

@spec("xboa.hit._hit:Hit.open_filehandle_for_writing", props="P08")
def ref_Hit_open_filehandle_for_writing(file_type_string, file_name, user_comment=None):
    header = Hit.file_header(file_type_string, user_comment)
    filehandle = open(file_name, 'w')
    try:
        filehandle.write(header)
    except Exception:
        filehandle.close()
        raise
    return filehandle

@spec("xboa.hit._hit:Hit.file_header", props="P08")
def ref_Hit_file_header(file_type_string, user_comment=None):
    if user_comment == None:
        file_header = Hit.__file_headers[file_type_string].replace(str('<user>'), str(Hit.__default_user_string))
    else:
        file_header = Hit.__file_headers[file_type_string].replace(str('<user>'), str(user_comment))
    return file_header

@spec("xboa.hit._hit:Hit.write_user_formatted", props="P08")
def ref_Hit_write_user_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
    self.__write_formatted(format_list, format_units_dict, file_handle, separator)

@spec("xboa.hit._hit:Hit.file_types", props="P08")
def ref_Hit_file_types():
    return Hit.__file_types

@spec("xboa.hit._hit:Hit.get_maus_dict", props="P08")
def ref_Hit_get_maus_dict(self, type_name):
    maus_dict = {}
    three_vec_conversions = Hit.__maus_three_vec_conversions[type_name]
    conversion_dict = Hit.__maus_variable_conversions[type_name]
    for maus_name, xboa_suffix in three_vec_conversions.items():
        maus_dict[maus_name] = {}
        for xyz in ['x', 'y', 'z']:
            maus_dict[maus_name][xyz] = self[xboa_suffix + xyz]
    for maus_key, xboa_key in conversion_dict.items():
        maus_dict[maus_key] = self[xboa_key]
    for key, unit in Hit.__file_units[type_name].items():
        maus_dict[key] /= Common.units[unit]
    return (maus_dict, self['event_number'])

@spec("xboa.hit._hit:Hit.get_maus_tree", props="P08")
def ref_Hit_get_maus_tree(list_of_hits, type_name):
    return Hit.__get_maus_tree_recursive(list_of_hits, [['event_number']] + Hit.__maus_paths[type_name], type_name)

@spec("xboa.hit._hit:Hit.get_variables", props="P01")
def ref_Hit_get_variables():
    return Hit.__get_keys

@spec("xboa.hit._hit:Hit.set_variables", props="P01")
def ref_Hit_set_variables():
    return Hit.__set_keys

@spec("xboa.hit._hit:Hit.set_g4bl_unit", props="P08")
def ref_Hit_set_g4bl_unit(unit):
    reader_units = xboa.hit.factory.BuiltinHitFactory.file_units
    for file_units in [Hit.__file_units, reader_units]:
        for file_type in ['g4beamline_bl_track_file', 'g4beamline_bl_track_file_2']:
            file_units[file_type]['x'] = unit
            file_units[file_type]['y'] = unit
            file_units[file_type]['z'] = unit

@spec("xboa.hit._hit:Hit.__set_from_dict", props="P11")
def ref_Hit_set_from_dict(self, set_dict):
    for k, v in set_dict.items():
        if k != 'global_weight':
            self.set(k, v)
    if 'global_weight' in set_dict:
        self.set('global_weight', set_dict['global_weight'])

@spec("xboa.hit._hit:Hit.__write_formatted", props="P08")
def ref_Hit_write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
    for key in format_list:
        if key == '':
            value = 0
        else:
            value = Hit._default_var_types[key](self.get(key) / Common.units[format_units_dict[key]])
        file_handle.write(str(value) + separator)
    file_handle.write('\n')

@spec("xboa.hit._hit:Hit.__get_maus_root_virtual_hits", props="P11")
def ref_Hit_get_maus_root_virtual_hits(mc_event, track_number):
    hit_list = []
    for i in range(mc_event.GetVirtualHitsSize()):
        maus_hit = mc_event.GetAVirtualHit(i)
        pid = maus_hit.GetParticleId()
        hit_dict = {'pid': pid, 't': maus_hit.GetTime(), 'charge': maus_hit.GetCharge(), 'proper_time': maus_hit.GetProperTime(), 'path_length': maus_hit.GetPathLength(), 'station': maus_hit.GetStationId(), 'x': maus_hit.GetPosition().x(), 'y': maus_hit.GetPosition().y(), 'z': maus_hit.GetPosition().z(), 'px': maus_hit.GetMomentum().x(), 'py': maus_hit.GetMomentum().y(), 'pz': maus_hit.GetMomentum().z(), 'bx': maus_hit.GetBField().x(), 'by': maus_hit.GetBField().y(), 'bz': maus_hit.GetBField().z(), 'ex': maus_hit.GetEField().x(), 'ey': maus_hit.GetEField().y(), 'ez': maus_hit.GetEField().z(), 'particle_number': maus_hit.GetTrackId()}
        hit_dict['mass'] = Common.pdg_pid_to_mass[abs(pid)]
        if hit_dict['pid'] != 0:
            hit_list.append(Hit.new_from_dict(hit_dict, 'energy'))
        else:
            print('Warning - pid 0 detected in maus_root_virtual_hit; hit will not be loaded')
    return hit_list

@spec("xboa.hit._hit:Hit.__get_maus_root_primary_hits", props="P11")
def ref_Hit_get_maus_root_primary_hits(mc_event, track_number):
    maus_hit = mc_event.GetPrimary()
    pid = maus_hit.GetParticleId()
    hit_dict = {'pid': pid, 'energy': maus_hit.GetEnergy(), 't': maus_hit.GetTime(), 'x': maus_hit.GetPosition().x(), 'y': maus_hit.GetPosition().y(), 'z': maus_hit.GetPosition().z(), 'px': maus_hit.GetMomentum().x(), 'py': maus_hit.GetMomentum().y(), 'pz': maus_hit.GetMomentum().z()}
    hit_dict['particle_number'] = 0
    hit_dict['charge'] = Common.pdg_pid_to_charge[abs(pid)]
    hit_dict['mass'] = Common.pdg_pid_to_mass[abs(pid)]
    return [Hit.new_from_dict(hit_dict, 'energy')]

@spec("xboa.hit._hit:Hit.__split_list_by_equality", props="P08")
def ref_Hit_split_list_by_equality(a_list, sort_attribute):
    a_dict = {}
    for item in a_list:
        value = item[sort_attribute]
        if not value in a_dict:
            a_dict[value] = []
        a_dict[value].append(item)
    return list(a_dict.values())

@spec("xboa.hit._hit:Hit.__get_maus_tree_recursive", props="P08")
def ref_Hit_get_maus_tree_recursive(list_of_hits, maus_path, format):
    if len(maus_path) == 1:
        if type(maus_path[0]) == type(''):
            if len(list_of_hits) > 1:
                for hit in list_of_hits:
                    pass
                raise IOError('More than one hit for maus key')
            return {maus_path[0]: list_of_hits[0].get_maus_dict(format)[0]}
        if type(maus_path[0]) == type([]):
            return [hit.get_maus_dict(format)[0] for hit in list_of_hits]
    if type(maus_path[0]) == type([]):
        list_of_hits_new = Hit.__split_list_by_equality(list_of_hits, maus_path[0][0])
        my_output = [Hit.__get_maus_tree_recursive(x, maus_path[1:], format) for x in list_of_hits_new]
        if len(maus_path) == 1:
            output = []
            for out in my_output:
                output += out
        else:
            output = my_output
        return my_output
    if type(maus_path[0]) == type(''):
        return {maus_path[0]: Hit.__get_maus_tree_recursive(list_of_hits, maus_path[1:], format)}

@spec("xboa.hit._hit:Hit.__return_one", props="P02")
def ref_Hit_return_one(self, value=''):
    return 1.0

@spec("xboa.hit._hit:Hit.__do_nothing", props="P02")
def ref_Hit_do_nothing(self, value=''):
    pass

@spec("xboa.hit._hit:Hit.__event_cmp", props="P02")
def ref_Hit_event_cmp(lhs, rhs):
    return (lhs.get('eventNumber') > rhs.get('eventNumber')) - (lhs.get('eventNumber') < rhs.get('eventNumber'))

@spec("xboa.hit._hit:Hit.__station_cmp", props="P02")
def ref_Hit_station_cmp(lhs, rhs):
    return (lhs.get('station') > rhs.get('station')) - (lhs.get('station') < rhs.get('station'))
