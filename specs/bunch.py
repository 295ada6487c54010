# drafted from reviewed code, parsed and never executed
import glob
import string
import copy
import gzip
import io
import operator
import math
import sys
import bisect
import functools
import json
import ROOT
import numpy
import matplotlib
from numpy import matrix
from numpy import linalg
import xboa.common as Common
import xboa.common.config as config
import xboa.hit.factory
from xboa.hit import Hit
from xboa.hit import BadEventError
from xboa.core import Hitcore
from xboa.core import Bunchcore
from xboa.common import rg as rg
from xboa.hit.factory import MausRootReconHitFactory
from xboa.hit.factory import MausRootHitFactory
from xboa.bunch._bunch import Bunch

@spec("xboa.bunch._bunch:Bunch.__init__", props="P12")
def ref_Bunch_init(self):
    self.__hits = []
    self.__bunchcore = Bunchcore()
    self.__covs = None
    self.__means = {}

@spec("xboa.bunch._bunch:Bunch.__str__", props="P05")
def ref_Bunch_str(self):
    return '<Bunch of ' + str(len(self.__hits)) + ' Hits>'

@spec("xboa.bunch._bunch:Bunch.__repr__", props="P05")
def ref_Bunch_repr(self):
    covs = 'None'
    if self.__covs is not None:
        covs = 'numpy.' + repr(self.__covs)
    out = 'Bunch.new_from_hits( ['
    for hit in self.__hits:
        out += str(hit) + ',\n'
    out += '],' + covs + ',' + repr(self.__means) + ')'
    return out

@spec("xboa.bunch._bunch:Bunch.__copy__", props="P05")
def ref_Bunch_copy(self):
    copy = self
    return copy

@spec("xboa.bunch._bunch:Bunch.copy", props="P05")
def ref_Bunch_copy(self):
    return self.__copy__()

@spec("xboa.bunch._bunch:Bunch.__deepcopy__", props="P05 P18")
def ref_Bunch_deepcopy(self, target):
    return Bunch.new_from_hits(self.__hits, self.__covs, self.__means)

@spec("xboa.bunch._bunch:Bunch.deepcopy", props="P05")
def ref_Bunch_deepcopy(self):
    target = Bunch()
    return self.__deepcopy__(target)

@spec("xboa.bunch._bunch:Bunch.__len__", props="P12")
def ref_Bunch_len(self):
    return len(self.__hits)

@spec("xboa.bunch._bunch:Bunch.__getitem__", props="P12")
def ref_Bunch_getitem(self, key):
    return self.__hits[key]

@spec("xboa.bunch._bunch:Bunch.__setitem__", props="P12")
def ref_Bunch_setitem(self, key, value):
    key = range(len(self.__hits))[key]
    self.__bunchcore.set_item(value._Hit__hitcore, key)
    self.__hits[key] = value

@spec("xboa.bunch._bunch:Bunch.__delitem__", props="P12")
def ref_Bunch_delitem(self, key):
    key = range(len(self.__hits))[key]
    self.__bunchcore.del_item(key)
    self.__hits.__delitem__(key)

@spec("xboa.bunch._bunch:Bunch.__del__", props="P12")
def ref_Bunch_del(self):
    for hit in self.__hits:
        del hit
    self.__bunchcore = Bunchcore()

@spec("xboa.bunch._bunch:Bunch.__eq__", props="P05")
def ref_Bunch_eq(self, target, float_tolerance=Common.float_tolerance):
    if type(target) != type(self):
        return False
    if len(self.__hits) != len(target.__hits):
        return False
    if len(self.__means) != len(target.__means):
        return False
    for key, value in self.__means.items():
        if not key in target.__means:
            return False
        if abs(self.__means[key] - target.__means[key]) > float_tolerance:
            return False
    if (self.__covs is None) != (target.__covs is None):
        return False
    if self.__covs is not None:
        if not numpy.array_equal(self.__covs, target.__covs):
            return False
    for index in range(len(self.__hits)):
        if self.__hits[index].__ne__(target.__hits[index], float_tolerance):
            return False
    return True

@spec("xboa.bunch._bunch:Bunch.__ne__", props="P05")
def ref_Bunch_ne(self, target, float_tolerance=Common.float_tolerance):
    return not self.__eq__(target, float_tolerance)

@spec("xboa.bunch._bunch:Bunch.append", props="P12")
def ref_Bunch_append(self, hit):
    self.__bunchcore.set_item(hit._Hit__hitcore, len(self.__hits))
    self.__hits.append(hit)

@spec("xboa.bunch._bunch:Bunch.new_from_hits", props="P12")
def ref_Bunch_new_from_hits(cls, hits_list, covs=None, means={}, weights=[]):
    bunch = Bunch()
    for hit in hits_list:
        new_hit = hit.deepcopy()
        bunch.append(new_hit)
    bunch.__covs = copy.deepcopy(covs)
    bunch.__means = copy.deepcopy(means)
    return bunch

@spec("xboa.bunch._bunch:Bunch.new_dict_from_read_builtin", props="P34")
def ref_Bunch_new_dict_from_read_builtin(cls, file_type_string, file_name, indexing_variable='station', test_function=None):
    bunch = Bunch.new_from_read_builtin(file_type_string, file_name, test_function)
    return bunch.split(indexing_variable)

@spec("xboa.bunch._bunch:Bunch.split", props="P34")
def ref_Bunch_split(self, indexing_variable):
    bunch_dict = {}
    for hit in self.__hits:
        if not hit.check():
            pass
        if not int(hit.get(indexing_variable)) in bunch_dict:
            bunch_dict[int(hit.get(indexing_variable))] = Bunch()
        bunch_dict[int(hit.get(indexing_variable))].append(hit)
    return bunch_dict

@spec("xboa.bunch._bunch:Bunch.new_list_from_read_builtin", props="P34")
def ref_Bunch_new_list_from_read_builtin(cls, file_type_string, file_name, sort_variable='station', test_function=None):
    bunch_dict = Bunch.new_dict_from_read_builtin(file_type_string, file_name, sort_variable, test_function)
    key_list = []
    bunch_list = []
    for key in bunch_dict:
        key_list.append(key)
    key_list.sort()
    for key in key_list:
        bunch_list.append(bunch_dict[key])
    return bunch_list

@spec("xboa.bunch._bunch:Bunch.new_from_read_builtin", props="P34")
def ref_Bunch_new_from_read_builtin(cls, file_type_string, file_name_glob, test_function=None, number_of_hits=-1):
    if not file_type_string in Hit.file_types():
        err_string = 'Attempt to load file of unknown file type ' + str(file_type_string) + ' - try one of ' + str(Hit.file_types())
        raise IOError(err_string)
    file_name_list = glob.glob(file_name_glob)
    if len(file_name_list) == 0:
        raise IOError('Could not find file matching name ' + str(file_name_glob))
    if file_type_string.find('maus_root') > -1:
        hit_list = []
        for file_name in file_name_list:
            hit_list += Bunch.read_maus_root_file(file_name, max(number_of_hits - len(hit_list), 0) if number_of_hits >= 0 else number_of_hits, list_of_maus_types=[file_type_string], test_function=test_function)
        return Bunch.new_from_hits(hit_list)
    elif file_type_string.find('maus_') > -1:
        hit_list = []
        for file_name in file_name_list:
            hit_list += Bunch.read_maus_json_file(file_name, max(number_of_hits - len(hit_list), 0) if number_of_hits >= 0 else number_of_hits, list_of_maus_types=[file_type_string], test_function=test_function)
        return Bunch.new_from_hits(hit_list)
    bunch = Bunch()
    bad_event_counter = 0
    for file_name in file_name_list:
        with Bunch.setup_file(file_type_string, file_name) as filehandle:
            while len(bunch) < number_of_hits or number_of_hits < 0:
                try:
                    hit = Hit.new_from_read_builtin(file_type_string, filehandle)
                except EOFError:
                    break
                except BadEventError:
                    bad_event_counter += 1
                    continue
                if not test_function or test_function(hit):
                    bunch.append(hit)
    if bad_event_counter:
        pass
    return bunch

@spec("xboa.bunch._bunch:Bunch.new_from_read_user", props="P34")
def ref_Bunch_new_from_read_user(cls, format_list, format_units_dict, filehandle, number_of_skip_lines, test_function=None, number_of_hits=-1):
    bunch = Bunch()
    bad_event_counter = 0
    with filehandle:
        for dummy in range(number_of_skip_lines):
            filehandle.readline()
        while len(bunch.__hits) < number_of_hits or number_of_hits < 0:
            try:
                hit = Hit.new_from_read_user(format_list, format_units_dict, filehandle)
            except EOFError:
                break
            except BadEventError:
                bad_event_counter += 1
                continue
            if test_function == None:
                bunch.append(hit)
            elif test_function(hit):
                bunch.append(hit)
    if bad_event_counter:
        pass
    return bunch

@spec("xboa.bunch._bunch:Bunch.new_hit_shell", props="P34")
def ref_Bunch_new_hit_shell(cls, n_per_dimension, ellipse, set_variable_list, mass_shell_variable, defaults={}):
    grid = Common.make_shell(n_per_dimension, ellipse)
    bunch = Bunch()
    for ev, vector in enumerate(grid):
        bunch.append(Hit.new_from_dict(defaults))
        for i, var in enumerate(set_variable_list):
            bunch[-1][var] += vector[0, i]
        bunch[-1]['event_number'] = ev
        bunch[-1].mass_shell_condition(mass_shell_variable)
    return bunch

@spec("xboa.bunch._bunch:Bunch.read_maus_root_file", props="P34")
def ref_Bunch_read_maus_root_file(file_name, number_of_hits=-1, list_of_maus_types=None, test_function=None):
    config.has_maus()
    config.has_root()
    if list_of_maus_types == None:
        list_of_maus_types = MausRootHitFactory.file_types() + MausRootReconHitFactory.file_types()
    hits = []
    root_file = ROOT.TFile(file_name, 'READ')
    try:
        root_tree = root_file.Get('Spill')
        for maus_type in list_of_maus_types:
            if maus_type in MausRootHitFactory.file_types():
                fac = MausRootHitFactory(root_tree, maus_type, 0, test_function)
            elif maus_type in MausRootReconHitFactory.file_types():
                fac = MausRootReconHitFactory(root_tree, maus_type, 0, test_function)
            while number_of_hits < 0 or len(hits) < number_of_hits:
                try:
                    hits.append(fac.make_hit())
                except BadEventError:
                    break
    except AttributeError:
        sys.excepthook(*sys.exc_info())
    finally:
        root_file.Close()
    return hits

@spec("xboa.bunch._bunch:Bunch.read_maus_json_file", props="P34")
def ref_Bunch_read_maus_json_file(file_name, number_of_hits=-1, list_of_maus_types=['maus_json_virtual_hit', 'maus_json_primary', 'maus_json_special_virtual_hit'], test_function=None):
    config.has_json()
    hits = []
    with open(file_name, 'r') as json_file:
        for maus_type in list_of_maus_types:
            json_file.seek(0)
            fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
            while number_of_hits < 0 or len(hits) < number_of_hits:
                try:
                    hit = fac.make_hit()
                except BadEventError:
                    break
                if test_function == None or test_function(hit):
                    hits.append(hit)
    return hits

@spec("xboa.bunch._bunch:Bunch.setup_file", props="P34")
def ref_Bunch_setup_file(file_format_type_string, file_name):
    if not file_format_type_string in Hit.file_types():
        raise KeyError('Could not find filetype ' + file_format_type_string + ' - Options are ' + str(Hit.file_types()))
    number_of_header_lines = Bunch.__number_of_header_lines[file_format_type_string]
    filehandle = open(file_name, 'r')
    try:
        for dummy in range(number_of_header_lines):
            filehandle.readline()
    except Exception:
        filehandle.close()
        raise
    if file_format_type_string == 'g4beamline_bl_track_file' or file_format_type_string == 'g4beamline_bl_track_file_2':
        open_file = filehandle
        filehandle = io.StringIO()
        try:
            line = open_file.readline()
            while len(line) > 0:
                if 'cm cm cm' in line and line[0] == '#':
                    Hit.set_g4bl_unit('cm')
                elif 'mm mm mm' in line and line[0] == '#':
                    Hit.set_g4bl_unit('mm')
                elif line[0] == '#' or line[0] == '\n':
                    pass
                else:
                    filehandle.write(line)
                line = open_file.readline()
        except IOError:
            pass
        finally:
            open_file.close()
        filehandle.seek(0)
    return filehandle

@spec("xboa.bunch._bunch:Bunch.translate", props="P04")
def ref_Bunch_translate(self, dict_variables_values, mass_shell_variable=''):
    for hit in self.__hits:
        hit.translate(dict_variables_values, mass_shell_variable)

@spec("xboa.bunch._bunch:Bunch.abelian_transformation", props="P04")
def ref_Bunch_abelian_transformation(self, rotation_list, rotation_matrix, translation_dict={}, origin_dict={}, mass_shell_variable=''):
    for hit in self.__hits:
        hit.abelian_transformation(rotation_list, rotation_matrix, translation_dict, origin_dict, mass_shell_variable)

@spec("xboa.bunch._bunch:Bunch.transform_to", props="P04")
def ref_Bunch_transform_to(self, transform_list, target_covariances, translation_dict={}, origin_dict={}, mass_shell_variable=''):
    config.has_numpy()
    self_evals, self_evecs = linalg.eigh(self.covariance_matrix(transform_list, origin_dict))
    unite = matrix(numpy.zeros((len(transform_list), len(transform_list))))
    for i in range(len(transform_list)):
        unite[i, i] = self_evals[i] ** 0.5
    unite = linalg.inv(self_evecs * unite)
    target_evals, target_evecs = linalg.eigh(target_covariances)
    ununite = matrix(numpy.zeros((len(transform_list), len(transform_list))))
    for i in range(len(transform_list)):
        ununite[i, i] = target_evals[i] ** 0.5
    ununite = target_evecs * ununite
    transform = ununite * unite
    power = 1.0 / float(len(transform_list))
    transform = transform / abs(linalg.det(transform)) ** power
    self.abelian_transformation(transform_list, transform, translation_dict, origin_dict, mass_shell_variable)

@spec("xboa.bunch._bunch:Bunch.period_transformation", props="P04")
def ref_Bunch_period_transformation(self, offset, frequency, variable='t'):
    for hit in self:
        hit[variable] -= offset
        number_pulses = hit[variable] * frequency + 0.5
        hit[variable] -= math.floor(number_pulses) / frequency

@spec("xboa.bunch._bunch:Bunch.hits", props="P12")
def ref_Bunch_hits(self):
    return self.__hits

@spec("xboa.bunch._bunch:Bunch.get_hits", props="P12 P17")
def ref_Bunch_get_hits(self, variable, value, comparator=operator.eq):
    some_hits = []
    for key in self.__hits:
        if comparator(self.get_hit_variable(key, variable), value):
            some_hits.append(key)
    return some_hits

@spec("xboa.bunch._bunch:Bunch.hit_equality", props="P17")
def ref_Bunch_hit_equality(self, target, float_tolerance=Common.float_tolerance):
    if len(self) != len(target):
        return False
    for i in range(len(self)):
        if self[i] != target[i]:
            return False
    return True

@spec("xboa.bunch._bunch:Bunch.conditional_remove", props="P12")
def ref_Bunch_conditional_remove(self, variable_value_dict, comparator, value_is_nsigma_bool=False):
    for variable, cut_value in variable_value_dict.items():
        if value_is_nsigma_bool:
            cut_value *= self.standard_deviation(variable, self.mean([variable]))
        hit_value_list = self.list_get_hit_variable([variable])[0]
        new_hits = []
        for i in range(len(hit_value_list)):
            if not comparator(hit_value_list[i], cut_value):
                new_hits.append(self.__hits[i])
        self.__hits = new_hits
        self.__bunchcore = Bunchcore()
        for i, value in enumerate(new_hits):
            self.__bunchcore.set_item(value._Hit__hitcore, i)

@spec("xboa.bunch._bunch:Bunch.standard_deviation", props="P13")
def ref_Bunch_standard_deviation(self, variable, variable_mean={}):
    a_variable = variable
    if type(variable) == type([]):
        a_variable = variable[0]
    a_variable_mean = variable_mean
    if type(variable_mean) != type({}):
        a_variable_mean = {a_variable: variable_mean}
    return self.moment([a_variable, a_variable], a_variable_mean) ** 0.5

@spec("xboa.bunch._bunch:Bunch.moment", props="P13")
def ref_Bunch_moment(self, variable_list, variable_mean_dict={}):
    bunch_weight = self.bunch_weight()
    if abs(bunch_weight) < 1e-09:
        raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
    if self.__covs is not None and len(variable_list) == 2:
        axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
        try:
            i1 = axis_list.index(variable_list[0])
            i2 = axis_list.index(variable_list[1])
            return float(self.__covs[i1, i2])
        except ValueError:
            pass
    if variable_mean_dict == {}:
        variable_mean_dict = self.mean(variable_list)
    try:
        moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
        return moment
    except:
        mean_list = []
        for var in variable_list:
            mean_list.append(variable_mean_dict[var])
        moment = 0
        for hit in self.__hits:
            change = 1.0
            for index in range(len(variable_list)):
                change *= self.get_hit_variable(hit, variable_list[index]) - mean_list[index]
            moment += change * hit.get('weight')
        return moment / self.bunch_weight()

@spec("xboa.bunch._bunch:Bunch.mean", props="P13")
def ref_Bunch_mean(self, variable_list):
    variable_mean_dict = {}
    for var in variable_list:
        if not var in variable_mean_dict:
            if not var in self.__means:
                variable_mean_dict[var] = self.moment([var], {var: 0.0})
            else:
                variable_mean_dict[var] = self.__means[var]
    return variable_mean_dict

@spec("xboa.bunch._bunch:Bunch.covariance_matrix", props="P14")
def ref_Bunch_covariance_matrix(self, get_variable_list, origin_dict={}):
    config.has_numpy()
    dim = len(get_variable_list)
    cov = matrix(numpy.zeros((dim, dim)))
    origin_dict1 = copy.deepcopy(origin_dict)
    for var in get_variable_list:
        if not var in origin_dict1:
            origin_dict1[var] = self.mean([var])[var]
    for i1 in range(dim):
        for i2 in range(i1, dim):
            covariance_list = [get_variable_list[i1], get_variable_list[i2]]
            cov[i1, i2] = self.moment(covariance_list, origin_dict1)
            cov[i2, i1] = cov[i1, i2]
    return cov

@spec("xboa.bunch._bunch:Bunch.set_covariance_matrix", props="P14")
def ref_Bunch_set_covariance_matrix(self, use_internal_covariance_matrix=True, covariance_matrix=None, mean_dict={}):
    self.__covs = None
    self.__means = {}
    if use_internal_covariance_matrix:
        if covariance_matrix is None:
            self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
        else:
            self.__covs = covariance_matrix
        if mean_dict == {}:
            self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
        else:
            self.__means = mean_dict

@spec("xboa.bunch._bunch:Bunch.covariances_set", props="P14")
def ref_Bunch_covariances_set(self):
    return self.__covs is not None

@spec("xboa.bunch._bunch:Bunch.means_set", props="P14")
def ref_Bunch_means_set(self):
    return self.__means != {}

@spec("xboa.bunch._bunch:Bunch.bunch_weight", props="P13")
def ref_Bunch_bunch_weight(self):
    weight = 0
    for key in self.__hits:
        weight += key.get('weight')
    return weight

@spec("xboa.bunch._bunch:Bunch.clear_local_weights", props="P06")
def ref_Bunch_clear_local_weights(self):
    for key in self.__hits:
        key.set('local_weight', 1)

@spec("xboa.bunch._bunch:Bunch.clear_global_weights", props="P06")
def ref_Bunch_clear_global_weights():
    Hit.clear_global_weights()

@spec("xboa.bunch._bunch:Bunch.clear_weights", props="P06")
def ref_Bunch_clear_weights(self):
    self.clear_local_weights()
    self.clear_global_weights()

@spec("xboa.bunch._bunch:Bunch.cut", props="P16")
def ref_Bunch_cut(self, variable_value_dict, comparator, value_is_nsigma_bool=False, global_cut=False):
    if global_cut:
        set_var = 'global_weight'
    else:
        set_var = 'local_weight'
    for variable, cut_value in variable_value_dict.items():
        if value_is_nsigma_bool:
            cut_value *= self.moment([variable, variable], self.mean([variable])) ** 0.5
        if variable in Hitcore.get_variables() and type(Hit()[variable]) == type(0.0):
            self.__bunchcore.cut_double(variable, comparator, cut_value, global_cut)
        else:
            self._cut(variable, comparator, cut_value, set_var)

@spec("xboa.bunch._bunch:Bunch._cut", props="P16")
def ref_Bunch_cut(self, variable, comparator, cut_value, set_var):
    hit_value_list = self.list_get_hit_variable([variable])[0]
    for i in range(len(hit_value_list)):
        if comparator(hit_value_list[i], cut_value):
            self.__hits[i].set(set_var, 0)

@spec("xboa.bunch._bunch:Bunch.transmission_cut", props="P16")
def ref_Bunch_transmission_cut(self, test_bunch, global_cut=False, test_variable=['spill', 'event_number', 'particle_number'], float_tolerance=Common.float_tolerance):
    if global_cut:
        wt = 'global_weight'
    else:
        wt = 'local_weight'
    hit_list = [[] for i in range(len(test_bunch))]
    if type(test_variable) == type(''):
        test_variable = [test_variable]
    for i in range(len(test_bunch)):
        for var in test_variable:
            hit_list[i].append(test_bunch[i][var])
    hit_list.sort()
    for hit in self:
        weight = 0
        hit_value = [hit[var] for var in test_variable]
        next_value = bisect.bisect_left(hit_list, hit_value)
        if next_value > -1 and next_value < len(hit_list):
            diff = [abs(hit_list[next_value][i] - hit_value[i]) for i in range(len(hit_value))]
            diff = sum(diff)
            if diff < float_tolerance:
                weight = hit[wt]
        if next_value + 1 < len(hit_list):
            diff = [abs(hit_list[next_value + 1][i] - hit_value[i]) for i in range(len(hit_value))]
            diff = sum(diff)
            if diff < float_tolerance:
                weight = hit[wt]
        hit.set(wt, weight)

@spec("xboa.bunch._bunch:Bunch.get_beta", props="P15")
def ref_Bunch_get_beta(self, axis_list, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    beta = 0.0
    emittance = self.get_emittance(axis_list, None, geometric)
    for axis in axis_list:
        beta += self.moment([axis, axis], self.mean([axis]))
    if not geometric:
        beta *= self.mean(['p'])['p'] / (emittance * self.hits()[0].get('mass') * float(len(axis_list)))
    else:
        beta /= emittance * float(len(axis_list))
    return beta

@spec("xboa.bunch._bunch:Bunch.get_gamma", props="P15")
def ref_Bunch_get_gamma(self, axis_list, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    gamma = 0.0
    emittance = self.get_emittance(axis_list, None, geometric)
    for axis in axis_list:
        mom = self.momentum_variable(axis, geometric)
        gamma += self.moment([mom, mom], self.mean([mom]))
    if not geometric:
        gamma /= self.mean(['p'])['p'] * self.hits()[0].get('mass')
    gamma /= emittance * len(axis_list)
    return gamma

@spec("xboa.bunch._bunch:Bunch.get_alpha", props="P15")
def ref_Bunch_get_alpha(self, axis_list, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    alpha = 0.0
    emittance = self.get_emittance(axis_list, None, geometric)
    for axis in axis_list:
        mom = self.momentum_variable(axis, geometric)
        alpha += self.moment([axis, mom], self.mean([axis, mom]))
    if not geometric:
        alpha /= emittance * self.hits()[0].get('mass') * len(axis_list)
    else:
        alpha /= emittance * len(axis_list)
    return -alpha

@spec("xboa.bunch._bunch:Bunch.get_dispersion", props="P15")
def ref_Bunch_get_dispersion(self, axis):
    return self.moment([axis, 'energy']) * self.mean(['energy'])['energy'] / self.moment(['energy', 'energy'])

@spec("xboa.bunch._bunch:Bunch.get_dispersion_rsquared", props="P15")
def ref_Bunch_get_dispersion_rsquared(self):
    mean_dict = {'r_squared': 0.0, 'energy': 0.0}
    return (self.moment(['r_squared', 'energy'], mean_dict) - (self.moment(['x', 'x']) + self.moment(['y', 'y'])) * self.mean(['energy'])['energy']) * self.mean(['energy'])['energy'] / self.moment(['energy', 'energy'])

@spec("xboa.bunch._bunch:Bunch.get_dispersion_prime", props="P15")
def ref_Bunch_get_dispersion_prime(self, axis, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    mom = Bunch.momentum_variable(axis, geometric)
    return self.moment([mom, 'energy']) * self.mean(['energy'])['energy'] / self.moment(['energy', 'energy'])

@spec("xboa.bunch._bunch:Bunch.get_decoupled_emittance", props="P15")
def ref_Bunch_get_decoupled_emittance(self, coupled_axis_list, emittance_axis_list, covariance_matrix=None, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    coupled_axis_list2 = []
    emit_var = []
    for ax in Bunch.__axis_list:
        if ax in emittance_axis_list:
            emit_var.append(len(coupled_axis_list2))
        if ax in coupled_axis_list or ax in emittance_axis_list:
            coupled_axis_list2.append(ax)
    cov_var_list = Bunch.axis_list_to_covariance_list(coupled_axis_list2, geometric)
    my_cov = copy.deepcopy(covariance_matrix)
    if my_cov is None:
        my_cov = self.__cov_mat_picker(coupled_axis_list2, geometric)
        if my_cov is None:
            my_cov = self.covariance_matrix(cov_var_list)
    evalues, ematrix = numpy.linalg.eig(my_cov)
    ematrix = matrix(ematrix)
    my_cov = matrix(my_cov)
    array_out = []
    for var in emit_var:
        array_out = array_out + [float(evalues[2 * var]), float(evalues[2 * var + 1])]
    cov_out = numpy.diagflat(array_out)
    return self.get_emittance(emittance_axis_list, covariance_matrix=cov_out, geometric=geometric)

@spec("xboa.bunch._bunch:Bunch.get_emittance", props="P15")
def ref_Bunch_get_emittance(self, axis_list, covariance_matrix=None, geometric=None):
    if geometric is None:
        geometric = Bunch.__geometric_momentum
    cov_list = Bunch.axis_list_to_covariance_list(axis_list, geometric)
    my_cov = copy.deepcopy(covariance_matrix)
    if my_cov is None:
        my_cov = self.__cov_mat_picker(axis_list, geometric)
        if my_cov is None:
            my_cov = self.covariance_matrix(cov_list)
    emittance = linalg.det(my_cov) ** (1.0 / len(cov_list))
    if not geometric:
        emittance /= self.__hits[0].get('mass')
    return float(emittance)

@spec("xboa.bunch._bunch:Bunch.get_kinetic_angular_momentum", props="P15")
def ref_Bunch_get_kinetic_angular_momentum(self, rotation_axis_dict={'x': 0, 'y': 0, 'px': 0, 'py': 0, "x'": 0, "y'": 0}):
    if not Bunch.__geometric_momentum:
        return self.moment(['x', 'py'], rotation_axis_dict) - self.moment(['y', 'px'], rotation_axis_dict)
    else:
        return (self.moment(['x', "y'"], rotation_axis_dict) - self.moment(['y', "x'"], rotation_axis_dict)) * self.mean(['pz'])['pz']

@spec("xboa.bunch._bunch:Bunch.get_canonical_angular_momentum", props="P15")
def ref_Bunch_get_canonical_angular_momentum(self, bz=None, field_axis_dict={'x': 0, 'y': 0}, rotation_axis_dict={'x': 0, 'y': 0, 'px': 0, 'py': 0, "x'": 0, "y'": 0}):
    if bz == None:
        bz = self[0]['bz']
    return self.get_kinetic_angular_momentum(rotation_axis_dict) + Common.constants['c_light'] * bz * (self.moment(['x', 'x'], field_axis_dict) + self.moment(['y', 'y'], field_axis_dict)) / 2.0

@spec("xboa.bunch._bunch:Bunch.momentum_variable", props="P15")
def ref_Bunch_momentum_variable(axis_variable, geometric_momentum):
    if not axis_variable in Bunch.__axis_list:
        raise IndexError(str(axis_variable) + ' does not appear to be an axis variable. Options are ' + str(Bunch.get_axes()))
    if type(axis_variable) == int:
        if geometric_momentum:
            return Hit.get_variables()[axis_variable] + "'"
        else:
            return Hit.get_variables()[axis_variable + 4]
    if geometric_momentum:
        return axis_variable + "'"
    elif axis_variable == 't' or axis_variable == 'ct' or axis_variable == 3:
        return 'energy'
    else:
        return 'p' + axis_variable

@spec("xboa.bunch._bunch:Bunch.get_amplitude", props="P15 P17")
def ref_Bunch_get_amplitude(bunch, hit, axis_list, covariance_matrix=None, mean_dict={}, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    cov_list = Bunch.axis_list_to_covariance_list(axis_list, geometric)
    if mean_dict == {}:
        mean_dict = bunch.__mean_picker(axis_list, geometric)
        if mean_dict == {}:
            mean_dict = bunch.mean(cov_list)
    my_vector = hit.get_vector(cov_list, mean_dict)
    my_cov = copy.deepcopy(covariance_matrix)
    if my_cov is None:
        my_cov = bunch.__cov_mat_picker(axis_list, geometric)
        if my_cov is None:
            my_cov = bunch.covariance_matrix(cov_list)
    my_amp = my_vector * linalg.inv(my_cov) * my_vector.T
    return float(my_amp[0, 0]) * bunch.get_emittance(axis_list, my_cov, geometric)

@spec("xboa.bunch._bunch:Bunch.axis_list_to_covariance_list", props="P17")
def ref_Bunch_axis_list_to_covariance_list(axis_list, geometric=None):
    if geometric == None:
        geometric = Bunch.__geometric_momentum
    cov_list = []
    for axis in axis_list:
        cov_list.append(axis)
        cov_list.append(Bunch.momentum_variable(axis, geometric))
    return cov_list

@spec("xboa.bunch._bunch:Bunch.convert_string_to_axis_list", props="P17")
def ref_Bunch_convert_string_to_axis_list(axis_string):
    axis_list = []
    try:
        axis_list = eval(axis_string)
    except:
        axis_list = axis_string.split(' ')
    for key in axis_list:
        if not key in Bunch.__axis_list:
            raise KeyError('Could not resolve ' + str(axis_string) + ' into a list of axes.')
    return axis_list

@spec("xboa.bunch._bunch:Bunch.set_geometric_momentum", props="P15")
def ref_Bunch_set_geometric_momentum(new_value_bool):
    Bunch.__geometric_momentum = new_value_bool

@spec("xboa.bunch._bunch:Bunch.get_geometric_momentum", props="P15")
def ref_Bunch_get_geometric_momentum():
    return Bunch.__geometric_momentum

@spec("xboa.bunch._bunch:Bunch.get_axes", props="P17")
def ref_Bunch_get_axes():
    return Bunch.__axis_list

@spec("xboa.bunch._bunch:Bunch.get_hit_variable", props="P17")
def ref_Bunch_get_hit_variable(self, hit, variable_name, covariance_matrix=None, mean_dict={}):
    if type(variable_name) == str:
        if variable_name.find('amplitude') > -1:
            axis_list = Bunch.convert_string_to_axis_list(variable_name[10:len(variable_name)])
            return Bunch.get_amplitude(self, hit, axis_list, covariance_matrix, mean_dict)
    return hit.get(variable_name)

@spec("xboa.bunch._bunch:Bunch.list_get_hit_variable", props="P17")
def ref_Bunch_list_get_hit_variable(self, list_of_variables, list_of_units=[]):
    values = []
    for dummy in list_of_variables:
        values.append([])
    for i in range(len(list_of_variables)):
        covariance_matrix = None
        mean_dict = None
        var = list_of_variables[i]
        if type(var) is str:
            if var.find('amplitude') > -1:
                axis_list = Bunch.convert_string_to_axis_list(var[10:len(var)])
                covariance_list = Bunch.axis_list_to_covariance_list(axis_list)
                covariance_matrix = self.covariance_matrix(covariance_list)
                mean_dict = self.mean(covariance_list)
        for hit in self.__hits:
            values[i].append(self.get_hit_variable(hit, var, covariance_matrix, mean_dict))
            if not list_of_units == []:
                values[i][-1] /= Common.units[list_of_units[i]]
    return values

@spec("xboa.bunch._bunch:Bunch.get", props="P17")
def ref_Bunch_get(self, variable_string, variable_list):
    if not variable_string in Bunch.__get_dict:
        raise KeyError(variable_string + ' not available. Options are ' + str(Bunch.get_variables()))
    else:
        return self.__get_dict[variable_string](self, variable_list)

@spec("xboa.bunch._bunch:Bunch.list_get", props="P17")
def ref_Bunch_list_get(dict_of_bunches, list_of_variables, list_of_axis_lists):
    values = []
    for dummy in list_of_variables:
        values.append([])
    for key, bunch in dict_of_bunches.items():
        for i in range(len(list_of_variables)):
            values[i].append(bunch.get(list_of_variables[i], list_of_axis_lists[i]))
    Common.multisort(values)
    return values

@spec("xboa.bunch._bunch:Bunch.get_variables", props="P17")
def ref_Bunch_get_variables():
    return Bunch.__get_list

@spec("xboa.bunch._bunch:Bunch.hit_get_variables", props="P17")
def ref_Bunch_hit_get_variables():
    return Hit.get_variables() + ['amplitude x', 'amplitude y', 'amplitude x y', 'amplitude ct', 'amplitude x y ct']

@spec("xboa.bunch._bunch:Bunch.hit_write_builtin", props="P08")
def ref_Bunch_hit_write_builtin(self, file_type_string, file_name, user_comment=None):
    if not file_type_string in Hit.file_types():
        raise IOError('Attempt to write file of unknown file type ' + str(file_type_string) + ' - try one of ' + str(Hit.file_types()))
    Hit.write_list_builtin_formatted(self.__hits, file_type_string, file_name, user_comment)
    return

@spec("xboa.bunch._bunch:Bunch.hit_write_builtin_from_dict", props="P08")
def ref_Bunch_hit_write_builtin_from_dict(dict_of_bunches, file_type_string, file_name, user_comment=None):
    if not file_type_string in Hit.file_types():
        raise IOError('Attempt to write file of unknown file type ' + str(file_type_string) + ' - try one of ' + str(Hit.file_types()))
    all_hits = []
    for key, value in dict_of_bunches.items():
        all_hits += value.hits()
    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)

@spec("xboa.bunch._bunch:Bunch.hit_write_user", props="P08")
def ref_Bunch_hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
    hits = self.__hits
    if not comparator == None:
        hits = sorted(hits, key=functools.cmp_to_key(comparator))
    for hit in hits:
        hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)

@spec("xboa.bunch._bunch:Bunch.build_ellipse_2d", props="P32")
def ref_Bunch_build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
    config.has_numpy()
    cov = matrix(numpy.zeros((2, 2)))
    gamma = (1.0 + alpha ** 2) / beta
    if beta <= 0.0:
        raise ValueError('Beta ' + str(beta) + ' must be positive')
    if emittance <= 0.0:
        raise ValueError('Emittance ' + str(emittance) + ' must be positive')
    if geometric:
        cov[0, 0] = beta * emittance
        cov[1, 0] = -alpha * emittance
        cov[0, 1] = cov[1, 0]
        cov[1, 1] = gamma * emittance
    if not geometric:
        cov[0, 0] = beta * emittance * mass / p
        cov[1, 0] = -alpha * emittance * mass
        cov[0, 1] = cov[1, 0]
        cov[1, 1] = gamma * emittance * mass * p
    return cov

@spec("xboa.bunch._bunch:Bunch.build_MR_ellipse", props="P32")
def ref_Bunch_build_MR_ellipse():
    raise NotImplementedError('Mais-Ripken methods will be released later')

@spec("xboa.bunch._bunch:Bunch.build_ET_ellipse", props="P32")
def ref_Bunch_build_ET_ellipse():
    raise NotImplementedError('Edwards-Teng methods will be released later')

@spec("xboa.bunch._bunch:Bunch.build_ellipse_from_transfer_matrix", props="P32")
def ref_Bunch_build_ellipse_from_transfer_matrix(M):
    raise NotImplementedError('This function not ready yet')

@spec("xboa.bunch._bunch:Bunch.build_penn_ellipse", props="P32")
def ref_Bunch_build_penn_ellipse(emittance_t, mass, beta_t, alpha_t, p, Ltwiddle_t, bz, q):
    if beta_t <= 0.0:
        raise ValueError('Beta ' + str(beta_t) + ' must be positive')
    if emittance_t <= 0.0:
        raise ValueError('Emittance ' + str(emittance_t) + ' must be positive')
    if mass <= 0.0:
        raise ValueError('Mass ' + str(mass) + ' must be positive')
    k = Common.constants['c_light'] * bz / 2.0 / p
    gamma_t = (1 + alpha_t * alpha_t + (beta_t * k - Ltwiddle_t) * (beta_t * k - Ltwiddle_t)) / beta_t
    s_xx = emittance_t * mass * beta_t / p
    s_xpx = -emittance_t * mass * alpha_t
    s_pxpx = emittance_t * mass * p * gamma_t
    s_xpy = -emittance_t * mass * (beta_t * k - Ltwiddle_t) * q
    covariance_matrix = numpy.matrix([[s_xx, s_xpx, 0.0, s_xpy], [s_xpx, s_pxpx, -s_xpy, 0], [0.0, -s_xpy, s_xx, s_xpx], [s_xpy, 0.0, s_xpx, s_pxpx]])
    return covariance_matrix

@spec("xboa.bunch._bunch:Bunch.histogram", props="P29 P33")
def ref_Bunch_histogram(self, x_axis_string, x_axis_units='', y_axis_string='', y_axis_units='', nx_bins=None, ny_bins=None, xmin=None, xmax=None, ymin=None, ymax=None):
    config.has_numpy()
    weights = self.list_get_hit_variable(['weight'], [''])[0]
    x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
    y_bins = None
    if xmin != None:
        xmin *= Common.units[x_axis_units]
    if xmax != None:
        xmax *= Common.units[x_axis_units]
    if ymin != None:
        ymin *= Common.units[y_axis_units]
    if ymax != None:
        ymax *= Common.units[y_axis_units]
    if y_axis_string == '':
        nx_bins, ny_bins, dummy = Common.n_bins(len(x_points), nx_bins, 1)
    else:
        y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
        nx_bins, ny_bins, dummy = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
        y_bins = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
    x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
    return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)

@spec("xboa.bunch._bunch:Bunch.histogram_var_bins", props="P29")
def ref_Bunch_histogram_var_bins(self, x_axis_string, x_bins, x_axis_units='', y_axis_string='', y_bins=None, y_axis_units=''):
    config.has_numpy()
    weights = self.list_get_hit_variable(['weight'], [''])[0]
    x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
    if y_axis_string == '':
        return Common.histogram(x_points, x_bins, weights=weights)
    else:
        y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
        return Common.histogram(x_points, x_bins, y_points, y_bins, weights=weights)

@spec("xboa.bunch._bunch:Bunch.root_histogram", props="P33")
def ref_Bunch_root_histogram(self, x_axis_string, x_axis_units='', y_axis_string='', y_axis_units='', nx_bins=None, ny_bins=None, canvas=None, xmin=None, xmax=None, ymin=None, ymax=None, line_color=rg.line_color, line_style=rg.line_style, line_width=rg.line_width, fill_color=rg.fill_color, stats=rg.stats, hist_title_string='', draw_option=''):
    weights = []
    num_events = float(len(self))
    x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
    if y_axis_string == '' and nx_bins == None:
        nx_bins = int(num_events / 10.0)
    if not y_axis_string == '' and draw_option == '':
        draw_option = 'COL'
        y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
        if nx_bins == None:
            nx_bins = int(num_events ** 0.7 / 10.0)
        if ny_bins == None:
            ny_bins = int(num_events ** 0.7 / 10.0)
    else:
        y_points = []
    for key in self.__hits:
        weights.append(key.get('weight'))
    if not x_axis_units == '':
        x_axis_units = ' [' + x_axis_units + ']'
    if not y_axis_units == '':
        y_axis_units = ' [' + y_axis_units + ']'
    x_name = x_axis_string + x_axis_units
    y_name = y_axis_string + y_axis_units
    num_evts = 0.0
    for hit in self.__hits:
        if abs(hit.get('weight')) > 0.0:
            num_evts += 1.0
    name = x_axis_string
    if not y_axis_string == '':
        name += ':' + y_axis_string
    if canvas == '' or canvas == None:
        canvas = Common.make_root_canvas(name)
    else:
        draw_option += 'same'
        canvas.cd()
    hist = Common.make_root_histogram(name, x_points, x_name, nx_bins, y_points, y_name, ny_bins, weights, xmin, xmax, ymin, ymax, line_color, line_style, line_width, fill_color, stats, hist_title_string)
    hist.SetStats(False)
    hist.Draw(draw_option)
    canvas.Update()
    return (canvas, hist)

@spec("xboa.bunch._bunch:Bunch.root_scatter_graph", props="P33")
def ref_Bunch_root_scatter_graph(self, x_axis_string, y_axis_string, x_axis_units='', y_axis_units='', include_weightless=True, canvas=None, xmin=None, xmax=None, ymin=None, ymax=None, line_color=rg.line_color, line_style=rg.line_style, line_width=rg.line_width, fill_color=rg.graph_fill_color, hist_title_string=''):
    fit_ellipse = False
    x_points = []
    y_points = []
    for hit in self:
        if abs(hit['weight']) > Common.float_tolerance or include_weightless:
            x_points.append(self.get_hit_variable(hit, x_axis_string) / Common.units[x_axis_units])
            y_points.append(self.get_hit_variable(hit, y_axis_string) / Common.units[y_axis_units])
    name = x_axis_string + ':' + y_axis_string
    if not x_axis_units == '':
        x_axis_string += ' [' + x_axis_units + ']'
    if not y_axis_units == '':
        y_axis_string += ' [' + y_axis_units + ']'
    graph = Common.make_root_graph(name, x_points, x_axis_string, y_points, y_axis_string, True, xmin, xmax, ymin, ymax, line_color, line_style, line_width, fill_color, hist_title_string)
    if canvas == '' or canvas == None:
        canvas = Common.make_root_canvas(name)
        graph[0].SetStats(False)
        graph[0].Draw()
    else:
        canvas.cd()
    graph[1].Draw('p')
    if fit_ellipse:
        points = [(x_points[i], y_points[i]) for i in range(len(x_points))]
        mean, cov = Common.fit_ellipse(points, -1.0, self.list_get_hit_variable(['weight'])[0], 1, True)
        func = Common.make_root_ellipse_function(mean, cov, [1.0], graph[0].GetXaxis().GetXmin(), graph[0].GetXaxis().GetXmax(), graph[0].GetYaxis().GetXmin(), graph[0].GetYaxis().GetXmax())
        func.Draw('SAME')
        Common._common._function_persistent.append(func)
    canvas.Update()
    return (canvas, graph[0], graph[1])

@spec("xboa.bunch._bunch:Bunch.root_graph", props="P33")
def ref_Bunch_root_graph(bunches, x_axis_string, x_axis_list, y_axis_string, y_axis_list, x_axis_units='', y_axis_units='', canvas='', comparator=None, xmin=None, xmax=None, ymin=None, ymax=None, line_color=rg.line_color, line_style=rg.line_style, line_width=rg.line_width, fill_color=rg.graph_fill_color, hist_title_string=''):
    x_points = []
    y_points = []
    list_of_bunches = []
    try:
        list_of_bunches = list(bunches.values())
    except:
        list_of_bunches = bunches
    if comparator != None:
        list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
    for i, bunch in enumerate(list_of_bunches):
        try:
            x_points.append(bunch.get(x_axis_string, x_axis_list) / Common.units[x_axis_units])
            y_points.append(bunch.get(y_axis_string, y_axis_list) / Common.units[y_axis_units])
        except Exception:
            if len(x_points) > len(y_points):
                x_points.pop(-1)
            sys.excepthook(*sys.exc_info())
    x_axis_string += '( '
    y_axis_string += '( '
    for value in x_axis_list:
        x_axis_string += value + ' '
    for value in y_axis_list:
        y_axis_string += value + ' '
    x_axis_string += ')'
    y_axis_string += ')'
    name = x_axis_string + ':' + y_axis_string
    if not x_axis_units == '':
        x_axis_string += ' [' + x_axis_units + ']'
    if not y_axis_units == '':
        y_axis_string += ' [' + y_axis_units + ']'
    graph = Common.make_root_graph(name, x_points, x_axis_string, y_points, y_axis_string, comparator == None, xmin, xmax, ymin, ymax, line_color, line_style, line_width, fill_color, hist_title_string)
    if canvas == '' or canvas == None:
        canvas = Common.make_root_canvas(name)
        graph[0].SetStats(False)
        graph[0].Draw()
    else:
        canvas.cd()
    graph[1].Draw('l')
    canvas.Update()
    return (canvas, graph[0], graph[1])

@spec("xboa.bunch._bunch:Bunch.matplot_histogram", props="P33")
def ref_Bunch_matplot_histogram(self, x_axis_string, x_axis_units='', y_axis_string='', y_axis_units='', canvas=None, comparator=None):
    weights = []
    num_evts = 0.0
    for hit in self.__hits:
        if abs(hit.get('weight')) > 0.0:
            num_evts += 1.0
    n_bins = num_evts / 10.0 + 1.0
    x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
    if not y_axis_string == '':
        y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
        n_bins = num_evts ** 0.5 / 10.0 + 1.0
    else:
        y_points = []
    for key in self.__hits:
        weights.append(key.get('weight'))
    if not x_axis_units == '':
        x_axis_units = ' [' + x_axis_units + ']'
    if not y_axis_units == '':
        y_axis_units = ' [' + y_axis_units + ']'
    x_name = x_axis_string + x_axis_units
    y_name = y_axis_string + y_axis_units
    sort = True
    if comparator != None:
        sort = False
    figure = Common.make_matplot_histogram(x_points, x_name, int(n_bins), y_points, y_name, int(n_bins), weight_list=weights)
    return figure

@spec("xboa.bunch._bunch:Bunch.matplot_scatter_graph", props="P33")
def ref_Bunch_matplot_scatter_graph(self, x_axis_string, y_axis_string, x_axis_units='', y_axis_units='', include_weightless=True):
    x_points = []
    y_points = []
    for hit in self:
        if abs(hit['weight']) > Common.float_tolerance or include_weightless:
            x_points.append(self.get_hit_variable(hit, x_axis_string) / Common.units[x_axis_units])
            y_points.append(self.get_hit_variable(hit, y_axis_string) / Common.units[y_axis_units])
    if not x_axis_units == '':
        x_axis_string += ' [' + x_axis_units + '] '
    if not y_axis_units == '':
        y_axis_string += ' [' + y_axis_units + '] '
    graph = Common.make_matplot_scatter(x_points, x_axis_string, y_points, y_axis_string)
    return matplotlib.pyplot.figure(graph)

@spec("xboa.bunch._bunch:Bunch.matplot_graph", props="P33")
def ref_Bunch_matplot_graph(bunches, x_axis_string, x_axis_list, y_axis_string, y_axis_list, x_axis_units='', y_axis_units='', comparator=None):
    x_points = []
    y_points = []
    try:
        list_of_bunches = list(bunches.values())
    except:
        list_of_bunches = bunches
    if comparator != None:
        list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
    for bunch in list_of_bunches:
        x_points.append(bunch.get(x_axis_string, x_axis_list) / Common.units[x_axis_units])
        y_points.append(bunch.get(y_axis_string, y_axis_list) / Common.units[y_axis_units])
    x_axis_string += '( '
    y_axis_string += '( '
    for value in x_axis_list:
        x_axis_string += value + ' '
    for value in y_axis_list:
        y_axis_string += value + ' '
    x_axis_string += ') '
    y_axis_string += ') '
    if not x_axis_units == '':
        x_axis_string += ' [' + x_axis_units + '] '
    if not y_axis_units == '':
        y_axis_string += ' [' + y_axis_units + '] '
    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string)
    return matplotlib.pyplot.figure(graph)

@spec("xboa.bunch._bunch:Bunch.__mean_for_get", props="P17")
def ref_Bunch_mean_for_get(self, variable_list):
    return self.mean(variable_list)[variable_list[0]]

@spec("xboa.bunch._bunch:Bunch.__weight_for_get", props="P17")
def ref_Bunch_weight_for_get(self, variable_list):
    return self.bunch_weight()

@spec("xboa.bunch._bunch:Bunch.__ang_mom_for_get", props="P17")
def ref_Bunch_ang_mom_for_get(self, variable_list):
    return self.get_kinetic_angular_momentum()

@spec("xboa.bunch._bunch:Bunch.__dispersion_for_get", props="P17")
def ref_Bunch_dispersion_for_get(self, variable_list):
    return self.get_dispersion(variable_list[0])

@spec("xboa.bunch._bunch:Bunch.__dispersion_prime_for_get", props="P17")
def ref_Bunch_dispersion_prime_for_get(self, variable_list):
    return self.get_dispersion_prime(variable_list[0])

@spec("xboa.bunch._bunch:Bunch.__cov_mat_picker", props="P14")
def ref_Bunch_cov_mat_picker(self, axis_list, geometric):
    config.has_numpy()
    if self.__covs is None or geometric != Bunch.__geometric_momentum:
        return None
    covs = numpy.zeros((2 * len(axis_list), 2 * len(axis_list)))
    ind = []
    for axis in axis_list:
        ind.append(Bunch.__axis_list.index(axis))
    for i in range(len(ind)):
        for j in range(len(ind)):
            covs[2 * i, 2 * j] = self.__covs[2 * ind[i], 2 * ind[j]]
            covs[2 * i + 1, 2 * j] = self.__covs[2 * ind[i] + 1, 2 * ind[j]]
            covs[2 * i + 1, 2 * j + 1] = self.__covs[2 * ind[i] + 1, 2 * ind[j] + 1]
            covs[2 * i, 2 * j + 1] = self.__covs[2 * ind[i], 2 * ind[j] + 1]
    return covs

@spec("xboa.bunch._bunch:Bunch.__mean_picker", props="P13")
def ref_Bunch_mean_picker(self, var_list, geometric):
    if self.__means == None or self.__means == {}:
        return {}
    means = {}
    all_list = Bunch.axis_list_to_covariance_list(var_list, geometric)
    try:
        for var in all_list:
            means[var] = self.__means[var]
    except:
        return {}
    return means
