"""Contracts of the Hit class (parsed, never executed)."""
import math
import copy
import numpy
import json
import xboa.common as Common
import xboa.common.config as config
import xboa.hit.factory
from xboa.hit._hit import Hit
from xboa.core import Hitcore

PROPS = ["P02"]


@spec("xboa.hit._hit:Hit.get_p")
def get_p(self):
    return math.sqrt(self['px']**2 + self['py']**2 + self['pz']**2)


@spec("xboa.hit._hit:Hit.get_r")
def get_r(self):
    return math.sqrt(self['x']**2 + self['y']**2)


@spec("xboa.hit._hit:Hit.get_phi")
def get_phi(self):
    return math.atan2(self['y'], self['x'])


@spec("xboa.hit._hit:Hit.get_pt")
def get_pt(self):
    return math.sqrt(self['px']**2 + self['py']**2)


@spec("xboa.hit._hit:Hit.get_pphi")
def get_pphi(self):
    return math.atan2(self['py'], self['px'])


@spec("xboa.hit._hit:Hit.get_r_squared")
def get_r_squared(self):
    return self['x']**2 + self['y']**2


@spec("xboa.hit._hit:Hit.get_xP")
def get_xP(self):
    return self['px']/self['pz']


@spec("xboa.hit._hit:Hit.get_yP")
def get_yP(self):
    return self['py']/self['pz']


@spec("xboa.hit._hit:Hit.get_tP")
def get_tP(self):
    return -self['energy']/self['pz']


@spec("xboa.hit._hit:Hit.get_rP")
def get_rP(self):
    return self['pt']/self['pz']


@spec("xboa.hit._hit:Hit.get_spin")
def get_spin(self):
    return math.sqrt(self['sx']**2 + self['sy']**2 + self['sz']**2)


@spec("xboa.hit._hit:Hit.get_ct")
def get_ct(self):
    return self['t']*Common.constants['c_light']


@spec("xboa.hit._hit:Hit.get_ek")
def get_ek(self):
    return self['energy'] - self['mass']


@spec("xboa.hit._hit:Hit.get_l_kin")
def get_l_kin(self):
    return self['x']*self['py'] - self['y']*self['px']


@spec("xboa.hit._hit:Hit.get_weight", props="P02 P06")
def get_weight(self):
    return self['global_weight']*self['local_weight']


@spec("xboa.hit._hit:Hit.get_local_weight", props="P06")
def get_local_weight(self):
    return self['local_weight']


@spec("xboa.hit._hit:Hit.get_global_weight", props="P06")
def get_global_weight(self):
    return self['global_weight']


@spec("xboa.hit._hit:Hit.set_local_weight", props="P06")
def set_local_weight(self, value):
    self['local_weight'] = value


@spec("xboa.hit._hit:Hit.set_global_weight", props="P06")
def set_global_weight(self, value):
    self['global_weight'] = value


@spec("xboa.hit._hit:Hit.clear_global_weights", props="P06", io=True)
def clear_global_weights():
    Hitcore.clear_global_weights()


@spec("xboa.hit._hit:Hit.delete_global_weights", props="P06")
def delete_global_weights():
    raise NotImplementedError("deprecated")


@spec("xboa.hit._hit:Hit.set_ek")
def set_ek(self, value):
    self['energy'] = value + self['mass']


@spec("xboa.hit._hit:Hit.set_ct")
def set_ct(self, value):
    self['t'] = value/Common.constants['c_light']


@spec("xboa.hit._hit:Hit.set_p")
def set_p(self, value):
    p = self.get_p()
    if p == 0:
        self['pz'] = 1.
    scale = value/self.get_p()
    self['px'] = self['px']*scale
    self['py'] = self['py']*scale
    self['pz'] = self['pz']*scale


@spec("xboa.hit._hit:Hit.set_xP")
def set_xP(self, value):
    if abs(self['pz']) < 1e-9:
        raise FloatingPointError('pz is 0')
    self['px'] = value*self['pz']


@spec("xboa.hit._hit:Hit.set_yP")
def set_yP(self, value):
    if abs(self['pz']) < 1e-9:
        raise FloatingPointError('pz is 0')
    self['py'] = value*self['pz']


@spec("xboa.hit._hit:Hit.set_tP")
def set_tP(self, value):
    if abs(self['pz']) < 1e-9:
        raise FloatingPointError('pz is 0')
    energy = -value*self['pz']
    pz = self['pz']
    if pz < 0:
        self['pz'] = -pz
        energy = -energy
    self['energy'] = energy
    if energy < self['mass']:
        raise FloatingPointError('energy less than mass')


@spec("xboa.hit._hit:Hit.mass_shell_condition", props="P03")
def mass_shell_condition(self, variable, tolerance=1.e-6):
    if variable == '':
        return None
    px = self['px']
    py = self['py']
    pz = self['pz']
    e = self['energy']
    m = self['mass']
    if variable == 'p':
        if e**2 - m**2 < 0:
            self['p'] = 0.
            return False
        self['p'] = math.sqrt(e**2 - m**2)
        return True
    if variable == 'energy':
        self['energy'] = math.sqrt(m**2 + px**2 + py**2 + pz**2)
        return True
    if variable == 'px':
        val = e**2 - m**2 - py**2 - pz**2
        if val > tolerance:
            self['px'] = abs(val)**1.5/val
            return True
        self['px'] = 0.
        return False
    if variable == 'py':
        val = e**2 - m**2 - px**2 - pz**2
        if val > tolerance:
            self['py'] = abs(val)**1.5/val
            return True
        self['py'] = 0.
        return False
    if variable == 'pz':
        val = e**2 - m**2 - px**2 - py**2
        if val > tolerance:
            self['pz'] = abs(val)**1.5/val
            return True
        self['pz'] = 0.
        return False
    raise IndexError('unknown variable')


@spec("xboa.hit._hit:Hit.check", props="P03")
def check(self, tolerance=1e-3):
    pid = self['pid']
    masses = Common.pdg_pid_to_mass
    if abs(pid) not in masses and pid not in Hit._Hit__bad_pids and pid != 0:
        return False
    if abs(pid) in masses:
        if abs(self['mass'] - masses[abs(pid)]) > tolerance:
            return False
    if abs(round(self['p']**2 + self['mass']**2)
           - round(self['energy']**2)) > tolerance:
        return False
    return True


@spec("xboa.hit._hit:Hit.get", props="P02 P19")
def get(self, key):
    try:
        return self._Hit__hitcore.get(key)
    except Exception:
        pass
    if key in self._Hit__get_variables:
        return self._Hit__get_variables[key](self)
    raise IndexError('unknown key')


@spec("xboa.hit._hit:Hit.__getitem__", props="P02")
def getitem(self, key):
    return self[key]


@spec("xboa.hit._hit:Hit.__setitem__", props="P02", value=False)
def setitem(self, key, value):
    self[key] = value


@spec("xboa.hit._hit:Hit.dict_from_hit", props="P05")
def dict_from_hit(self):
    out = {}
    for key in self._Hit__hitcore.set_variables():
        out[key] = self._Hit__hitcore.get(key)
    return out


@spec("xboa.hit._hit:Hit.new_from_dict", props="P05 P03")
def new_from_dict(values, mass_shell_string=''):
    hit = Hit()
    for k, v in values.items():
        if k != 'global_weight':
            hit[k] = v
    if 'global_weight' in values:
        hit['global_weight'] = values['global_weight']
    if mass_shell_string != '':
        hit.mass_shell_condition(mass_shell_string)
    return hit


@spec("xboa.hit._hit:Hit.__repr__", props="P05")
def hit_repr(self):
    return 'Hit.new_from_dict(' + repr(self.dict_from_hit()) + ')'


@spec("xboa.hit._hit:Hit.__copy__", props="P05")
def hit_copy(self):
    return self


@spec("xboa.hit._hit:Hit.copy", props="P05")
def hit_copy2(self):
    return self


@spec("xboa.hit._hit:Hit.__deepcopy__", props="P05 P18")
def hit_deepcopy(self, target):
    return Hit.new_from_dict(self.dict_from_hit())


@spec("xboa.hit._hit:Hit.deepcopy", props="P05 P18")
def hit_deepcopy2(self):
    return copy.deepcopy(self)


@spec("xboa.hit._hit:Hit.__getstate__", props="P05")
def hit_getstate(self):
    return self.dict_from_hit()


@spec("xboa.hit._hit:Hit.__setstate__", props="P05")
def hit_setstate(self, state):
    self.__init__()
    for k, v in state.items():
        if k != 'global_weight':
            self[k] = v
    if 'global_weight' in state:
        self['global_weight'] = state['global_weight']


@spec("xboa.hit._hit:Hit.__eq__", props="P05")
def hit_eq(self, target, float_tolerance=1e-9):
    if type(self) != type(target):
        return False
    for key in self._Hit__hitcore.get_variables():
        if abs(self._Hit__hitcore.get(key) - target._Hit__hitcore.get(key)) \
                > float_tolerance:
            return False
    return True


@spec("xboa.hit._hit:Hit.__ne__", props="P05")
def hit_ne(self, target, float_tolerance=1e-9):
    return not self.__eq__(target, float_tolerance)


@spec("xboa.hit._hit:Hit.get_vector", props="P04")
def get_vector(self, variables, origin_dict={}):
    values = []
    for key in variables:
        if key in origin_dict:
            values.append(self[key] - origin_dict[key])
        else:
            values.append(self[key] - 0.)
    return numpy.matrix(numpy.array(values))


@spec("xboa.hit._hit:Hit.translate", props="P04")
def translate(self, translation_dict, mass_shell_string):
    for k, v in translation_dict.items():
        self[k] = v + self[k]
    self.mass_shell_condition(mass_shell_string)


@spec("xboa.hit._hit:Hit.abelian_transformation", props="P04 P18")
def abelian_transformation(self, rotation_list, rotation_matrix,
                           translation_dict={}, origin_dict={},
                           mass_shell_variable=''):
    vector = self.get_vector(rotation_list).transpose()
    origin = copy.deepcopy(origin_dict)
    trans = copy.deepcopy(translation_dict)
    for key in rotation_list:
        if key not in origin:
            origin[key] = 0
        if key not in trans:
            trans[key] = 0
    for i in range(len(rotation_list)):
        vector[i, 0] -= origin[rotation_list[i]]
    vector = rotation_matrix*vector
    for i in range(len(rotation_list)):
        key = rotation_list[i]
        self[key] = float(vector[i, 0] + trans[key] + origin[key])
    self.mass_shell_condition(mass_shell_variable)
    return self


@spec("xboa.hit._hit:Hit.mass_shell_variables", props="P03")
def mass_shell_variables():
    return ['', 'p', 'px', 'py', 'pz', 'energy']
