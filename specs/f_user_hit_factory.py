# drafted from reviewed code, parsed and never executed
import xboa.common as common
import xboa.hit
from xboa.hit.factory import LineFactoryBase
from xboa.hit.factory._user_hit_factory import UserHitFactory

@spec("xboa.hit.factory._user_hit_factory:UserHitFactory.__init__", props="P11")
def ref_UserHitFactory_init(self, format_list, format_units_dict, filehandle, mass_shell_condition):
    super(LineFactoryBase, self).__init__()
    self.filehandle = filehandle
    self.format_list = format_list
    self.format_units_dict = format_units_dict
    for format in format_list:
        err_str = "Format key '" + str(format) + "' should be one of: "
        for var in xboa.hit.Hit.set_variables():
            err_str += var + ', '
        if format not in xboa.hit.Hit.set_variables():
            raise KeyError(err_str)
        if xboa.hit.Hit._default_var_types[format] == float and format != '':
            if format not in self.format_units_dict:
                raise KeyError('Missing unit for variable ' + format)
            unit = self.format_units_dict[format]
            if unit not in common.units:
                raise KeyError('Could not parse unit ' + str(unit) + ' for variable ' + str(format))
    self.mass_shell_condition = mass_shell_condition

@spec("xboa.hit.factory._user_hit_factory:UserHitFactory.make_hit", props="P11")
def ref_UserHitFactory_make_hit(self):
    hit = self._read_formatted(self.format_list, self.format_units_dict, self.filehandle, self.mass_shell_condition)
    if 'mass' not in self.format_list:
        hit.set('mass', common.pdg_pid_to_mass[abs(hit['pid'])])
    hit.mass_shell_condition(self.mass_shell_condition)
    if 'charge' not in self.format_list:
        hit.set('charge', common.pdg_pid_to_charge[hit['pid']])
    return hit
