# drafted from reviewed code, parsed and never executed
import xboa.common as common
import xboa.hit
from xboa.hit.factory import HitFactoryBase
from xboa.hit.factory._line_factory_base import LineFactoryBase

@spec("xboa.hit.factory._line_factory_base:LineFactoryBase.__init__", props="P11")
def ref_LineFactoryBase_init(self):
    super(LineFactoryBase, self).__init__()

@spec("xboa.hit.factory._line_factory_base:LineFactoryBase.make_hit", props="P11")
def ref_LineFactoryBase_make_hit(self):
    raise NotImplementedError('read_hit not implemented')

@spec("xboa.hit.factory._line_factory_base:LineFactoryBase._read_formatted", props="P11")
def ref_LineFactoryBase_read_formatted(cls, format_list, format_units_dict, file_handle, mass_shell_condition):
    try:
        line = next(file_handle)
    except StopIteration:
        raise EOFError('End of file reached')
    words = line.split()
    words.reverse()
    if not len(words) == len(format_list):
        raise xboa.hit.BadEventError('Read operation failed with line ' + str(line))
    values = {}
    for key in format_list:
        value = words.pop()
        if key != '':
            try:
                value = xboa.hit.Hit._default_var_types[key](value)
            except ValueError:
                value = float(value)
                value = xboa.hit.Hit._default_var_types[key](value)
            if xboa.hit.Hit._default_var_types[key] == float:
                value *= common.units[format_units_dict[key]]
            values[key] = value
    return xboa.hit.Hit.new_from_dict(values)
