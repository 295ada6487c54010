# drafted from reviewed code, parsed and never executed
import xboa.common as common
from xboa.hit.factory import LineFactoryBase
from xboa.hit.factory._builtin_hit_factory import BuiltinHitFactory

@spec("xboa.hit.factory._builtin_hit_factory:BuiltinHitFactory.__init__", props="P11")
def ref_BuiltinHitFactory_init(self, format, filehandle):
    super(LineFactoryBase, self).__init__()
    self.filehandle = filehandle
    self.format = str(format)
    if self.format not in self.file_formats.keys():
        raise KeyError('Did not recognise builtin format ' + self.format + '. Should be one of ' + str(self.file_formats.keys()))

@spec("xboa.hit.factory._builtin_hit_factory:BuiltinHitFactory.make_hit", props="P11")
def ref_BuiltinHitFactory_make_hit(self):
    format = self.format
    hit = self._read_formatted(self.file_formats[format], self.file_units[format], self.filehandle, '')
    if format.find('icool') > -1:
        hit.set('pid', common.icool_pid_to_pdg[hit.get('pid')])
    if format.find('mars') > -1:
        hit.set('pid', common.mars_pid_to_pdg[hit.get('pid')])
    try:
        hit.set('mass', common.pdg_pid_to_mass[abs(hit.get('pid'))])
        hit.mass_shell_condition(self.file_mass_shell[format])
    except KeyError:
        hit.set('mass', 0.0)
        hit.mass_shell_condition(self.file_mass_shell[format])
        if hit.get('pid') not in self.bad_pids:
            self.bad_pids.append(hit.get('pid'))
    if 'charge' not in self.file_formats[format]:
        try:
            hit.set('charge', common.pdg_pid_to_charge[hit.get('pid')])
        except KeyError:
            if hit.get('pid') not in self.bad_pids:
                self.bad_pids.append(hit.get('pid'))
    return hit

@spec("xboa.hit.factory._builtin_hit_factory:BuiltinHitFactory.file_types", props="P08")
def ref_BuiltinHitFactory_file_types(cls):
    return cls.file_formats
