# drafted from reviewed code, parsed and never executed
import sys
from xboa.common.utils import require_modules

@spec("xboa.common.utils:require_modules", props="P21")
def ref_require_modules(modules):
    if type(modules) == type(''):
        modules = [modules]
    err_list = []
    for module_name in modules:
        if module_name not in sys.modules:
            err_list.append(module_name)
    if len(err_list):
        raise ImportError(f'Could not find required modules: {str(err_list)}')
