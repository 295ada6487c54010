# drafted from reviewed code, parsed and never executed
from xboa.common.root_wrapper import keep_root_object

@spec("xboa.common.root_wrapper:keep_root_object", props="P33")
def ref_keep_root_object(root_object):
    _root_object_persistent.append(root_object)
