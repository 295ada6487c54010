# drafted from reviewed code, parsed and never executed
import xboa.hit
from xboa.hit.factory._hit_factory_base import HitFactoryBase

@spec("xboa.hit.factory._hit_factory_base:HitFactoryBase.__init__", props="P11")
def ref_HitFactoryBase_init(self):
    pass

@spec("xboa.hit.factory._hit_factory_base:HitFactoryBase.make_hit", props="P11")
def ref_HitFactoryBase_make_hit(self):
    raise NotImplementedError('make_hit not implemented')

@spec("xboa.hit.factory._hit_factory_base:HitFactoryBase.hit_generator", props="P11")
def ref_HitFactoryBase_hit_generator(self):
    while True:
        try:
            hit = self.make_hit()
        except (EOFError, xboa.hit.BadEventError):
            try:
                self.new_spill()
                hit = self.make_hit()
            except (EOFError, IndexError, xboa.hit.BadEventError):
                return
        yield hit

@spec("xboa.hit.factory._hit_factory_base:HitFactoryBase.new_spill", props="P11")
def ref_HitFactoryBase_new_spill(self):
    pass

@spec("xboa.hit.factory._hit_factory_base:HitFactoryBase.bad_pid", props="P11")
def ref_HitFactoryBase_bad_pid(cls, pid):
    if pid not in cls.bad_pids:
        cls.bad_pids.append(pid)
