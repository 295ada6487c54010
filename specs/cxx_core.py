"""The reviewed C++ core, lowered by sa/cxx.py (parsed, never executed)."""


@spec("cxx:PyBunchcore_default", props="P12 P19", io=True)
def ref_PyBunchcore_default():
    self = PyBunchcore()
    self.bunchcore_ = None
    return self


@spec("cxx:PyHitcore_default", props="P01 P19", io=True)
def ref_PyHitcore_default():
    self = PyHitcore()
    self.hitcore_ = None
    return self


@spec("cxx:PyWeightContext_default", props="P07 P19", io=True)
def ref_PyWeightContext_default():
    self = PyWeightContext()
    self.cppcontext_ = None
    return self


@spec("cxx:Add_new", props="P07", io=True)
def ref_Add_new():
    self = Add()
    return self


@spec("cxx:Add_operate__WeightContext_WeightContext", props="P07", io=True)
def ref_Add_operate__WeightContext_WeightContext(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_add__WeightContext(wc1, rhs)
    return wc1


@spec("cxx:Add_operate__WeightContext_double", props="P07", io=True)
def ref_Add_operate__WeightContext_double(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_add__double(wc1, rhs)
    return wc1


@spec("cxx:Add_operate__double_WeightContext", props="P07", io=True)
def ref_Add_operate__double_WeightContext(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(rhs)
    WeightContext_add__double(wc1, lhs)
    return wc1


@spec("cxx:Bunchcore_covariance_matrix", props="P12 P14", io=True)
def ref_Bunchcore_covariance_matrix(self, axes, means, covariances):
    n_axes = len(axes)
    if covariances is None:
        return False
    covariances[0] = covariances[0][:n_axes] + [list([0] * n_axes) for row_1 in range(max(0, n_axes - len(covariances[0])))]
    function_vector = [None] * n_axes
    for i in range(n_axes):
        function_vector[i] = Hitcore_get_double_function(axes[i])
        if function_vector[i] is None:
            return False
    mean_vector = [0] * n_axes
    for i_2 in range(n_axes):
        mean_vector[i_2] = means[axes[i_2]] if axes[i_2] in means else 0
    weight_sum = _Bunchcore_bunch_weight(self)
    for i_3 in range(len(self.hitcores_)):
        hc = self.hitcores_[i_3]
        if hc is None:
            continue
        this_weight = Hitcore_total_weight(hc) / weight_sum
        for j in range(n_axes):
            this_value = this_weight * (function_vector[j](hc) - mean_vector[j])
            for k in range(n_axes):
                covariances[0][j][k] += this_value * (function_vector[k](hc) - mean_vector[k])
    return True


@spec("cxx:Bunchcore_cut_double", props="P12 P16", io=True)
def ref_Bunchcore_cut_double(self, cut_variable, comp, cut_value, is_global):
    function = Hitcore_get_double_function(cut_variable)
    if function is None:
        return False
    for i in range(len(self.hitcores_)):
        hc = self.hitcores_[i]
        if hc is None:
            continue
        value = function(hc)
        try:
            comparison = virtual_compare(comp, value, cut_value)
            if comparison == 1:
                if is_global:
                    Hitcore_set_global_weight(hc, 0.0)
                else:
                    Hitcore_set_local_weight(hc, 0.0)
        except std_logic_error:
            return False
    return True


@spec("cxx:Bunchcore_del_item", props="P12", io=True)
def ref_Bunchcore_del_item(self, i):
    if i >= len(self.hitcores_):
        return False
    del self.hitcores_[i]
    return True


@spec("cxx:Bunchcore_get_index_by_power", props="P13", io=True)
def ref_Bunchcore_get_index_by_power(max_size, n_axes):
    current_index = [0] * n_axes
    index_by_power = _Bunchcore_get_index_by_power_recurse(max_size, 0, list(current_index))
    index_by_power.insert(0, list(current_index))
    return index_by_power


@spec("cxx:Bunchcore_get_item", props="P12", io=True)
def ref_Bunchcore_get_item(self, i):
    return self.hitcores_[i]


@spec("cxx:Bunchcore_get_moment", props="P12 P13", io=True)
def ref_Bunchcore_get_moment(self, axes, means, moment):
    if moment is None:
        return False
    function_vector = [None] * len(axes)
    for i in range(len(axes)):
        function_vector[i] = Hitcore_get_double_function(axes[i])
        if function_vector[i] is None:
            return False
    mean_vector = [0] * len(axes)
    for i_2 in range(len(axes)):
        mean_vector[i_2] = means[axes[i_2]] if axes[i_2] in means else 0
    weight_sum = _Bunchcore_bunch_weight(self)
    moment[0] = 0.0
    for i_3 in range(len(self.hitcores_)):
        hc = self.hitcores_[i_3]
        if hc is None:
            continue
        my_moment = Hitcore_total_weight(hc) / weight_sum
        for j in range(len(axes)):
            my_moment *= function_vector[j](hc) - mean_vector[j]
        moment[0] += my_moment
    return True


@spec("cxx:Bunchcore_get_moment_tensor", props="P13", io=True)
def ref_Bunchcore_get_moment_tensor(self, axes, max_size, moments, index_by_power):
    if ((len(axes) == 0 or max_size == 0) or moments is None) or index_by_power is None:
        return False
    n_axes = len(axes)
    function_vector = [None] * n_axes
    for i in range(n_axes):
        function_vector[i] = Hitcore_get_double_function(axes[i])
        if function_vector[i] is None:
            return False
    index_by_power[0] = Bunchcore_get_index_by_power(max_size, n_axes)
    moments[0] = [0.0] * len(index_by_power[0])
    weight_sum = _Bunchcore_bunch_weight(self)
    if abs(weight_sum) < 1e-15:
        return False
    for i_2 in range(len(self.hitcores_)):
        hc = self.hitcores_[i_2]
        if hc is None:
            continue
        powers = [[] for row_1 in range(n_axes)]
        for j in range(n_axes):
            value = function_vector[j](hc)
            powers[j] = [value] * max_size
            powers[j].insert(0, 1.0)
            for k in range(1, max_size + 1):
                powers[j][k] *= powers[j][k - 1]
        this_moments = [Hitcore_total_weight(hc)] * len(index_by_power[0])
        for j_2 in range(len(index_by_power[0])):
            for k_2 in range(n_axes):
                power = index_by_power[0][j_2][k_2]
                this_moments[j_2] *= powers[k_2][power]
            moments[0][j_2] += this_moments[j_2] / weight_sum
    return True


@spec("cxx:Bunchcore_length", props="P12", io=True)
def ref_Bunchcore_length(self):
    return len(self.hitcores_)


@spec("cxx:Bunchcore_new", props="P12", io=True)
def ref_Bunchcore_new():
    self = Bunchcore()
    self.hitcores_ = []
    return self


@spec("cxx:Bunchcore_set_item", props="P12", io=True)
def ref_Bunchcore_set_item(self, i, hit):
    if i >= len(self.hitcores_):
        self.hitcores_ = self.hitcores_[:i + 1] + [None] * max(0, i + 1 - len(self.hitcores_))
    self.hitcores_[i] = hit


@spec("cxx:Divide_new", props="P07", io=True)
def ref_Divide_new():
    self = Divide()
    return self


@spec("cxx:Divide_operate__WeightContext_WeightContext", props="P07", io=True)
def ref_Divide_operate__WeightContext_WeightContext(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_divide__WeightContext(wc1, rhs)
    return wc1


@spec("cxx:Divide_operate__WeightContext_double", props="P07", io=True)
def ref_Divide_operate__WeightContext_double(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_divide__double(wc1, rhs)
    return wc1


@spec("cxx:Divide_operate__double_WeightContext", props="P07", io=True)
def ref_Divide_operate__double_WeightContext(self, lhs, rhs):
    raise std_string()


@spec("cxx:HitId_less", props="P06 P07", io=True)
def ref_HitId_less(self, rhs):
    if self[0] == rhs[0]:
        if self[1] == rhs[1]:
            return self[2] < rhs[2]
        else:
            return self[1] < rhs[1]
    else:
        return self[0] < rhs[0]


@spec("cxx:HitId_new", props="P06 P07", io=True)
def ref_HitId_new(spill, event, particle):
    field_spill_ = spill
    field_event_ = event
    field_particle_ = particle
    return (field_spill_, field_event_, field_particle_)


@spec("cxx:Hitcore_assign", props="P01 P05", io=True)
def ref_Hitcore_assign(self, hc):
    return self


@spec("cxx:Hitcore_bx", props="P01", io=True)
def ref_Hitcore_bx(self):
    return self.bx_


@spec("cxx:Hitcore_by", props="P01", io=True)
def ref_Hitcore_by(self):
    return self.by_


@spec("cxx:Hitcore_bz", props="P01", io=True)
def ref_Hitcore_bz(self):
    return self.bz_


@spec("cxx:Hitcore_charge", props="P01", io=True)
def ref_Hitcore_charge(self):
    return self.charge_


@spec("cxx:Hitcore_clear_global_weights", props="P01 P06", io=True)
def ref_Hitcore_clear_global_weights():
    WeightContext_clearWeights(Hitcore_weightContext)


@spec("cxx:Hitcore_energy", props="P01", io=True)
def ref_Hitcore_energy(self):
    return self.energy_


@spec("cxx:Hitcore_energy_deposited", props="P01", io=True)
def ref_Hitcore_energy_deposited(self):
    return self.energy_deposited_


@spec("cxx:Hitcore_event", props="P01", io=True)
def ref_Hitcore_event(self):
    return self.event_


@spec("cxx:Hitcore_ex", props="P01", io=True)
def ref_Hitcore_ex(self):
    return self.ex_


@spec("cxx:Hitcore_ey", props="P01", io=True)
def ref_Hitcore_ey(self):
    return self.ey_


@spec("cxx:Hitcore_ez", props="P01", io=True)
def ref_Hitcore_ez(self):
    return self.ez_


@spec("cxx:Hitcore_get_double", props="P01", io=True)
def ref_Hitcore_get_double(self, variable, value):
    it = variable
    if it not in Hitcore_get_dbl_map or value is None:
        return False
    getter = Hitcore_get_dbl_map[it]
    value[0] = getter(self)
    return True


@spec("cxx:Hitcore_get_double_function", props="P01", io=True)
def ref_Hitcore_get_double_function(key):
    it = key
    if it not in Hitcore_get_dbl_map:
        return None
    return Hitcore_get_dbl_map[it]


@spec("cxx:Hitcore_get_double_names", props="P01", io=True)
def ref_Hitcore_get_double_names():
    names_a = ['x', 'y', 'z', 't', 'px', 'py', 'pz', 'energy', 'bx', 'by', 'bz', 'ex', 'ey', 'ez', 'sx', 'sy', 'sz', 'path_length', 'proper_time', 'e_dep', 'charge', 'mass', 'local_weight', 'global_weight', '']
    names = [''] * 24
    for i in range(24):
        names[i] = names_a[i]
    return names


@spec("cxx:Hitcore_get_int", props="P01", io=True)
def ref_Hitcore_get_int(self, variable, value):
    it = variable
    if it not in Hitcore_get_int_map or value is None:
        return False
    getter = Hitcore_get_int_map[it]
    value[0] = getter(self)
    return True


@spec("cxx:Hitcore_get_int_names", props="P01", io=True)
def ref_Hitcore_get_int_names():
    names_a = ['spill', 'event_number', 'particle_number', 'station', 'status', 'pid', '']
    names = [''] * 6
    for i in range(6):
        names[i] = names_a[i]
    return names


@spec("cxx:Hitcore_get_names", props="P01", io=True)
def ref_Hitcore_get_names():
    int_names = Hitcore_get_int_names()
    dbl_names = Hitcore_get_double_names()
    dbl_names.extend(int_names)
    return dbl_names


@spec("cxx:Hitcore_global_weight", props="P01 P06", io=True)
def ref_Hitcore_global_weight(self):
    hitid = HitId_new(self.spill_, self.event_, self.particle_)
    wt = WeightContext_getWeight(Hitcore_weightContext, hitid)
    return wt


@spec("cxx:Hitcore_local_weight", props="P01 P06", io=True)
def ref_Hitcore_local_weight(self):
    return self.local_weight_


@spec("cxx:Hitcore_mass", props="P01", io=True)
def ref_Hitcore_mass(self):
    return self.mass_


@spec("cxx:Hitcore_new__", props="P01 P05", io=True)
def ref_Hitcore_new():
    self = Hitcore()
    self.x_ = 0
    self.y_ = 0
    self.z_ = 0
    self.t_ = 0
    self.px_ = 0
    self.py_ = 0
    self.pz_ = 0
    self.energy_ = 0
    self.bx_ = 0
    self.by_ = 0
    self.bz_ = 0
    self.ex_ = 0
    self.ey_ = 0
    self.ez_ = 0
    self.sx_ = 0
    self.sy_ = 0
    self.sz_ = 0
    self.local_weight_ = 1
    self.path_length_ = 0
    self.proper_time_ = 0
    self.energy_deposited_ = 0
    self.charge_ = 0
    self.mass_ = 0
    self.spill_ = 0
    self.event_ = 0
    self.particle_ = 0
    self.station_ = 0
    self.pid_ = 0
    self.status_ = 0
    return self


@spec("cxx:Hitcore_new__Hitcore", props="P01 P05", io=True)
def ref_Hitcore_new__Hitcore(hc):
    self = Hitcore()
    return self


@spec("cxx:Hitcore_particle", props="P01", io=True)
def ref_Hitcore_particle(self):
    return self.particle_


@spec("cxx:Hitcore_path_length", props="P01", io=True)
def ref_Hitcore_path_length(self):
    return self.path_length_


@spec("cxx:Hitcore_pid", props="P01", io=True)
def ref_Hitcore_pid(self):
    return self.pid_


@spec("cxx:Hitcore_proper_time", props="P01", io=True)
def ref_Hitcore_proper_time(self):
    return self.proper_time_


@spec("cxx:Hitcore_px", props="P01", io=True)
def ref_Hitcore_px(self):
    return self.px_


@spec("cxx:Hitcore_py", props="P01", io=True)
def ref_Hitcore_py(self):
    return self.py_


@spec("cxx:Hitcore_pz", props="P01", io=True)
def ref_Hitcore_pz(self):
    return self.pz_


@spec("cxx:Hitcore_set_bx", props="P01", io=True)
def ref_Hitcore_set_bx(self, bx):
    self.bx_ = bx


@spec("cxx:Hitcore_set_by", props="P01", io=True)
def ref_Hitcore_set_by(self, by):
    self.by_ = by


@spec("cxx:Hitcore_set_bz", props="P01", io=True)
def ref_Hitcore_set_bz(self, bz):
    self.bz_ = bz


@spec("cxx:Hitcore_set_charge", props="P01", io=True)
def ref_Hitcore_set_charge(self, charge):
    self.charge_ = charge


@spec("cxx:Hitcore_set_double", props="P01", io=True)
def ref_Hitcore_set_double(self, variable, value):
    it = variable
    if it not in Hitcore_set_dbl_map:
        return False
    setter = Hitcore_set_dbl_map[it]
    setter(self, value)
    return True


@spec("cxx:Hitcore_set_double_names", props="P01", io=True)
def ref_Hitcore_set_double_names():
    names = []
    for it in Hitcore_set_dbl_map:
        names.append(it)
    return names


@spec("cxx:Hitcore_set_energy", props="P01", io=True)
def ref_Hitcore_set_energy(self, energy):
    self.energy_ = energy


@spec("cxx:Hitcore_set_energy_deposited", props="P01", io=True)
def ref_Hitcore_set_energy_deposited(self, energy_deposited):
    self.energy_deposited_ = energy_deposited


@spec("cxx:Hitcore_set_event", props="P01", io=True)
def ref_Hitcore_set_event(self, event):
    self.event_ = event


@spec("cxx:Hitcore_set_ex", props="P01", io=True)
def ref_Hitcore_set_ex(self, ex):
    self.ex_ = ex


@spec("cxx:Hitcore_set_ey", props="P01", io=True)
def ref_Hitcore_set_ey(self, ey):
    self.ey_ = ey


@spec("cxx:Hitcore_set_ez", props="P01", io=True)
def ref_Hitcore_set_ez(self, ez):
    self.ez_ = ez


@spec("cxx:Hitcore_set_global_weight", props="P01 P06", io=True)
def ref_Hitcore_set_global_weight(self, global_weight):
    hitid = HitId_new(self.spill_, self.event_, self.particle_)
    WeightContext_setWeight(Hitcore_weightContext, hitid, global_weight)


@spec("cxx:Hitcore_set_int", props="P01", io=True)
def ref_Hitcore_set_int(self, variable, value):
    it = variable
    if it not in Hitcore_set_int_map:
        return False
    setter = Hitcore_set_int_map[it]
    setter(self, value)
    return True


@spec("cxx:Hitcore_set_int_names", props="P01", io=True)
def ref_Hitcore_set_int_names():
    names = []
    for it in Hitcore_set_int_map:
        names.append(it)
    return names


@spec("cxx:Hitcore_set_local_weight", props="P01 P06", io=True)
def ref_Hitcore_set_local_weight(self, local_weight):
    self.local_weight_ = local_weight


@spec("cxx:Hitcore_set_mass", props="P01", io=True)
def ref_Hitcore_set_mass(self, mass):
    self.mass_ = mass


@spec("cxx:Hitcore_set_names", props="P01", io=True)
def ref_Hitcore_set_names():
    int_names = Hitcore_set_int_names()
    dbl_names = Hitcore_set_double_names()
    dbl_names.extend(int_names)
    return dbl_names


@spec("cxx:Hitcore_set_particle", props="P01", io=True)
def ref_Hitcore_set_particle(self, particle):
    self.particle_ = particle


@spec("cxx:Hitcore_set_path_length", props="P01", io=True)
def ref_Hitcore_set_path_length(self, path_length):
    self.path_length_ = path_length


@spec("cxx:Hitcore_set_pid", props="P01", io=True)
def ref_Hitcore_set_pid(self, pid):
    self.pid_ = pid


@spec("cxx:Hitcore_set_proper_time", props="P01", io=True)
def ref_Hitcore_set_proper_time(self, proper_time):
    self.proper_time_ = proper_time


@spec("cxx:Hitcore_set_px", props="P01", io=True)
def ref_Hitcore_set_px(self, px):
    self.px_ = px


@spec("cxx:Hitcore_set_py", props="P01", io=True)
def ref_Hitcore_set_py(self, py):
    self.py_ = py


@spec("cxx:Hitcore_set_pz", props="P01", io=True)
def ref_Hitcore_set_pz(self, pz):
    self.pz_ = pz


@spec("cxx:Hitcore_set_spill", props="P01", io=True)
def ref_Hitcore_set_spill(self, spill):
    self.spill_ = spill


@spec("cxx:Hitcore_set_station", props="P01", io=True)
def ref_Hitcore_set_station(self, station):
    self.station_ = station


@spec("cxx:Hitcore_set_status", props="P01", io=True)
def ref_Hitcore_set_status(self, status):
    self.status_ = status


@spec("cxx:Hitcore_set_sx", props="P01", io=True)
def ref_Hitcore_set_sx(self, sx):
    self.sx_ = sx


@spec("cxx:Hitcore_set_sy", props="P01", io=True)
def ref_Hitcore_set_sy(self, sy):
    self.sy_ = sy


@spec("cxx:Hitcore_set_sz", props="P01", io=True)
def ref_Hitcore_set_sz(self, sz):
    self.sz_ = sz


@spec("cxx:Hitcore_set_t", props="P01", io=True)
def ref_Hitcore_set_t(self, t):
    self.t_ = t


@spec("cxx:Hitcore_set_x", props="P01", io=True)
def ref_Hitcore_set_x(self, x):
    self.x_ = x


@spec("cxx:Hitcore_set_y", props="P01", io=True)
def ref_Hitcore_set_y(self, y):
    self.y_ = y


@spec("cxx:Hitcore_set_z", props="P01", io=True)
def ref_Hitcore_set_z(self, z):
    self.z_ = z


@spec("cxx:Hitcore_spill", props="P01", io=True)
def ref_Hitcore_spill(self):
    return self.spill_


@spec("cxx:Hitcore_station", props="P01", io=True)
def ref_Hitcore_station(self):
    return self.station_


@spec("cxx:Hitcore_status", props="P01", io=True)
def ref_Hitcore_status(self):
    return self.status_


@spec("cxx:Hitcore_sx", props="P01", io=True)
def ref_Hitcore_sx(self):
    return self.sx_


@spec("cxx:Hitcore_sy", props="P01", io=True)
def ref_Hitcore_sy(self):
    return self.sy_


@spec("cxx:Hitcore_sz", props="P01", io=True)
def ref_Hitcore_sz(self):
    return self.sz_


@spec("cxx:Hitcore_t", props="P01", io=True)
def ref_Hitcore_t(self):
    return self.t_


@spec("cxx:Hitcore_total_weight", props="P01 P06", io=True)
def ref_Hitcore_total_weight(self):
    return self.local_weight_ * Hitcore_global_weight(self)


@spec("cxx:Hitcore_x", props="P01", io=True)
def ref_Hitcore_x(self):
    return self.x_


@spec("cxx:Hitcore_y", props="P01", io=True)
def ref_Hitcore_y(self):
    return self.y_


@spec("cxx:Hitcore_z", props="P01", io=True)
def ref_Hitcore_z(self):
    return self.z_


@spec("cxx:Multiply_new", props="P07", io=True)
def ref_Multiply_new():
    self = Multiply()
    return self


@spec("cxx:Multiply_operate__WeightContext_WeightContext", props="P07", io=True)
def ref_Multiply_operate__WeightContext_WeightContext(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_multiply__WeightContext(wc1, rhs)
    return wc1


@spec("cxx:Multiply_operate__WeightContext_double", props="P07", io=True)
def ref_Multiply_operate__WeightContext_double(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_multiply__double(wc1, rhs)
    return wc1


@spec("cxx:Multiply_operate__double_WeightContext", props="P07", io=True)
def ref_Multiply_operate__double_WeightContext(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(rhs)
    WeightContext_multiply__double(wc1, lhs)
    return wc1


@spec("cxx:Not_new", props="P07", io=True)
def ref_Not_new():
    self = Not()
    return self


@spec("cxx:Not_operate", props="P07", io=True)
def ref_Not_operate(self, lhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_op_not(wc1)
    return wc1


@spec("cxx:PyBunchcore_PyInit__bunchcore", props="P19 P21", io=True)
def ref_PyBunchcore_PyInit__bunchcore():
    global PYERR, PYREF
    PyBunchcore_PyBunchcoreType.tp_new = capi.PyType_GenericNew
    if capi.PyType_Ready(PyBunchcore_PyBunchcoreType) < 0:
        return None
    module = capi.PyModule_Create2(PyBunchcore_bunchcoredef, 1013)
    if module is None:
        return None
    PYREF = PYREF + capi.ref(PyBunchcore_PyBunchcoreType)
    capi.PyModule_AddObject(module, 'Bunchcore', PyBunchcore_PyBunchcoreType)
    if not PyHitcore_import_PyHitcore() != 0:
        if PYERR is None:
            PYERR = 'ImportError'
        PYREF = PYREF - capi.ref(module)
        return None
    bc_dict = capi.PyModule_GetDict(module)
    ceb_c_api = capi.PyCapsule_New(PyBunchcore_create_empty_bunchcore, None, None)
    gbc_c_api = capi.PyCapsule_New(PyBunchcore_get_bunchcore, None, None)
    sbc_c_api = capi.PyCapsule_New(PyBunchcore_set_bunchcore, None, None)
    capi.PyDict_SetItemString(bc_dict, 'C_API_CREATE_EMPTY_BUNCHCORE', ceb_c_api)
    capi.PyDict_SetItemString(bc_dict, 'C_API_GET_BUNCHCORE', gbc_c_api)
    capi.PyDict_SetItemString(bc_dict, 'C_API_SET_BUNCHCORE', sbc_c_api)
    if not _PyBunchcore_setWeightContext():
        PYREF = PYREF - capi.ref(module)
        return None
    return module


@spec("cxx:PyBunchcore_alloc", props="P12 P19 P20", io=True)
def ref_PyBunchcore_alloc(type_, nitems):
    bc = PyBunchcore_default()
    bc.ob_refcnt = 1
    bc.ob_type = type_
    return bc


@spec("cxx:PyBunchcore_covariance_matrix", props="P12 P14 P19", io=True)
def ref_PyBunchcore_covariance_matrix(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['axes', 'means', None]
    py_axes = [capi.undefined]
    py_means = [capi.undefined]
    parsed = capi.PyArg_Parse(args, kwds, 'OO|', ['axes', 'means'])
    py_axes[0] = capi.argument(args, kwds, 0, 'O', 'axes')
    py_means[0] = capi.argument(args, kwds, 1, 'O', 'means')
    if parsed == 0:
        return None
    axes = [[]]
    means = [{}]
    string_conv = _PyCppStringConverter_new()
    double_conv = _PyCppDoubleConverter_new()
    list_conv = _PyCppListToVectorConverter_new__string(string_conv)
    dict_conv = _PyCppDictToMapConverter_new__string_double(string_conv, double_conv)
    if not _PyCppListToVectorConverter_convert__string(list_conv, py_axes[0], axes):
        return None
    if not _PyCppDictToMapConverter_convert__string_double(dict_conv, py_means[0], means):
        return None
    if not _PyBunchcore_setWeightContext():
        return None
    matrix = [[]]
    if not Bunchcore_covariance_matrix(bc, list(axes[0]), dict(means[0]), matrix):
        PYERR = 'ValueError'
        return None
    double_out = _CppPyDoubleConverter_new()
    vec_out = _CppPyVectorToListConverter_new__double(double_out)
    vec_vec_out = _CppPyVectorToListConverter_new__vector_double(vec_out)
    py_list = [capi.undefined]
    if not _CppPyVectorToListConverter_convert__vector_double(vec_vec_out, matrix, py_list):
        return None
    return py_list[0]


@spec("cxx:PyBunchcore_create_empty_bunchcore", props="P12 P19", io=True)
def ref_PyBunchcore_create_empty_bunchcore():
    return PyBunchcore_alloc(PyBunchcore_PyBunchcoreType, 0)


@spec("cxx:PyBunchcore_cut_double", props="P12 P16 P19", io=True)
def ref_PyBunchcore_cut_double(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['cut_variable', 'comparator', 'cut', 'is_global', None]
    py_comparator = [None]
    py_is_global = [None]
    cut_var_c_str = [None]
    cut = [0.0]
    parsed = capi.PyArg_Parse(args, kwds, 'sOdO|', ['cut_variable', 'comparator', 'cut', 'is_global'])
    cut_var_c_str[0] = capi.argument(args, kwds, 0, 's', 'cut_variable')
    py_comparator[0] = capi.argument(args, kwds, 1, 'O', 'comparator')
    cut[0] = capi.argument(args, kwds, 2, 'd', 'cut')
    py_is_global[0] = capi.argument(args, kwds, 3, 'O', 'is_global')
    if parsed == 0:
        return None
    if (cut_var_c_str[0] is None or py_comparator[0] is None) or py_is_global[0] is None:
        PYERR = 'TypeError'
        return None
    if capi.PyCallable_Check(py_comparator[0]) == 0:
        PYERR = 'TypeError'
        return None
    global_flag = capi.PyObject_IsTrue(py_is_global[0])
    if global_flag < 0:
        return None
    is_global = global_flag == 1
    cut_variable = cut_var_c_str[0]
    comp = PythonComparator_new(py_comparator[0])
    if not _PyBunchcore_setWeightContext():
        return None
    is_okay = Bunchcore_cut_double(bc, cut_variable, comp, cut[0], is_global)
    if not is_okay:
        PYERR = 'TypeError'
        return None
    return capi.PyNone


@spec("cxx:PyBunchcore_dealloc", props="P12 P19 P20", io=True)
def ref_PyBunchcore_dealloc(self_):
    if self_ is not None:
        if self_.bunchcore_ is not None:
            capi.delete(self_.bunchcore_)
            self_.bunchcore_ = None
        capi.delete(self_, True)


@spec("cxx:PyBunchcore_del_item", props="P12 P19", io=True)
def ref_PyBunchcore_del_item(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['index', None]
    py_index = [capi.undefined]
    parsed = capi.PyArg_Parse(args, kwds, 'O|', ['index'])
    py_index[0] = capi.argument(args, kwds, 0, 'O', 'index')
    if parsed == 0:
        return None
    index = [capi.undefined]
    if not _PyCppIndexConverter_convert(_PyCppIndexConverter_new__unsignedlong(Bunchcore_length(bc)), py_index[0], index):
        return None
    if not Bunchcore_del_item(bc, index[0]):
        PYERR = 'IndexError'
        return None
    return capi.PyNone


@spec("cxx:PyBunchcore_get_bunchcore", props="P12 P19", io=True)
def ref_PyBunchcore_get_bunchcore(py_bunchcore):
    global PYERR
    bc = py_bunchcore
    if not bc is not None or not bc.bunchcore_ is not None:
        PYERR = 'TypeError'
        return None
    return bc.bunchcore_


@spec("cxx:PyBunchcore_get_item", props="P12 P19", io=True)
def ref_PyBunchcore_get_item(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['index', None]
    py_index = [capi.undefined]
    parsed = capi.PyArg_Parse(args, kwds, 'O|', ['index'])
    py_index[0] = capi.argument(args, kwds, 0, 'O', 'index')
    if parsed == 0:
        return None
    index = [capi.undefined]
    if not _PyCppIndexConverter_convert(_PyCppIndexConverter_new__unsignedlong(Bunchcore_length(bc)), py_index[0], index):
        return None
    hc = Bunchcore_get_item(bc, index[0])
    if hc is None:
        return capi.PyNone
    py_return = PyHitcore_create_empty_hitcore()
    py_hc = py_return
    if py_hc is None:
        PYERR = 'RuntimeError'
        return None
    py_hc.hitcore_ = hc
    return py_return


@spec("cxx:PyBunchcore_index_by_power", props="P13 P19", io=True)
def ref_PyBunchcore_index_by_power(self_, args, kwds):
    global PYERR
    kwlist = ['max_power', 'n_axes', None]
    max_power = [-1]
    n_axes = [-1]
    parsed = capi.PyArg_Parse(args, kwds, 'ii|', ['max_power', 'n_axes'])
    max_power[0] = capi.argument(args, kwds, 0, 'i', 'max_power')
    n_axes[0] = capi.argument(args, kwds, 1, 'i', 'n_axes')
    if parsed == 0:
        return None
    if max_power[0] < 0:
        PYERR = 'ValueError'
        return None
    if n_axes[0] < 1:
        PYERR = 'ValueError'
        return None
    powers = [Bunchcore_get_index_by_power(max_power[0], n_axes[0])]
    size_t_converter = _CppPyIntConverter_new__unsignedlong()
    vec_converter = _CppPyVectorToListConverter_new__unsignedlong(size_t_converter)
    vec_vec_converter = _CppPyVectorToListConverter_new__vector_unsignedlong(vec_converter)
    py_list = [None]
    if not _CppPyVectorToListConverter_convert__vector_unsignedlong(vec_vec_converter, powers, py_list):
        return None
    return py_list[0]


@spec("cxx:PyBunchcore_init", props="P12 P19 P20", io=True)
def ref_PyBunchcore_init(self_, args, kwds):
    global PYERR
    bc = self_
    if bc is None:
        PYERR = 'TypeError'
        return -1
    if bc.bunchcore_ is None:
        bc.bunchcore_ = Bunchcore_new()
    return 0


@spec("cxx:PyBunchcore_length", props="P12 P19", io=True)
def ref_PyBunchcore_length(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    py_length = capi.PyLong_From(Bunchcore_length(bc))
    if py_length is None:
        PYERR = 'RuntimeError'
        return None
    return py_length


@spec("cxx:PyBunchcore_moment", props="P12 P13 P19", io=True)
def ref_PyBunchcore_moment(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['axes', 'means', None]
    py_axes = [capi.undefined]
    py_means = [capi.undefined]
    parsed = capi.PyArg_Parse(args, kwds, 'OO|', ['axes', 'means'])
    py_axes[0] = capi.argument(args, kwds, 0, 'O', 'axes')
    py_means[0] = capi.argument(args, kwds, 1, 'O', 'means')
    if parsed == 0:
        return None
    axes = [[]]
    means = [{}]
    string_conv = _PyCppStringConverter_new()
    double_conv = _PyCppDoubleConverter_new()
    list_conv = _PyCppListToVectorConverter_new__string(string_conv)
    dict_conv = _PyCppDictToMapConverter_new__string_double(string_conv, double_conv)
    if not _PyCppListToVectorConverter_convert__string(list_conv, py_axes[0], axes):
        return None
    if not _PyCppDictToMapConverter_convert__string_double(dict_conv, py_means[0], means):
        return None
    if not _PyBunchcore_setWeightContext():
        return None
    moment = [capi.undefined]
    if not Bunchcore_get_moment(bc, list(axes[0]), dict(means[0]), moment):
        PYERR = 'ValueError'
        return None
    return capi.PyFloat_FromDouble(moment[0])


@spec("cxx:PyBunchcore_moment_tensor", props="P13 P19", io=True)
def ref_PyBunchcore_moment_tensor(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['axes', 'max_power', None]
    py_axes = [capi.undefined]
    max_power = [-1]
    parsed = capi.PyArg_Parse(args, kwds, 'Oi|', ['axes', 'max_power'])
    py_axes[0] = capi.argument(args, kwds, 0, 'O', 'axes')
    max_power[0] = capi.argument(args, kwds, 1, 'i', 'max_power')
    if parsed == 0:
        return None
    if max_power[0] < 0:
        PYERR = 'ValueError'
        return None
    str_conv = _PyCppStringConverter_new()
    list_conv = _PyCppListToVectorConverter_new__string(str_conv)
    axes = [[]]
    if not _PyCppListToVectorConverter_convert__string(list_conv, py_axes[0], axes):
        return None
    index_by_power = [[]]
    moments = [[]]
    if not _PyBunchcore_setWeightContext():
        return None
    ok = Bunchcore_get_moment_tensor(bc, list(axes[0]), max_power[0], moments, index_by_power)
    if not ok:
        PYERR = 'RuntimeError'
        return None
    double_converter = _CppPyDoubleConverter_new()
    vec_converter = _CppPyVectorToListConverter_new__double(double_converter)
    py_list = [None]
    if not _CppPyVectorToListConverter_convert__double(vec_converter, moments, py_list):
        return None
    return py_list[0]


@spec("cxx:PyBunchcore_sequence_length", props="P12 P19", io=True)
def ref_PyBunchcore_sequence_length(self_):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return -1
    return Bunchcore_length(bc)


@spec("cxx:PyBunchcore_set_bunchcore", props="P12 P19", io=True)
def ref_PyBunchcore_set_bunchcore(py_bunchcore, bunchcore):
    bc = py_bunchcore
    if not bc is not None:
        return 0
    bc.bunchcore_ = bunchcore
    return 1


@spec("cxx:PyBunchcore_set_item", props="P12 P19", io=True)
def ref_PyBunchcore_set_item(self_, args, kwds):
    global PYERR
    bc = self_.bunchcore_
    if bc is None:
        PYERR = 'TypeError'
        return None
    kwlist = ['value', 'index', None]
    py_index = [capi.undefined]
    py_hc = [capi.undefined]
    parsed = capi.PyArg_Parse(args, kwds, 'OO|', ['value', 'index'])
    py_hc[0] = capi.argument(args, kwds, 0, 'O', 'value')
    py_index[0] = capi.argument(args, kwds, 1, 'O', 'index')
    if parsed == 0:
        return None
    index = [capi.undefined]
    if not _PyCppIndexConverter_convert(_PyCppIndexConverter_new__(), py_index[0], index):
        return None
    if not PyHitcore_check(py_hc[0]):
        PYERR = 'TypeError'
        return None
    py_hc_alt = py_hc[0]
    Bunchcore_set_item(bc, index[0], py_hc_alt.hitcore_)
    return capi.PyNone


@spec("cxx:PyHitcore_PyInit__hitcore", props="P19 P21", io=True)
def ref_PyHitcore_PyInit__hitcore():
    global PYREF
    SmartPointer_set_context__Hitcore(PyHitcore_hitcore_smartpointer_context)
    PyHitcore_PyHitcoreType.tp_new = capi.PyType_GenericNew
    if capi.PyType_Ready(PyHitcore_PyHitcoreType) < 0:
        return None
    module = capi.PyModule_Create2(PyHitcore_hitcoredef, 1013)
    if module is None:
        return None
    _PyHitcore_update_set_get_maps()
    hc_type = PyHitcore_PyHitcoreType
    PYREF = PYREF + capi.ref(hc_type)
    capi.PyModule_AddObject(module, 'Hitcore', hc_type)
    hc_dict = capi.PyModule_GetDict(module)
    ceh_c_api = capi.PyCapsule_New(PyHitcore_create_empty_hitcore, None, None)
    ghc_c_api = capi.PyCapsule_New(PyHitcore_get_hitcore, None, None)
    shc_c_api = capi.PyCapsule_New(PyHitcore_set_hitcore, None, None)
    check_c_api = capi.PyCapsule_New(PyHitcore_check, None, None)
    spc_c_api = capi.PyCapsule_New(PyHitcore_hitcore_smartpointer_context, None, None)
    capi.PyDict_SetItemString(hc_dict, 'C_API_CREATE_EMPTY_HITCORE', ceh_c_api)
    capi.PyDict_SetItemString(hc_dict, 'C_API_GET_HITCORE', ghc_c_api)
    capi.PyDict_SetItemString(hc_dict, 'C_API_SET_HITCORE', shc_c_api)
    capi.PyDict_SetItemString(hc_dict, 'C_API_CHECK', check_c_api)
    capi.PyDict_SetItemString(hc_dict, 'C_API_SMARTPOINTER_CONTEXT', spc_c_api)
    if not _PyHitcore_setWeightContext__():
        PYREF = PYREF - capi.ref(module)
        return None
    return module


@spec("cxx:PyHitcore__alloc", props="P01 P19 P20", io=True)
def ref_PyHitcore__alloc(type_, nitems):
    hc = PyHitcore_default()
    hc.ob_refcnt = 1
    hc.ob_type = type_
    hc.hitcore_ = None
    return hc


@spec("cxx:PyHitcore__free", props="P01 P19 P20", io=True)
def ref_PyHitcore__free(self_):
    if self_ is not None:
        capi.delete(self_, True)


@spec("cxx:PyHitcore__init", props="P01 P19 P20", io=True)
def ref_PyHitcore__init(self_, args, kwds):
    global PYERR
    hc = self_
    if hc is None:
        PYERR = 'TypeError'
        return -1
    if hc.hitcore_ is None:
        new_hc = Hitcore_new__()
        hc.hitcore_ = new_hc
    return 0


@spec("cxx:PyHitcore__richcompare", props="P05 P19", io=True)
def ref_PyHitcore__richcompare(py_a, py_b, op_enum):
    global PYERR
    if not PyHitcore_check(py_a) or not PyHitcore_check(py_b):
        return capi.PyFalse
    hc_a = py_a
    hc_b = py_b
    is_equal = hc_a.hitcore_ is hc_b.hitcore_
    if op_enum == 2:
        if is_equal:
            return capi.PyTrue
        else:
            return capi.PyFalse
    elif op_enum == 3:
        if is_equal:
            return capi.PyFalse
        else:
            return capi.PyTrue
    else:
        PYERR = 'TypeError'
        return None


@spec("cxx:PyHitcore_check", props="P01 P19", io=True)
def ref_PyHitcore_check(py_hc):
    return py_hc is not None and py_hc.ob_type is PyHitcore_PyHitcoreType


@spec("cxx:PyHitcore_clear_global_weights", props="P06 P19 P20", io=True)
def ref_PyHitcore_clear_global_weights(self_, args, kwds):
    Hitcore_clear_global_weights()
    return capi.PyNone


@spec("cxx:PyHitcore_create_empty_hitcore", props="P01 P19 P20", io=True)
def ref_PyHitcore_create_empty_hitcore():
    return PyHitcore__alloc(PyHitcore_PyHitcoreType, 0)


@spec("cxx:PyHitcore_dump_memory", props="P01 P19", io=True)
def ref_PyHitcore_dump_memory(self_, args, kwds):
    refs = SmartPointer_get_context__Hitcore()
    hc_conv = _CppPyPointerToLongConverter_new__Hitcore()
    size_t_conv = _CppPyIntConverter_new__unsignedlong()
    map_conv = _CppPyMapToDictConverter_new__HitcoreP_unsignedlong(hc_conv, size_t_conv)
    memory = [None]
    if not _CppPyMapToDictConverter_convert__HitcoreP_unsignedlong(map_conv, refs, memory):
        return None
    return memory[0]


@spec("cxx:PyHitcore_get", props="P01 P19", io=True)
def ref_PyHitcore_get(self_, args, kwds):
    global PYERR
    hc = self_
    if hc is None or hc.hitcore_ is None:
        PYERR = 'TypeError'
        return None
    variable_name_c_str = [capi.undefined]
    parsed = capi.PyArg_Parse(args, None, 's', None)
    variable_name_c_str[0] = capi.argument(args, None, 0, 's', None)
    if parsed == 0:
        PYERR = 'KeyError'
        return None
    variable_name = variable_name_c_str[0]
    value_dbl = [0.0]
    if Hitcore_get_double(hc.hitcore_, variable_name, value_dbl):
        return capi.PyFloat_FromDouble(value_dbl[0])
    value_int = [0]
    if Hitcore_get_int(hc.hitcore_, variable_name, value_int):
        return capi.PyLong_From(value_int[0])
    PYERR = 'KeyError'
    return None


@spec("cxx:PyHitcore_getWeightContext", props="P06 P19 P20", io=True)
def ref_PyHitcore_getWeightContext(cls, args):
    contextPtr = PyHitcore_pyCurrentContext.cppcontext_
    pywc = PyWeightContext_create_empty_weightcontext()
    pywc.cppcontext_ = contextPtr
    return pywc


@spec("cxx:PyHitcore_get_hitcore", props="P01 P19 P20", io=True)
def ref_PyHitcore_get_hitcore(py_hc):
    if py_hc is None or py_hc.ob_type is not PyHitcore_PyHitcoreType:
        return None
    return py_hc.hitcore_


@spec("cxx:PyHitcore_get_variables", props="P01 P19", io=True)
def ref_PyHitcore_get_variables(self_, args, kwds):
    names = Hitcore_get_names()
    list_ = capi.PyList_New(len(names))
    for i in range(len(names)):
        capi.PyList_SetItem(list_, i, capi.PyUnicode_FromString(names[i]))
    return list_


@spec("cxx:PyHitcore_import_PyHitcore", props="P19 P21", io=True)
def ref_PyHitcore_import_PyHitcore():
    global PYREF, PyHitcore_check_ptr, PyHitcore_create_empty_hitcore_ptr, PyHitcore_get_hitcore_ptr, PyHitcore_set_hitcore_ptr
    hc_module = capi.PyImport_ImportModule('xboa.core._hitcore')
    if hc_module is None:
        return 0
    hc_dict = capi.PyModule_GetDict(hc_module)
    PYREF = PYREF - capi.ref(hc_module)
    ceh_c_api = capi.PyDict_GetItemString(hc_dict, 'C_API_CREATE_EMPTY_HITCORE')
    ceh_void = capi.PyCapsule_GetPointer(ceh_c_api, None)
    PyHitcore_create_empty_hitcore_ptr = ceh_void
    ghc_c_api = capi.PyDict_GetItemString(hc_dict, 'C_API_GET_HITCORE')
    ghc_void = capi.PyCapsule_GetPointer(ghc_c_api, None)
    PyHitcore_get_hitcore_ptr = ghc_void
    shc_c_api = capi.PyDict_GetItemString(hc_dict, 'C_API_SET_HITCORE')
    shc_void = capi.PyCapsule_GetPointer(shc_c_api, None)
    PyHitcore_set_hitcore_ptr = shc_void
    check_c_api = capi.PyDict_GetItemString(hc_dict, 'C_API_CHECK')
    check_void = capi.PyCapsule_GetPointer(check_c_api, None)
    PyHitcore_check_ptr = check_void
    spc_c_api = capi.PyDict_GetItemString(hc_dict, 'C_API_SMARTPOINTER_CONTEXT')
    spc_void = capi.PyCapsule_GetPointer(spc_c_api, None)
    spc = spc_void
    if (((PyHitcore_create_empty_hitcore_ptr is None or PyHitcore_set_hitcore_ptr is None) or PyHitcore_check_ptr is None) or PyHitcore_get_hitcore_ptr is None) or spc is None:
        return 0
    SmartPointer_set_context__Hitcore(spc)
    _Hitcore_initialise_string_to_accessor_maps()
    _Hitcore_initialise_string_to_mutator_maps()
    return 1


@spec("cxx:PyHitcore_set", props="P01 P19", io=True)
def ref_PyHitcore_set(self_, args, kwds):
    global PYERR
    hc = self_
    if hc is None or hc.hitcore_ is None:
        PYERR = 'TypeError'
        return None
    variable_name_c_str = [capi.undefined]
    py_value = [capi.undefined]
    parsed = capi.PyArg_Parse(args, None, 'sO', None)
    variable_name_c_str[0] = capi.argument(args, None, 0, 's', None)
    py_value[0] = capi.argument(args, None, 1, 'O', None)
    if parsed == 0:
        PYERR = 'KeyError'
        return None
    variable_name = variable_name_c_str[0]
    value_dbl = capi.PyFloat_AsDouble(py_value[0])
    PYERR = capi.api_error('PyFloat_AsDouble', py_value[0], PYERR)
    if PYERR is not None:
        return None
    if Hitcore_set_double(hc.hitcore_, variable_name, value_dbl):
        return capi.PyNone
    value_long = capi.PyLong_AsLong(py_value[0])
    PYERR = capi.api_error('PyLong_AsLong', py_value[0], PYERR)
    if PYERR is not None:
        return None
    if value_long > 2147483647 or value_long < -2147483647 - 1:
        PYERR = 'OverflowError'
        return None
    value_int = value_long
    if Hitcore_set_int(hc.hitcore_, variable_name, value_int):
        return capi.PyNone
    PYERR = 'KeyError'
    return None


@spec("cxx:PyHitcore_setWeightContext__PyObjectP_PyObjectP", props="P06 P19 P20", io=True)
def ref_PyHitcore_setWeightContext__PyObjectP_PyObjectP(cls, args):
    global Hitcore_weightContext, PYERR
    pyobj = [capi.undefined]
    parsed = capi.PyArg_Parse(args, None, 'O', None)
    pyobj[0] = capi.argument(args, None, 0, 'O', None)
    err = parsed
    if err == 0:
        PYERR = 'KeyError'
        return None
    if not PyWeightContext_is_PyWeightContext(pyobj[0]):
        PYERR = 'TypeError'
        return None
    pywc = pyobj[0]
    contextPtr = pywc.cppcontext_
    PyHitcore_pyCurrentContext.cppcontext_ = contextPtr
    Hitcore_weightContext = contextPtr
    return capi.PyNone


@spec("cxx:PyHitcore_set_hitcore", props="P01 P19 P20", io=True)
def ref_PyHitcore_set_hitcore(py_hc_o, hc):
    global PYERR
    if py_hc_o is None or py_hc_o.ob_type is not PyHitcore_PyHitcoreType:
        PYERR = 'TypeError'
        return 0
    py_hc = py_hc_o
    py_hc.hitcore_ = hc
    return 1


@spec("cxx:PyHitcore_set_variables", props="P01 P19", io=True)
def ref_PyHitcore_set_variables(self_, args, kwds):
    names = Hitcore_set_names()
    list_ = capi.PyList_New(len(names))
    for i in range(len(names)):
        capi.PyList_SetItem(list_, i, capi.PyUnicode_FromString(names[i]))
    return list_


@spec("cxx:PyWeightContext_PyInit__weight_context", props="P19 P21", io=True)
def ref_PyWeightContext_PyInit__weight_context():
    global PYREF
    SmartPointer_set_context__WeightContext(PyWeightContext_weightcontext_smartpointer_context)
    PyWeightContext_PyWeightContextType.tp_new = capi.PyType_GenericNew
    if capi.PyType_Ready(PyWeightContext_PyWeightContextType) < 0:
        return None
    module = capi.PyModule_Create2(PyWeightContext_weight_context_def, 1013)
    if module is None:
        return None
    pywc_type = PyWeightContext_PyWeightContextType
    PYREF = PYREF + capi.ref(pywc_type)
    capi.PyModule_AddObject(module, 'WeightContext', pywc_type)
    wc_dict = capi.PyModule_GetDict(module)
    cewc_c_api = capi.PyCapsule_New(PyWeightContext_create_empty_weightcontext, None, None)
    capi.PyDict_SetItemString(wc_dict, 'C_API_CREATE_EMPTY_WEIGHTCONTEXT', cewc_c_api)
    ispwc_c_api = capi.PyCapsule_New(PyWeightContext_is_PyWeightContext, None, None)
    capi.PyDict_SetItemString(wc_dict, 'C_API_IS_PYWEIGHTCONTEXT', ispwc_c_api)
    return module


@spec("cxx:PyWeightContext__alloc", props="P07 P19 P20", io=True)
def ref_PyWeightContext__alloc(type_, nitems):
    pywc = PyWeightContext_default()
    pywc.cppcontext_ = WeightContext_new__()
    pywc.ob_refcnt = 1
    pywc.ob_type = type_
    return pywc


@spec("cxx:PyWeightContext__free", props="P07 P19 P20", io=True)
def ref_PyWeightContext__free(self_):
    if self_ is not None:
        capi.delete(self_, True)


@spec("cxx:PyWeightContext__init", props="P07 P19 P20", io=True)
def ref_PyWeightContext__init(self_, args, kwds):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_):
        PYERR = 'TypeError'
        return -1
    return 0


@spec("cxx:PyWeightContext_binary_operator__Add", props="P07 P19", io=True)
def ref_PyWeightContext_binary_operator__Add(o1, o2):
    global PYERR
    d1 = [0.0]
    d2 = [0.0]
    pywc1 = [capi.undefined]
    pywc2 = [capi.undefined]
    if _PyWeightContext_parseArg(o1, d1, pywc1) == 0:
        return None
    if _PyWeightContext_parseArg(o2, d2, pywc2) == 0:
        return None
    if pywc1[0] is None and pywc2[0] is None:
        PYERR = 'NotImplementedError'
        return None
    op = Add_new()
    wc3 = WeightContext_new__()
    if pywc1[0] is not None:
        wc1 = pywc1[0].cppcontext_
        if pywc2[0] is None:
            WeightContext_assign(wc3, Add_operate__WeightContext_double(op, wc1, d2[0]))
        else:
            wc2 = pywc2[0].cppcontext_
            WeightContext_assign(wc3, Add_operate__WeightContext_WeightContext(op, wc1, wc2))
    else:
        wc2_2 = pywc2[0].cppcontext_
        if pywc1[0] is None:
            try:
                WeightContext_assign(wc3, Add_operate__double_WeightContext(op, d1[0], wc2_2))
            except Exception:
                PYERR = 'NotImplementedError'
                return None
    pywc3 = PyWeightContext_create_empty_weightcontext()
    pywc3.cppcontext_ = WeightContext_new__WeightContext(wc3)
    return pywc3


@spec("cxx:PyWeightContext_binary_operator__Divide", props="P07 P19", io=True)
def ref_PyWeightContext_binary_operator__Divide(o1, o2):
    global PYERR
    d1 = [0.0]
    d2 = [0.0]
    pywc1 = [capi.undefined]
    pywc2 = [capi.undefined]
    if _PyWeightContext_parseArg(o1, d1, pywc1) == 0:
        return None
    if _PyWeightContext_parseArg(o2, d2, pywc2) == 0:
        return None
    if pywc1[0] is None and pywc2[0] is None:
        PYERR = 'NotImplementedError'
        return None
    op = Divide_new()
    wc3 = WeightContext_new__()
    if pywc1[0] is not None:
        wc1 = pywc1[0].cppcontext_
        if pywc2[0] is None:
            WeightContext_assign(wc3, Divide_operate__WeightContext_double(op, wc1, d2[0]))
        else:
            wc2 = pywc2[0].cppcontext_
            WeightContext_assign(wc3, Divide_operate__WeightContext_WeightContext(op, wc1, wc2))
    else:
        wc2_2 = pywc2[0].cppcontext_
        if pywc1[0] is None:
            try:
                WeightContext_assign(wc3, Divide_operate__double_WeightContext(op, d1[0], wc2_2))
            except Exception:
                PYERR = 'NotImplementedError'
                return None
    pywc3 = PyWeightContext_create_empty_weightcontext()
    pywc3.cppcontext_ = WeightContext_new__WeightContext(wc3)
    return pywc3


@spec("cxx:PyWeightContext_binary_operator__Multiply", props="P07 P19", io=True)
def ref_PyWeightContext_binary_operator__Multiply(o1, o2):
    global PYERR
    d1 = [0.0]
    d2 = [0.0]
    pywc1 = [capi.undefined]
    pywc2 = [capi.undefined]
    if _PyWeightContext_parseArg(o1, d1, pywc1) == 0:
        return None
    if _PyWeightContext_parseArg(o2, d2, pywc2) == 0:
        return None
    if pywc1[0] is None and pywc2[0] is None:
        PYERR = 'NotImplementedError'
        return None
    op = Multiply_new()
    wc3 = WeightContext_new__()
    if pywc1[0] is not None:
        wc1 = pywc1[0].cppcontext_
        if pywc2[0] is None:
            WeightContext_assign(wc3, Multiply_operate__WeightContext_double(op, wc1, d2[0]))
        else:
            wc2 = pywc2[0].cppcontext_
            WeightContext_assign(wc3, Multiply_operate__WeightContext_WeightContext(op, wc1, wc2))
    else:
        wc2_2 = pywc2[0].cppcontext_
        if pywc1[0] is None:
            try:
                WeightContext_assign(wc3, Multiply_operate__double_WeightContext(op, d1[0], wc2_2))
            except Exception:
                PYERR = 'NotImplementedError'
                return None
    pywc3 = PyWeightContext_create_empty_weightcontext()
    pywc3.cppcontext_ = WeightContext_new__WeightContext(wc3)
    return pywc3


@spec("cxx:PyWeightContext_binary_operator__Subtract", props="P07 P19", io=True)
def ref_PyWeightContext_binary_operator__Subtract(o1, o2):
    global PYERR
    d1 = [0.0]
    d2 = [0.0]
    pywc1 = [capi.undefined]
    pywc2 = [capi.undefined]
    if _PyWeightContext_parseArg(o1, d1, pywc1) == 0:
        return None
    if _PyWeightContext_parseArg(o2, d2, pywc2) == 0:
        return None
    if pywc1[0] is None and pywc2[0] is None:
        PYERR = 'NotImplementedError'
        return None
    op = Subtract_new()
    wc3 = WeightContext_new__()
    if pywc1[0] is not None:
        wc1 = pywc1[0].cppcontext_
        if pywc2[0] is None:
            WeightContext_assign(wc3, Subtract_operate__WeightContext_double(op, wc1, d2[0]))
        else:
            wc2 = pywc2[0].cppcontext_
            WeightContext_assign(wc3, Subtract_operate__WeightContext_WeightContext(op, wc1, wc2))
    else:
        wc2_2 = pywc2[0].cppcontext_
        if pywc1[0] is None:
            try:
                WeightContext_assign(wc3, Subtract_operate__double_WeightContext(op, d1[0], wc2_2))
            except Exception:
                PYERR = 'NotImplementedError'
                return None
    pywc3 = PyWeightContext_create_empty_weightcontext()
    pywc3.cppcontext_ = WeightContext_new__WeightContext(wc3)
    return pywc3


@spec("cxx:PyWeightContext_create_empty_weightcontext", props="P07 P19 P20", io=True)
def ref_PyWeightContext_create_empty_weightcontext():
    pywc = PyWeightContext_default()
    pywc.cppcontext_ = WeightContext_new__()
    pywc.ob_refcnt = 1
    pywc.ob_type = PyWeightContext_PyWeightContextType
    return pywc


@spec("cxx:PyWeightContext_getDefaultWeight", props="P06 P07 P19 P20", io=True)
def ref_PyWeightContext_getDefaultWeight(self_, args, kwds):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_):
        PYERR = 'TypeError'
        return None
    pywc = self_
    weight = WeightContext_getDefaultWeight(pywc.cppcontext_)
    return capi.PyFloat_FromDouble(weight)


@spec("cxx:PyWeightContext_getWeight", props="P06 P07 P19 P20", io=True)
def ref_PyWeightContext_getWeight(self_, args, kwds):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_):
        PYERR = 'TypeError'
        return None
    pywc = self_
    spill = [0]
    event = [0]
    particle = [0]
    c_argnames = ['spill', 'event_number', 'particle_number', 'eventNumber', 'particleNumber', None]
    parsed = capi.PyArg_Parse(args, kwds, '|iiiii', ['spill', 'event_number', 'particle_number', 'eventNumber', 'particleNumber'])
    spill[0] = capi.optional(args, kwds, 0, 'i', 'spill', spill[0])
    event[0] = capi.optional(args, kwds, 1, 'i', 'event_number', event[0])
    particle[0] = capi.optional(args, kwds, 2, 'i', 'particle_number', particle[0])
    event[0] = capi.optional(args, kwds, 3, 'i', 'eventNumber', event[0])
    particle[0] = capi.optional(args, kwds, 4, 'i', 'particleNumber', particle[0])
    err = parsed
    if err == 0:
        PYERR = 'KeyError'
        return None
    hitid = HitId_new(spill[0], event[0], particle[0])
    weight = WeightContext_getWeight(pywc.cppcontext_, hitid)
    return capi.PyFloat_FromDouble(weight)


@spec("cxx:PyWeightContext_import_PyWeightContext", props="P19 P21", io=True)
def ref_PyWeightContext_import_PyWeightContext():
    global PYERR, PYREF, PyWeightContext_create_empty_weightcontext_ptr, PyWeightContext_is_PyWeightContext_ptr
    wc_module = capi.PyImport_ImportModule('xboa.core._weight_context')
    if wc_module is None:
        return 0
    wc_dict = capi.PyModule_GetDict(wc_module)
    PYREF = PYREF - capi.ref(wc_module)
    cewc_c_api = capi.PyDict_GetItemString(wc_dict, 'C_API_CREATE_EMPTY_WEIGHTCONTEXT')
    cewc_void = capi.PyCapsule_GetPointer(cewc_c_api, None)
    PyWeightContext_create_empty_weightcontext_ptr = cewc_void
    ispwc_c_api = capi.PyDict_GetItemString(wc_dict, 'C_API_IS_PYWEIGHTCONTEXT')
    ispwc_void = capi.PyCapsule_GetPointer(ispwc_c_api, None)
    PyWeightContext_is_PyWeightContext_ptr = ispwc_void
    if PyWeightContext_create_empty_weightcontext_ptr is None or PyWeightContext_is_PyWeightContext_ptr is None:
        if PYERR is None:
            PYERR = 'ImportError'
        return 0
    return 1


@spec("cxx:PyWeightContext_is_PyWeightContext", props="P07 P19", io=True)
def ref_PyWeightContext_is_PyWeightContext(obj):
    return obj is not None and capi.PyObject_TypeCheck(obj, PyWeightContext_PyWeightContextType) != 0


@spec("cxx:PyWeightContext_printAddress", props="P07 P19", io=True)
def ref_PyWeightContext_printAddress(self_, args):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_):
        PYERR = 'TypeError'
        return None
    pywc = self_
    capi.out(capi.out(capi.out(capi.out(capi.out(capi.out(capi.out(capi.cerr, 'Address - pywc '), pywc), ' Smartpointer '), pywc.cppcontext_), ' Smartpointer target '), pywc.cppcontext_), capi.endl)
    return capi.PyNone


@spec("cxx:PyWeightContext_richCompare", props="P07 P19", io=True)
def ref_PyWeightContext_richCompare(self_, other, op):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_) or not PyWeightContext_is_PyWeightContext(other):
        PYERR = 'NotImplementedError'
        return None
    pywc1 = self_
    pywc2 = other
    switch = op
    if switch == 2:
        if pywc1.cppcontext_ is pywc2.cppcontext_:
            return capi.PyTrue
        return capi.PyFalse
    elif switch == 3:
        if pywc1.cppcontext_ is not pywc2.cppcontext_:
            return capi.PyTrue
        return capi.PyFalse
    elif switch == 0:
        if pywc1.cppcontext_ < pywc2.cppcontext_:
            return capi.PyTrue
        return capi.PyFalse
    elif switch == 4:
        if pywc1.cppcontext_ > pywc2.cppcontext_:
            return capi.PyTrue
        return capi.PyFalse
    elif switch == 1:
        if pywc1.cppcontext_ <= pywc2.cppcontext_:
            return capi.PyTrue
        return capi.PyFalse
    elif switch == 5:
        if pywc1.cppcontext_ >= pywc2.cppcontext_:
            return capi.PyTrue
        return capi.PyFalse
    else:
        capi.__builtin_unreachable()


@spec("cxx:PyWeightContext_setDefaultWeight", props="P06 P07 P19 P20", io=True)
def ref_PyWeightContext_setDefaultWeight(self_, args, kwds):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_):
        PYERR = 'TypeError'
        return None
    pywc = self_
    weight = [capi.undefined]
    parsed = capi.PyArg_Parse(args, None, 'd', None)
    weight[0] = capi.argument(args, None, 0, 'd', None)
    if parsed == 0:
        PYERR = 'TypeError'
        return None
    WeightContext_setDefaultWeight(pywc.cppcontext_, weight[0])
    return capi.PyNone


@spec("cxx:PyWeightContext_setWeight", props="P06 P07 P19 P20", io=True)
def ref_PyWeightContext_setWeight(self_, args, kwds):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(self_):
        PYERR = 'TypeError'
        return None
    pywc = self_
    weight = [0.0]
    spill = [0]
    event = [0]
    particle = [0]
    c_argnames = ['weight', 'spill', 'event_number', 'particle_number', 'eventNumber', 'particleNumber', None]
    parsed = capi.PyArg_Parse(args, kwds, 'd|iiiii', ['weight', 'spill', 'event_number', 'particle_number', 'eventNumber', 'particleNumber'])
    weight[0] = capi.argument(args, kwds, 0, 'd', 'weight')
    spill[0] = capi.optional(args, kwds, 1, 'i', 'spill', spill[0])
    event[0] = capi.optional(args, kwds, 2, 'i', 'event_number', event[0])
    particle[0] = capi.optional(args, kwds, 3, 'i', 'particle_number', particle[0])
    event[0] = capi.optional(args, kwds, 4, 'i', 'eventNumber', event[0])
    particle[0] = capi.optional(args, kwds, 5, 'i', 'particleNumber', particle[0])
    err = parsed
    if err == 0:
        PYERR = 'KeyError'
        return None
    hitid = HitId_new(spill[0], event[0], particle[0])
    WeightContext_setWeight(pywc.cppcontext_, hitid, weight[0])
    return capi.PyNone


@spec("cxx:PyWeightContext_unary_operator__Not", props="P07 P19", io=True)
def ref_PyWeightContext_unary_operator__Not(o1):
    global PYERR
    if not PyWeightContext_is_PyWeightContext(o1):
        PYERR = 'NotImplementedError'
        return None
    pywc1 = o1
    wc1 = pywc1.cppcontext_
    op = Not_new()
    wc2 = Not_operate(op, wc1)
    pywc2 = PyWeightContext_create_empty_weightcontext()
    pywc2.cppcontext_ = WeightContext_new__WeightContext(wc2)
    return pywc2


@spec("cxx:PythonComparator_compare", props="P16 P19 P20", io=True)
def ref_PythonComparator_compare(self, variable, cut_value):
    global PYREF
    if self.py_cmp_ is None:
        return False
    args = capi.Py_BuildValue('dd', variable, cut_value)
    if args is None:
        raise std_logic_error()
    ret_bool = capi.PyObject_CallObject(self.py_cmp_, args)
    PYREF = PYREF - capi.ref(args)
    if ret_bool is None:
        raise std_logic_error()
    is_bool = capi.Py_IS_TYPE(ret_bool, capi.PyBool_Type) != 0
    is_true = ret_bool is capi.PyTrue
    PYREF = PYREF - capi.ref(ret_bool)
    if not is_bool:
        raise std_logic_error()
    return is_true


@spec("cxx:PythonComparator_new", props="P16 P19 P20", io=True)
def ref_PythonComparator_new(py_cmp):
    self = PythonComparator()
    self.py_cmp_ = py_cmp
    if capi.PyCallable_Check(self.py_cmp_) == 0:
        self.py_cmp_ = None
    return self


@spec("cxx:SmartPointer_arrow__Hitcore", props="P20", io=True)
def ref_SmartPointer_arrow__Hitcore(self):
    return self[0].ptr_


@spec("cxx:SmartPointer_arrow__WeightContext", props="P20", io=True)
def ref_SmartPointer_arrow__WeightContext(self):
    return self[0].ptr_


@spec("cxx:SmartPointer_assign__Hitcore", props="P20", io=True)
def ref_SmartPointer_assign__Hitcore(self, smart_ptr):
    SmartPointer_set__Hitcore(self[0], smart_ptr.ptr_)
    return self


@spec("cxx:SmartPointer_assign__WeightContext", props="P20", io=True)
def ref_SmartPointer_assign__WeightContext(self, smart_ptr):
    SmartPointer_set__WeightContext(self[0], smart_ptr.ptr_)
    return self


@spec("cxx:SmartPointer_decref__Hitcore", props="P20", io=True)
def ref_SmartPointer_decref__Hitcore(self, ptr_):
    if ptr_ is None:
        return
    if SmartPointer_ref_count___Hitcore is None:
        raise std_runtime_error()
    if ptr_ not in SmartPointer_ref_count___Hitcore[0]:
        return
    SmartPointer_ref_count___Hitcore[0][ptr_] = SmartPointer_ref_count___Hitcore[0].get(ptr_, 0) - 1
    if (SmartPointer_ref_count___Hitcore[0][ptr_] if ptr_ in SmartPointer_ref_count___Hitcore[0] else 0) == 0:
        capi.delete(ptr_)
        SmartPointer_ref_count___Hitcore[0].pop(ptr_, None)


@spec("cxx:SmartPointer_decref__WeightContext", props="P20", io=True)
def ref_SmartPointer_decref__WeightContext(self, ptr_):
    if ptr_ is None:
        return
    if SmartPointer_ref_count___WeightContext is None:
        raise std_runtime_error()
    if ptr_ not in SmartPointer_ref_count___WeightContext[0]:
        return
    SmartPointer_ref_count___WeightContext[0][ptr_] = SmartPointer_ref_count___WeightContext[0].get(ptr_, 0) - 1
    if (SmartPointer_ref_count___WeightContext[0][ptr_] if ptr_ in SmartPointer_ref_count___WeightContext[0] else 0) == 0:
        capi.delete(ptr_)
        SmartPointer_ref_count___WeightContext[0].pop(ptr_, None)


@spec("cxx:SmartPointer_del__Hitcore", props="P20", io=True)
def ref_SmartPointer_del__Hitcore(self):
    SmartPointer_decref__Hitcore(self[0], self[0].ptr_)


@spec("cxx:SmartPointer_del__WeightContext", props="P20", io=True)
def ref_SmartPointer_del__WeightContext(self):
    SmartPointer_decref__WeightContext(self[0], self[0].ptr_)


@spec("cxx:SmartPointer_get__Hitcore", props="P20", io=True)
def ref_SmartPointer_get__Hitcore(self):
    return self[0].ptr_


@spec("cxx:SmartPointer_get__WeightContext", props="P20", io=True)
def ref_SmartPointer_get__WeightContext(self):
    return self[0].ptr_


@spec("cxx:SmartPointer_get_context__Hitcore", props="P20", io=True)
def ref_SmartPointer_get_context__Hitcore():
    return SmartPointer_ref_count___Hitcore


@spec("cxx:SmartPointer_incref__Hitcore", props="P20", io=True)
def ref_SmartPointer_incref__Hitcore(self, ptr):
    if ptr is None:
        return
    if ptr not in SmartPointer_ref_count___Hitcore[0]:
        SmartPointer_ref_count___Hitcore[0][ptr] = 0
    SmartPointer_ref_count___Hitcore[0][ptr] = SmartPointer_ref_count___Hitcore[0].get(ptr, 0) + 1


@spec("cxx:SmartPointer_incref__WeightContext", props="P20", io=True)
def ref_SmartPointer_incref__WeightContext(self, ptr):
    if ptr is None:
        return
    if ptr not in SmartPointer_ref_count___WeightContext[0]:
        SmartPointer_ref_count___WeightContext[0][ptr] = 0
    SmartPointer_ref_count___WeightContext[0][ptr] = SmartPointer_ref_count___WeightContext[0].get(ptr, 0) + 1


@spec("cxx:SmartPointer_new__Hitcore__", props="P20", io=True)
def ref_SmartPointer_new__Hitcore():
    self = SmartPointer()
    self.ptr_ = None
    return self


@spec("cxx:SmartPointer_new__Hitcore__HitcoreP", props="P20", io=True)
def ref_SmartPointer_new__Hitcore__HitcoreP(ptr_):
    self = SmartPointer()
    self.ptr_ = None
    SmartPointer_set__Hitcore(self[0], ptr_)
    return self


@spec("cxx:SmartPointer_new__Hitcore__SmartPointer_Hitcore", props="P20", io=True)
def ref_SmartPointer_new__Hitcore__SmartPointer_Hitcore(smart_ptr):
    self = SmartPointer()
    self.ptr_ = None
    SmartPointer_set__Hitcore(self[0], smart_ptr.ptr_)
    return self


@spec("cxx:SmartPointer_new__WeightContext__", props="P20", io=True)
def ref_SmartPointer_new__WeightContext():
    self = SmartPointer()
    self.ptr_ = None
    return self


@spec("cxx:SmartPointer_new__WeightContext__SmartPointer_WeightContext", props="P20", io=True)
def ref_SmartPointer_new__WeightContext__SmartPointer_WeightContext(smart_ptr):
    self = SmartPointer()
    self.ptr_ = None
    SmartPointer_set__WeightContext(self[0], smart_ptr.ptr_)
    return self


@spec("cxx:SmartPointer_new__WeightContext__WeightContextP", props="P20", io=True)
def ref_SmartPointer_new__WeightContext__WeightContextP(ptr_):
    self = SmartPointer()
    self.ptr_ = None
    SmartPointer_set__WeightContext(self[0], ptr_)
    return self


@spec("cxx:SmartPointer_set__Hitcore", props="P20", io=True)
def ref_SmartPointer_set__Hitcore(self, pointer):
    if pointer is self[0].ptr_:
        return
    SmartPointer_decref__Hitcore(self[0], self[0].ptr_)
    self[0].ptr_ = pointer
    SmartPointer_incref__Hitcore(self[0], pointer)


@spec("cxx:SmartPointer_set__WeightContext", props="P20", io=True)
def ref_SmartPointer_set__WeightContext(self, pointer):
    if pointer is self[0].ptr_:
        return
    SmartPointer_decref__WeightContext(self[0], self[0].ptr_)
    self[0].ptr_ = pointer
    SmartPointer_incref__WeightContext(self[0], pointer)


@spec("cxx:SmartPointer_set_context__Hitcore", props="P20", io=True)
def ref_SmartPointer_set_context__Hitcore(refs):
    global SmartPointer_ref_count___Hitcore
    SmartPointer_ref_count___Hitcore = refs


@spec("cxx:SmartPointer_set_context__WeightContext", props="P20", io=True)
def ref_SmartPointer_set_context__WeightContext(refs):
    global SmartPointer_ref_count___WeightContext
    SmartPointer_ref_count___WeightContext = refs


@spec("cxx:Subtract_new", props="P07", io=True)
def ref_Subtract_new():
    self = Subtract()
    return self


@spec("cxx:Subtract_operate__WeightContext_WeightContext", props="P07", io=True)
def ref_Subtract_operate__WeightContext_WeightContext(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_subtract__WeightContext(wc1, rhs)
    return wc1


@spec("cxx:Subtract_operate__WeightContext_double", props="P07", io=True)
def ref_Subtract_operate__WeightContext_double(self, lhs, rhs):
    wc1 = WeightContext_new__WeightContext(lhs)
    WeightContext_subtract__double(wc1, rhs)
    return wc1


@spec("cxx:Subtract_operate__double_WeightContext", props="P07", io=True)
def ref_Subtract_operate__double_WeightContext(self, lhs, rhs):
    raise std_string()


@spec("cxx:WeightContext_add__WeightContext", props="P07", io=True)
def ref_WeightContext_add__WeightContext(self, rhs):
    WeightContext_adoptHits(self, rhs)
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) + WeightContext_getWeight(rhs, id)
    self.defaultWeight_ += rhs.defaultWeight_


@spec("cxx:WeightContext_add__double", props="P07", io=True)
def ref_WeightContext_add__double(self, rhs):
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) + rhs
    self.defaultWeight_ += rhs


@spec("cxx:WeightContext_adoptHits", props="P07", io=True)
def ref_WeightContext_adoptHits(self, rhs):
    for it in rhs.globalWeightsContext_:
        self.globalWeightsContext_.setdefault(it, self.defaultWeight_)


@spec("cxx:WeightContext_assign", props="P05 P07", io=True)
def ref_WeightContext_assign(self, rhs):
    if self is rhs:
        return self
    self.globalWeightsContext_ = dict(rhs.globalWeightsContext_)
    self.defaultWeight_ = rhs.defaultWeight_
    return self


@spec("cxx:WeightContext_clearWeights", props="P06 P07", io=True)
def ref_WeightContext_clearWeights(self):
    self.globalWeightsContext_.clear()


@spec("cxx:WeightContext_clone", props="P05 P07", io=True)
def ref_WeightContext_clone(self):
    rhs = WeightContext_new__WeightContext(self)
    return rhs


@spec("cxx:WeightContext_divide__WeightContext", props="P07", io=True)
def ref_WeightContext_divide__WeightContext(self, rhs):
    WeightContext_adoptHits(self, rhs)
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) / WeightContext_getWeight(rhs, id)
    self.defaultWeight_ /= rhs.defaultWeight_


@spec("cxx:WeightContext_divide__double", props="P07", io=True)
def ref_WeightContext_divide__double(self, rhs):
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) / rhs
    self.defaultWeight_ /= rhs


@spec("cxx:WeightContext_getDefaultWeight", props="P06 P07", io=True)
def ref_WeightContext_getDefaultWeight(self):
    return self.defaultWeight_


@spec("cxx:WeightContext_getWeight", props="P06 P07", io=True)
def ref_WeightContext_getWeight(self, id):
    it = id
    if it not in self.globalWeightsContext_:
        return self.defaultWeight_
    return self.globalWeightsContext_[it]


@spec("cxx:WeightContext_multiply__WeightContext", props="P07", io=True)
def ref_WeightContext_multiply__WeightContext(self, rhs):
    WeightContext_adoptHits(self, rhs)
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) * WeightContext_getWeight(rhs, id)
    self.defaultWeight_ *= rhs.defaultWeight_


@spec("cxx:WeightContext_multiply__double", props="P07", io=True)
def ref_WeightContext_multiply__double(self, rhs):
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) * rhs
    self.defaultWeight_ *= rhs


@spec("cxx:WeightContext_new__", props="P05 P07", io=True)
def ref_WeightContext_new():
    self = WeightContext()
    self.globalWeightsContext_ = {}
    self.defaultWeight_ = 1.0
    return self


@spec("cxx:WeightContext_new__WeightContext", props="P05 P07", io=True)
def ref_WeightContext_new__WeightContext(rhs):
    self = WeightContext()
    self.globalWeightsContext_ = dict(rhs.globalWeightsContext_)
    self.defaultWeight_ = rhs.defaultWeight_
    return self


@spec("cxx:WeightContext_op_not", props="P07", io=True)
def ref_WeightContext_op_not(self):
    for it in self.globalWeightsContext_:
        id = it
        if self.globalWeightsContext_[it] == 0.0:
            self.globalWeightsContext_[id] = self.defaultWeight_
        else:
            self.globalWeightsContext_[id] = 0.0
    self.defaultWeight_ = 0.0


@spec("cxx:WeightContext_setDefaultWeight", props="P06 P07", io=True)
def ref_WeightContext_setDefaultWeight(self, weight):
    self.defaultWeight_ = weight


@spec("cxx:WeightContext_setWeight", props="P06 P07", io=True)
def ref_WeightContext_setWeight(self, id, weight):
    self.globalWeightsContext_[id] = weight


@spec("cxx:WeightContext_subtract__WeightContext", props="P07", io=True)
def ref_WeightContext_subtract__WeightContext(self, rhs):
    WeightContext_adoptHits(self, rhs)
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) - WeightContext_getWeight(rhs, id)
    self.defaultWeight_ -= rhs.defaultWeight_


@spec("cxx:WeightContext_subtract__double", props="P07", io=True)
def ref_WeightContext_subtract__double(self, rhs):
    for it in self.globalWeightsContext_:
        id = it
        self.globalWeightsContext_[id] = self.globalWeightsContext_.get(id, 0) - rhs
    self.defaultWeight_ -= rhs


@spec("cxx:_Bunchcore_bunch_weight", props="P12 P13", io=True)
def ref_Bunchcore_bunch_weight(self):
    weight_sum = 0.0
    for i in range(len(self.hitcores_)):
        hc = self.hitcores_[i]
        if hc is None:
            continue
        weight_sum += Hitcore_total_weight(hc)
    return weight_sum


@spec("cxx:_Bunchcore_get_index_by_power_recurse", props="P13", io=True)
def ref_Bunchcore_get_index_by_power_recurse(max_size, axis, current_index):
    current_index = list(current_index)
    index_by_power = []
    current_sum = current_index[0]
    if axis >= len(current_index):
        return index_by_power
    for i in range(1, axis):
        current_sum += current_index[i]
    i_2 = 0
    while current_sum + i_2 <= max_size:
        current_index[axis] = i_2
        new_index_by_power = _Bunchcore_get_index_by_power_recurse(max_size, axis + 1, list(current_index))
        index_by_power.extend(new_index_by_power)
        if i_2 > 0:
            index_by_power.append(list(current_index))
        i_2 += 1
    return index_by_power


@spec("cxx:_Comparator_new", props="P19", io=True)
def ref_Comparator_new():
    self = Comparator()
    return self


@spec("cxx:_CppPyConverter_new__HitcoreP", props="P19 P20", io=True)
def ref_CppPyConverter_new__HitcoreP():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__double", props="P19 P20", io=True)
def ref_CppPyConverter_new__double():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__map_HitcoreP_unsignedlong", props="P19 P20", io=True)
def ref_CppPyConverter_new__map_HitcoreP_unsignedlong():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__unsignedlong", props="P19 P20", io=True)
def ref_CppPyConverter_new__unsignedlong():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__vector_double", props="P19 P20", io=True)
def ref_CppPyConverter_new__vector_double():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__vector_unsignedlong", props="P19 P20", io=True)
def ref_CppPyConverter_new__vector_unsignedlong():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__vector_vector_double", props="P19 P20", io=True)
def ref_CppPyConverter_new__vector_vector_double():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyConverter_new__vector_vector_unsignedlong", props="P19 P20", io=True)
def ref_CppPyConverter_new__vector_vector_unsignedlong():
    self = CppPyConverter()
    return self


@spec("cxx:_CppPyDoubleConverter_convert", props="P19 P20", io=True)
def ref_CppPyDoubleConverter_convert(self, cpp_double, py_double):
    global PYERR
    if cpp_double is None or py_double is None:
        PYERR = 'TypeError'
        return False
    py_double[0] = capi.PyFloat_FromDouble(cpp_double[0])
    if py_double[0] is None:
        PYERR = 'TypeError'
        return False
    return True


@spec("cxx:_CppPyDoubleConverter_new", props="P19 P20", io=True)
def ref_CppPyDoubleConverter_new():
    self = CppPyDoubleConverter()
    return self


@spec("cxx:_CppPyIntConverter_convert__unsignedlong", props="P19 P20", io=True)
def ref_CppPyIntConverter_convert__unsignedlong(self, c_int, py_long):
    global PYERR
    if c_int is None or py_long is None:
        PYERR = 'TypeError'
        return False
    my_long_long = c_int[0]
    py_long[0] = capi.PyLong_From(my_long_long)
    if py_long[0] is None:
        PYERR = 'TypeError'
        return False
    return True


@spec("cxx:_CppPyIntConverter_new__unsignedlong", props="P19 P20", io=True)
def ref_CppPyIntConverter_new__unsignedlong():
    self = CppPyIntConverter()
    return self


@spec("cxx:_CppPyMapToDictConverter_convert__HitcoreP_unsignedlong", props="P19 P20", io=True)
def ref_CppPyMapToDictConverter_convert__HitcoreP_unsignedlong(self, std_map, py_dict):
    global PYERR, PYREF
    if std_map is None or py_dict is None:
        PYERR = 'TypeError'
        return False
    py_dict[0] = capi.PyDict_New()
    if py_dict[0] is None:
        PYERR = 'RuntimeError'
        return False
    for it in std_map[0]:
        py_key = [None]
        py_value = [None]
        ok = (virtual_convert(self.key_c_, [it], py_key) and virtual_convert(self.value_c_, [std_map[0][it]], py_value)) and capi.PyDict_SetItem(py_dict[0], py_key[0], py_value[0]) == 0
        if py_key[0] != None:
            PYREF = PYREF - capi.ref(py_key[0])
        if py_value[0] != None:
            PYREF = PYREF - capi.ref(py_value[0])
        if not ok:
            _tmp_op_ptr = py_dict
            _tmp_old_op = _tmp_op_ptr[0]
            if _tmp_old_op is not None:
                _tmp_op_ptr[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op)
            return False
    return True


@spec("cxx:_CppPyMapToDictConverter_new__HitcoreP_unsignedlong", props="P19 P20", io=True)
def ref_CppPyMapToDictConverter_new__HitcoreP_unsignedlong(key_converter, value_converter):
    self = CppPyMapToDictConverter()
    self.key_c_ = key_converter
    self.value_c_ = value_converter
    return self


@spec("cxx:_CppPyPointerToLongConverter_convert__Hitcore", props="P19 P20", io=True)
def ref_CppPyPointerToLongConverter_convert__Hitcore(self, pointer, py_long):
    global PYERR
    if pointer is None or py_long is None:
        PYERR = 'TypeError'
        return False
    ptr_pointer = pointer[0]
    void_pointer = ptr_pointer
    py_long[0] = capi.PyLong_FromVoidPtr(void_pointer)
    if py_long[0] is None:
        PYERR = 'TypeError'
        return False
    return True


@spec("cxx:_CppPyPointerToLongConverter_new__Hitcore", props="P19 P20", io=True)
def ref_CppPyPointerToLongConverter_new__Hitcore():
    self = CppPyPointerToLongConverter()
    return self


@spec("cxx:_CppPyVectorToListConverter_convert__double", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_convert__double(self, std_vector, py_list):
    global PYERR, PYREF
    if std_vector is None or py_list is None:
        PYERR = 'TypeError'
        return False
    py_list[0] = capi.PyList_New(0)
    if py_list[0] is None:
        PYERR = 'RuntimeError'
        return False
    for i in range(len(std_vector[0])):
        element = [std_vector[0][i]]
        py_element = [None]
        if not virtual_convert(self.converter_, element, py_element):
            _tmp_op_ptr = py_list
            _tmp_old_op = _tmp_op_ptr[0]
            if _tmp_old_op is not None:
                _tmp_op_ptr[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op)
            return False
        append_failed = capi.PyList_Append(py_list[0], py_element[0])
        PYREF = PYREF - capi.ref(py_element[0])
        if append_failed != 0:
            _tmp_op_ptr_2 = py_list
            _tmp_old_op_2 = _tmp_op_ptr_2[0]
            if _tmp_old_op_2 is not None:
                _tmp_op_ptr_2[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op_2)
            PYERR = 'RuntimeError'
            return False
    return True


@spec("cxx:_CppPyVectorToListConverter_convert__unsignedlong", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_convert__unsignedlong(self, std_vector, py_list):
    global PYERR, PYREF
    if std_vector is None or py_list is None:
        PYERR = 'TypeError'
        return False
    py_list[0] = capi.PyList_New(0)
    if py_list[0] is None:
        PYERR = 'RuntimeError'
        return False
    for i in range(len(std_vector[0])):
        element = [std_vector[0][i]]
        py_element = [None]
        if not virtual_convert(self.converter_, element, py_element):
            _tmp_op_ptr = py_list
            _tmp_old_op = _tmp_op_ptr[0]
            if _tmp_old_op is not None:
                _tmp_op_ptr[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op)
            return False
        append_failed = capi.PyList_Append(py_list[0], py_element[0])
        PYREF = PYREF - capi.ref(py_element[0])
        if append_failed != 0:
            _tmp_op_ptr_2 = py_list
            _tmp_old_op_2 = _tmp_op_ptr_2[0]
            if _tmp_old_op_2 is not None:
                _tmp_op_ptr_2[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op_2)
            PYERR = 'RuntimeError'
            return False
    return True


@spec("cxx:_CppPyVectorToListConverter_convert__vector_double", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_convert__vector_double(self, std_vector, py_list):
    global PYERR, PYREF
    if std_vector is None or py_list is None:
        PYERR = 'TypeError'
        return False
    py_list[0] = capi.PyList_New(0)
    if py_list[0] is None:
        PYERR = 'RuntimeError'
        return False
    for i in range(len(std_vector[0])):
        element = [std_vector[0][i]]
        py_element = [None]
        if not virtual_convert(self.converter_, element, py_element):
            _tmp_op_ptr = py_list
            _tmp_old_op = _tmp_op_ptr[0]
            if _tmp_old_op is not None:
                _tmp_op_ptr[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op)
            return False
        append_failed = capi.PyList_Append(py_list[0], py_element[0])
        PYREF = PYREF - capi.ref(py_element[0])
        if append_failed != 0:
            _tmp_op_ptr_2 = py_list
            _tmp_old_op_2 = _tmp_op_ptr_2[0]
            if _tmp_old_op_2 is not None:
                _tmp_op_ptr_2[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op_2)
            PYERR = 'RuntimeError'
            return False
    return True


@spec("cxx:_CppPyVectorToListConverter_convert__vector_unsignedlong", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_convert__vector_unsignedlong(self, std_vector, py_list):
    global PYERR, PYREF
    if std_vector is None or py_list is None:
        PYERR = 'TypeError'
        return False
    py_list[0] = capi.PyList_New(0)
    if py_list[0] is None:
        PYERR = 'RuntimeError'
        return False
    for i in range(len(std_vector[0])):
        element = [std_vector[0][i]]
        py_element = [None]
        if not virtual_convert(self.converter_, element, py_element):
            _tmp_op_ptr = py_list
            _tmp_old_op = _tmp_op_ptr[0]
            if _tmp_old_op is not None:
                _tmp_op_ptr[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op)
            return False
        append_failed = capi.PyList_Append(py_list[0], py_element[0])
        PYREF = PYREF - capi.ref(py_element[0])
        if append_failed != 0:
            _tmp_op_ptr_2 = py_list
            _tmp_old_op_2 = _tmp_op_ptr_2[0]
            if _tmp_old_op_2 is not None:
                _tmp_op_ptr_2[0] = None
                PYREF = PYREF - capi.ref(_tmp_old_op_2)
            PYERR = 'RuntimeError'
            return False
    return True


@spec("cxx:_CppPyVectorToListConverter_new__double", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_new__double(converter):
    self = CppPyVectorToListConverter()
    self.converter_ = converter
    return self


@spec("cxx:_CppPyVectorToListConverter_new__unsignedlong", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_new__unsignedlong(converter):
    self = CppPyVectorToListConverter()
    self.converter_ = converter
    return self


@spec("cxx:_CppPyVectorToListConverter_new__vector_double", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_new__vector_double(converter):
    self = CppPyVectorToListConverter()
    self.converter_ = converter
    return self


@spec("cxx:_CppPyVectorToListConverter_new__vector_unsignedlong", props="P19 P20", io=True)
def ref_CppPyVectorToListConverter_new__vector_unsignedlong(converter):
    self = CppPyVectorToListConverter()
    self.converter_ = converter
    return self


@spec("cxx:_Hitcore_initialise_string_to_accessor_maps", props="P01", io=True)
def ref_Hitcore_initialise_string_to_accessor_maps():
    Hitcore_get_int_map['spill'] = Hitcore_spill
    Hitcore_get_int_map['event_number'] = Hitcore_event
    Hitcore_get_int_map['eventNumber'] = Hitcore_event
    Hitcore_get_int_map['particle_number'] = Hitcore_particle
    Hitcore_get_int_map['particleNumber'] = Hitcore_particle
    Hitcore_get_int_map['station'] = Hitcore_station
    Hitcore_get_int_map['status'] = Hitcore_status
    Hitcore_get_int_map['pid'] = Hitcore_pid
    Hitcore_get_dbl_map['x'] = Hitcore_x
    Hitcore_get_dbl_map['y'] = Hitcore_y
    Hitcore_get_dbl_map['z'] = Hitcore_z
    Hitcore_get_dbl_map['t'] = Hitcore_t
    Hitcore_get_dbl_map['px'] = Hitcore_px
    Hitcore_get_dbl_map['py'] = Hitcore_py
    Hitcore_get_dbl_map['pz'] = Hitcore_pz
    Hitcore_get_dbl_map['energy'] = Hitcore_energy
    Hitcore_get_dbl_map['bx'] = Hitcore_bx
    Hitcore_get_dbl_map['by'] = Hitcore_by
    Hitcore_get_dbl_map['bz'] = Hitcore_bz
    Hitcore_get_dbl_map['ex'] = Hitcore_ex
    Hitcore_get_dbl_map['ey'] = Hitcore_ey
    Hitcore_get_dbl_map['ez'] = Hitcore_ez
    Hitcore_get_dbl_map['sx'] = Hitcore_sx
    Hitcore_get_dbl_map['sy'] = Hitcore_sy
    Hitcore_get_dbl_map['sz'] = Hitcore_sz
    Hitcore_get_dbl_map['path_length'] = Hitcore_path_length
    Hitcore_get_dbl_map['proper_time'] = Hitcore_proper_time
    Hitcore_get_dbl_map['e_dep'] = Hitcore_energy_deposited
    Hitcore_get_dbl_map['charge'] = Hitcore_charge
    Hitcore_get_dbl_map['mass'] = Hitcore_mass
    Hitcore_get_dbl_map['local_weight'] = Hitcore_local_weight
    Hitcore_get_dbl_map['global_weight'] = Hitcore_global_weight
    Hitcore_get_dbl_map['weight'] = Hitcore_total_weight


@spec("cxx:_Hitcore_initialise_string_to_mutator_maps", props="P01", io=True)
def ref_Hitcore_initialise_string_to_mutator_maps():
    Hitcore_set_int_map['spill'] = Hitcore_set_spill
    Hitcore_set_int_map['event_number'] = Hitcore_set_event
    Hitcore_set_int_map['eventNumber'] = Hitcore_set_event
    Hitcore_set_int_map['particle_number'] = Hitcore_set_particle
    Hitcore_set_int_map['particleNumber'] = Hitcore_set_particle
    Hitcore_set_int_map['station'] = Hitcore_set_station
    Hitcore_set_int_map['status'] = Hitcore_set_status
    Hitcore_set_int_map['pid'] = Hitcore_set_pid
    Hitcore_set_dbl_map['x'] = Hitcore_set_x
    Hitcore_set_dbl_map['y'] = Hitcore_set_y
    Hitcore_set_dbl_map['z'] = Hitcore_set_z
    Hitcore_set_dbl_map['t'] = Hitcore_set_t
    Hitcore_set_dbl_map['px'] = Hitcore_set_px
    Hitcore_set_dbl_map['py'] = Hitcore_set_py
    Hitcore_set_dbl_map['pz'] = Hitcore_set_pz
    Hitcore_set_dbl_map['energy'] = Hitcore_set_energy
    Hitcore_set_dbl_map['bx'] = Hitcore_set_bx
    Hitcore_set_dbl_map['by'] = Hitcore_set_by
    Hitcore_set_dbl_map['bz'] = Hitcore_set_bz
    Hitcore_set_dbl_map['ex'] = Hitcore_set_ex
    Hitcore_set_dbl_map['ey'] = Hitcore_set_ey
    Hitcore_set_dbl_map['ez'] = Hitcore_set_ez
    Hitcore_set_dbl_map['sx'] = Hitcore_set_sx
    Hitcore_set_dbl_map['sy'] = Hitcore_set_sy
    Hitcore_set_dbl_map['sz'] = Hitcore_set_sz
    Hitcore_set_dbl_map['path_length'] = Hitcore_set_path_length
    Hitcore_set_dbl_map['proper_time'] = Hitcore_set_proper_time
    Hitcore_set_dbl_map['e_dep'] = Hitcore_set_energy_deposited
    Hitcore_set_dbl_map['charge'] = Hitcore_set_charge
    Hitcore_set_dbl_map['mass'] = Hitcore_set_mass
    Hitcore_set_dbl_map['local_weight'] = Hitcore_set_local_weight
    Hitcore_set_dbl_map['global_weight'] = Hitcore_set_global_weight


@spec("cxx:_PyBunchcore_setWeightContext", props="P06 P12 P13 P14 P19", io=True)
def ref_PyBunchcore_setWeightContext():
    global Hitcore_weightContext, PYREF
    hc_module = capi.PyImport_ImportModule('xboa.core._hitcore')
    if hc_module is None:
        return False
    hc_class = capi.PyObject_GetAttrString(hc_module, 'Hitcore')
    PYREF = PYREF - capi.ref(hc_module)
    if hc_class is None:
        return False
    pyobj_wc = capi.PyObject_CallMethod(hc_class, 'get_weight_context', None)
    PYREF = PYREF - capi.ref(hc_class)
    if pyobj_wc is None:
        return False
    pywc = pyobj_wc
    Hitcore_weightContext = pywc.cppcontext_
    PYREF = PYREF - capi.ref(pyobj_wc)
    return True


@spec("cxx:_PyCppConverter_new__double", props="P19 P20", io=True)
def ref_PyCppConverter_new__double():
    self = PyCppConverter()
    return self


@spec("cxx:_PyCppConverter_new__map_string_double", props="P19 P20", io=True)
def ref_PyCppConverter_new__map_string_double():
    self = PyCppConverter()
    return self


@spec("cxx:_PyCppConverter_new__string", props="P19 P20", io=True)
def ref_PyCppConverter_new__string():
    self = PyCppConverter()
    return self


@spec("cxx:_PyCppConverter_new__unsignedlong", props="P19 P20", io=True)
def ref_PyCppConverter_new__unsignedlong():
    self = PyCppConverter()
    return self


@spec("cxx:_PyCppConverter_new__vector_string", props="P19 P20", io=True)
def ref_PyCppConverter_new__vector_string():
    self = PyCppConverter()
    return self


@spec("cxx:_PyCppDictToMapConverter_convert__string_double", props="P19 P20", io=True)
def ref_PyCppDictToMapConverter_convert__string_double(self, py_dict, std_map):
    global PYERR
    if std_map is None:
        PYERR = 'TypeError'
        return False
    if py_dict is None or capi.PyType_HasFeature(py_dict.ob_type, 1 << 29) == 0:
        PYERR = 'TypeError'
        return False
    std_map[0] = {}
    py_key = [capi.undefined]
    py_value = [capi.undefined]
    pos = [0]
    for key_, value_ in capi.PyDict_items(py_dict):
        py_key[0] = key_
        py_value[0] = value_
        key = ['']
        value = [capi.undefined]
        if virtual_convert(self.key_c_, py_key[0], key) and virtual_convert(self.value_c_, py_value[0], value):
            std_map[0][key[0]] = value[0]
        else:
            return False
    return True


@spec("cxx:_PyCppDictToMapConverter_new__string_double", props="P19 P20", io=True)
def ref_PyCppDictToMapConverter_new__string_double(key_converter, value_converter):
    self = PyCppDictToMapConverter()
    self.key_c_ = key_converter
    self.value_c_ = value_converter
    return self


@spec("cxx:_PyCppDoubleConverter_convert", props="P19 P20", io=True)
def ref_PyCppDoubleConverter_convert(self, py_double, cpp_double):
    global PYERR
    if py_double is not None and capi.PyObject_TypeCheck(py_double, capi.PyFloat_Type) != 0:
        cpp_double[0] = capi.PyFloat_AsDouble(py_double)
        PYERR = capi.api_error('PyFloat_AsDouble', py_double, PYERR)
    else:
        PYERR = 'TypeError'
        return False
    return True


@spec("cxx:_PyCppDoubleConverter_new", props="P19 P20", io=True)
def ref_PyCppDoubleConverter_new():
    self = PyCppDoubleConverter()
    return self


@spec("cxx:_PyCppIndexConverter_convert", props="P19 P20", io=True)
def ref_PyCppIndexConverter_convert(self, py_int, index):
    global PYERR
    if not capi.PyType_HasFeature(py_int.ob_type, 1 << 24) != 0:
        PYERR = 'TypeError'
        return False
    py_index = capi.PyLong_AsSsize_t(py_int)
    PYERR = capi.api_error('PyLong_AsSsize_t', py_int, PYERR)
    if py_index == -1 and PYERR is not None:
        PYERR = 'IndexError'
        return False
    if py_index < 0:
        index[0] = -(py_index + 1)
    else:
        index[0] = py_index
    if self.has_length_ and index[0] >= self.length_:
        PYERR = 'IndexError'
        return False
    return True


@spec("cxx:_PyCppIndexConverter_new__", props="P19 P20", io=True)
def ref_PyCppIndexConverter_new():
    self = PyCppIndexConverter()
    self.has_length_ = False
    self.length_ = 0
    return self


@spec("cxx:_PyCppIndexConverter_new__unsignedlong", props="P19 P20", io=True)
def ref_PyCppIndexConverter_new__unsignedlong(sequence_length):
    self = PyCppIndexConverter()
    self.has_length_ = True
    self.length_ = sequence_length
    return self


@spec("cxx:_PyCppListToVectorConverter_convert__string", props="P19 P20", io=True)
def ref_PyCppListToVectorConverter_convert__string(self, py_list, std_vector):
    global PYERR
    if not py_list is not None or not capi.PyType_HasFeature(py_list.ob_type, 1 << 25) != 0:
        PYERR = 'TypeError'
        return False
    size = capi.PyList_Size(py_list)
    std_vector[0] = [''] * size
    for i in range(size):
        item = capi.PyList_GetItem(py_list, i)
        if item is not None:
            element = ['']
            if not virtual_convert(self.converter_, item, element):
                PYERR = 'ValueError'
                return False
            std_vector[0][i] = element[0]
        else:
            PYERR = 'TypeError'
            return False
    return True


@spec("cxx:_PyCppListToVectorConverter_new__string", props="P19 P20", io=True)
def ref_PyCppListToVectorConverter_new__string(converter):
    self = PyCppListToVectorConverter()
    self.converter_ = converter
    return self


@spec("cxx:_PyCppStringConverter_convert", props="P19 P20", io=True)
def ref_PyCppStringConverter_convert(self, py_string, cpp_string):
    global PYERR, PYREF
    if py_string is not None and capi.PyType_HasFeature(py_string.ob_type, 1 << 28) != 0:
        bytes = capi.PyUnicode_AsASCIIString(py_string)
        if bytes is not None:
            cpp_string[0] = capi.PyBytes_AsString(bytes)
            PYREF = PYREF - capi.ref(bytes)
            return True
    PYERR = 'TypeError'
    return False


@spec("cxx:_PyCppStringConverter_new", props="P19 P20", io=True)
def ref_PyCppStringConverter_new():
    self = PyCppStringConverter()
    return self


@spec("cxx:_PyHitcore_setWeightContext__", props="P06 P19 P20", io=True)
def ref_PyHitcore_setWeightContext():
    global Hitcore_weightContext, PYREF, PyHitcore_pyCurrentContext
    if not PyWeightContext_import_PyWeightContext() != 0:
        return False
    wc_module = capi.PyImport_ImportModule('xboa.core._weight_context')
    if wc_module is None:
        return False
    wc_class = capi.PyObject_GetAttrString(wc_module, 'WeightContext')
    PYREF = PYREF - capi.ref(wc_module)
    if wc_class is None:
        return False
    pyobj_wc = capi.PyObject_CallObject(wc_class, None)
    PYREF = PYREF - capi.ref(wc_class)
    if pyobj_wc is None:
        return False
    pywc = pyobj_wc
    Hitcore_weightContext = pywc.cppcontext_
    PyHitcore_pyCurrentContext = pywc
    return True


@spec("cxx:_PyHitcore_update_set_get_maps", props="P01 P19", io=True)
def ref_PyHitcore_update_set_get_maps():
    global PyHitcore_get_docstring, PyHitcore_set_docstring
    _Hitcore_initialise_string_to_accessor_maps()
    _Hitcore_initialise_string_to_mutator_maps()
    names = Hitcore_get_names()
    for i in range(len(names)):
        PyHitcore_get_docstring += '  - ' + names[i] + '\n'
    names = Hitcore_set_names()
    for i_2 in range(len(names)):
        PyHitcore_set_docstring += '  - ' + names[i_2] + '\n'


@spec("cxx:_PyWeightContext_parseArg", props="P07 P19", io=True)
def ref_PyWeightContext_parseArg(o1, d1, pywc1):
    global PYERR, PYREF
    if PyWeightContext_is_PyWeightContext(o1):
        pywc1[0] = o1
        return 1
    pywc1[0] = None
    f1 = capi.PyNumber_Float(o1)
    if f1 is None:
        PYERR = 'NotImplementedError'
        return 0
    d1[0] = capi.PyFloat_AsDouble(f1)
    PYERR = capi.api_error('PyFloat_AsDouble', f1, PYERR)
    PYREF = PYREF - capi.ref(f1)
    return 1
