# drafted from reviewed code, parsed and never executed
import bisect
import numpy
from xboa.bunch.weighting._multipole_weighting import index_by_power
from xboa.bunch.weighting._multipole_weighting import MultipoleWeighting

@spec("xboa.bunch.weighting._multipole_weighting:index_by_power", props="P28")
def ref_index_by_power():
    pass

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting.__init__", props="P28")
def ref_MultipoleWeighting_init(self, maximum_pole, weight_variables, target_ellipse, target_mean):
    self.maximum_moment = maximum_pole
    self.weight_variables = weight_variables
    self.v_f_list = None
    self.v_g_list = None
    self.v_f_index_by_power = None
    self.v_g_index_by_power = None
    self._moments_from_ellipse(target_mean, target_ellipse)

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting.apply_weights", props="P28")
def ref_MultipoleWeighting_apply_weights(self, bunch, global_cut):
    coefficients = self._calculate_coefficients(bunch)
    weight_var = 'local_weight'
    if global_cut:
        weight_var = 'global_weight'
    hit_data = bunch.list_get_hit_variable(self.weight_variables)
    sum_weights = 0.0
    for i, hit in enumerate(bunch):
        w_i = 1.0
        for j, coeff in enumerate(coefficients):
            this_w = coeff
            index = self.v_g_index_by_power[j]
            for k, power in enumerate(index):
                this_w *= hit_data[k][i] ** power
            w_i += this_w
        sum_weights += w_i / len(bunch)
        bunch[i][weight_var] *= w_i
    for hit in bunch:
        hit[weight_var] /= sum_weights
    return bunch

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting.set_target_moments", props="P28")
def ref_MultipoleWeighting_set_target_moments(self, moment_index_list, moment_list):
    if len(moment_index_list) != len(moment_list):
        raise ValueError('Length of moment_index_list is different to ' + 'length of moment_list')
    for item in moment_index_list:
        if len(item) != len(self.weight_variables):
            raise ValueError('index length is different to weight_variables length')
        for index in item:
            if type(index) != type(0):
                raise ValueError('Index type is non-integer')
    for i, item in enumerate(moment_index_list):
        if item in moment_index_list[:i]:
            raise ValueError('Indices should be unique')
    sorted_list = sorted(zip(moment_index_list, moment_list))
    self.v_g_index_by_power, self.v_g_list = zip(*sorted_list)

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting._calculate_coefficients", props="P28")
def ref_MultipoleWeighting_calculate_coefficients(self, bunch):
    self._setup(bunch)
    m_matrix = numpy.zeros([len(self.v_g_index_by_power), len(self.v_g_index_by_power)])
    for i, list_i in enumerate(self.v_g_index_by_power):
        for j, list_j in enumerate(self.v_g_index_by_power):
            list_ij = [list_i[i1] + list_j[i1] for i1, index_i in enumerate(list_i)]
            m_matrix[i, j] = self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
    m_inverse = numpy.linalg.inv(m_matrix)
    u_vector = numpy.zeros([len(self.v_g_index_by_power)])
    for i, list_i in enumerate(self.v_g_index_by_power):
        u_vector[i] = self._v_g(list_i) - self._v_f(list_i)
    a_vector = numpy.dot(m_inverse, u_vector)
    return a_vector

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting._v_f", props="P28")
def ref_MultipoleWeighting_v_f(self, index_list):
    index = bisect.bisect_left(self.v_f_index_by_power, index_list)
    v_f_ = self.v_f_list[index]
    return v_f_

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting._v_g", props="P28")
def ref_MultipoleWeighting_v_g(self, index_list):
    index = bisect.bisect_left(self.v_g_index_by_power, index_list)
    v_g_ = self.v_g_list[index]
    return v_g_

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting._setup", props="P28")
def ref_MultipoleWeighting_setup(self, bunch):
    self.v_f_index_by_power = bunch._Bunch__bunchcore.index_by_power(2 * self.maximum_moment, len(self.weight_variables))[1:]
    self.v_f_list = bunch._Bunch__bunchcore.moment_tensor(self.weight_variables, 2 * self.maximum_moment)[1:]
    sorted_list = sorted(zip(self.v_f_index_by_power, self.v_f_list))
    self.v_f_index_by_power, self.v_f_list = zip(*sorted_list)

@spec("xboa.bunch.weighting._multipole_weighting:MultipoleWeighting._moments_from_ellipse", props="P28")
def ref_MultipoleWeighting_moments_from_ellipse(self, target_mean, target_ellipse):
    n_vars = len(self.weight_variables)
    indices, moments = ([], [])
    for i in range(n_vars):
        indices.append([0] * n_vars)
        indices[-1][i] += 1
        moments.append(target_mean[i])
    for i in range(n_vars):
        for j in range(i, n_vars):
            indices.append([0] * n_vars)
            indices[-1][i] += 1
            indices[-1][j] += 1
            moments.append(target_ellipse[i, j])
    self.set_target_moments(indices, moments)
