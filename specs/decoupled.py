# drafted from reviewed code, parsed and never executed
import math
import cmath
import numpy
import copy
from xboa.algorithms.decoupled_transfer_matrix import _random_rotated
from xboa.algorithms.decoupled_transfer_matrix import test_get_closed_ellipse
from xboa.algorithms.decoupled_transfer_matrix import DecoupledTransferMatrix

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix.__init__", props="P31")
def ref_DecoupledTransferMatrix_init(self, transfer_matrix):
    self.m = numpy.array(transfer_matrix)
    if self.m.shape[0] != self.m.shape[1]:
        raise ValueError('Transfer matrix was not square')
    if self.m.shape[0] // 2 * 2 != self.m.shape[0]:
        raise ValueError('Transfer matrix had odd size (should be even)')
    det_m = numpy.linalg.det(self.m)
    if abs(det_m - 1) > self.det_tolerance:
        raise ValueError('Transfer matrix determinant deviated from 1 by ' + str(det_m - 1) + ' - DecoupledTransferMatrix.det_tolerance was ' + str(self.det_tolerance))
    self.dim = self.m.shape[0] // 2
    self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
    self.t_evector = None
    self.t_evalue = None
    self.t = None
    self.r = None
    self.v_t = None
    self.phase = [None] * self.dim
    self._get_decoupling()

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix._get_decoupling", props="P31")
def ref_DecoupledTransferMatrix_get_decoupling(self):
    self.t_evector = [[0 + 0j for i in range(self.dim * 2)] for j in range(self.dim * 2)]
    self.t_evector = numpy.array(self.t_evector)
    self.v_t = numpy.zeros([self.dim * 2, self.dim * 2])
    for i in range(self.dim):
        j = 2 * i
        evector = numpy.transpose(self.m_evector)[j]
        phi_i = numpy.angle(evector[j])
        exp_phi_i = numpy.exp(1j * phi_i)
        try:
            ratio = evector[j + 1] / evector[j]
            beta_i = 1.0 / numpy.imag(ratio)
            alpha_i = -beta_i * numpy.real(ratio)
        except FloatingPointError:
            beta_i = -1.0
            alpha_i = 0.0
        phase_i = numpy.angle(self.m_evalue[j])
        self.t_evector[j, j] = cmath.sqrt(beta_i) * exp_phi_i
        self.t_evector[j + 1, j] = 1.0 / cmath.sqrt(beta_i) * (-alpha_i + 1j) * exp_phi_i
        self.t_evector[j, j + 1] = numpy.conj(self.t_evector[j, j])
        self.t_evector[j + 1, j + 1] = numpy.conj(self.t_evector[j + 1, j])
        self.phase[i] = phase_i
        sign = 1.0
        if beta_i < 0:
            sign = -1.0
        self.v_t[j, j] = sign * beta_i
        self.v_t[j, j + 1] = -sign * alpha_i
        self.v_t[j + 1, j] = -sign * alpha_i
        self.v_t[j + 1, j + 1] = sign * (1 + alpha_i * alpha_i) / beta_i
    self.r = numpy.dot(self.m_evector, numpy.linalg.inv(self.t_evector))
    r_inv = numpy.linalg.inv(self.r)
    self.t = numpy.dot(r_inv, numpy.dot(self.m, self.r))

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix.get_v_m", props="P31")
def ref_DecoupledTransferMatrix_get_v_m(self, eigen_emittances):
    if len(eigen_emittances) != self.dim:
        raise ValueError('Eigen emittances ' + str(eigen_emittances) + 'of wrong length (should be ' + str(self.dim) + ')')
    v_m = copy.deepcopy(self.v_t)
    for i in range(self.dim):
        v_m[i * 2, i * 2] *= eigen_emittances[i]
        v_m[i * 2, i * 2 + 1] *= eigen_emittances[i]
        v_m[i * 2 + 1, i * 2] *= eigen_emittances[i]
        v_m[i * 2 + 1, i * 2 + 1] *= eigen_emittances[i]
    v_m = numpy.dot(numpy.dot(self.r, v_m), numpy.transpose(self.r))
    return numpy.real(v_m)

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix.get_phase_advance", props="P31")
def ref_DecoupledTransferMatrix_get_phase_advance(self, axis):
    return self.phase[axis]

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix.get_beta", props="P31")
def ref_DecoupledTransferMatrix_get_beta(self, axis):
    return self.v_t[2 * axis, 2 * axis]

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix.get_alpha", props="P31")
def ref_DecoupledTransferMatrix_get_alpha(self, axis):
    return -self.v_t[2 * axis + 1, 2 * axis]

@spec("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix.get_gamma", props="P31")
def ref_DecoupledTransferMatrix_get_gamma(self, axis):
    return self.v_t[2 * axis + 1, 2 * axis + 1]
