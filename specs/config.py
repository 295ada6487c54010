# drafted from reviewed code, parsed and never executed
import xboa
import sys
import libMausCpp
import ROOT
import scipy
import numpy
from numpy import linalg
from numpy import matrix
import matplotlib
from matplotlib import pyplot
import multiprocessing
import json
from xboa.common.config import print_config
from xboa.common.config import has_multiprocessing
from xboa.common.config import has_maus
from xboa.common.config import has_root
from xboa.common.config import has_numpy
from xboa.common.config import has_scipy
from xboa.common.config import has_matplot
from xboa.common.config import has_json
from xboa.common.config import has_matplotlib

@spec("xboa.common.config:print_config", props="P21")
def ref_print_config():
    for package in PACKAGES:
        if PACKAGES[package]:
            pass
    for package in PACKAGES:
        if not PACKAGES[package]:
            pass

@spec("xboa.common.config:has_multiprocessing", props="P21")
def ref_has_multiprocessing():
    if not PACKAGES['multiprocessing']:
        raise ImportError('Attempt to use multiprocessing when library has not been imported - multiprocessing requires matplot >= 2.6')
    return True

@spec("xboa.common.config:has_maus", props="P21")
def ref_has_maus():
    if not PACKAGES['maus']:
        raise ImportError('Attempt to use maus when library has not been imported - check your maus installation')
    return True

@spec("xboa.common.config:has_root", props="P21")
def ref_has_root():
    if not PACKAGES['root']:
        raise ImportError('Attempt to use root when library has not been imported - check your root installation')
    return True

@spec("xboa.common.config:has_numpy", props="P21")
def ref_has_numpy():
    if not PACKAGES['numpy']:
        raise ImportError('Attempt to use numpy when library has not been imported - check your numpy installation')
    return True

@spec("xboa.common.config:has_scipy", props="P21")
def ref_has_scipy():
    if not PACKAGES['scipy']:
        raise ImportError('Attempt to use scipy when library has not been imported - check your scipy installation')
    return True

@spec("xboa.common.config:has_matplot", props="P21")
def ref_has_matplot():
    if not PACKAGES['matplot']:
        raise ImportError('Attempt to use matplotlib when library has not been imported - check your matplotlib installation')
    return True

@spec("xboa.common.config:has_json", props="P21")
def ref_has_json():
    if not PACKAGES['json']:
        raise ImportError('Attempt to use json when library has not been imported - check your json installation (python >= 2.6)')
    return True

@spec("xboa.common.config:has_matplotlib", props="P21")
def ref_has_matplotlib():
    if not PACKAGES['matplot']:
        raise ImportError('Attempt to use matplotlib when library has not been imported - check your matplotlib installation')
    return True
