"""Module and class level values of the reviewed tree, one function per body."""

PROPMAP = {
    "xboa": {"*": "P21"},
    "xboa.algorithms": {"*": "P21"},
    "xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix":
        {"*": "P31"},
    "xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder":
        {"*": "P27"},
    "xboa.algorithms.peak_finder._uphill_downhill_peak_finder"
    ":UphillDownhillPeakFinder": {"*": "P27"},
    "xboa.bunch._bunch:Bunch": {
        "__number_of_header_lines": "P08 P34", "__axis_list": "P14 P15 P17",
        "__get_dict": "P17", "__get_list": "P17",
        "__geometric_momentum": "P14 P15", "*": "P21"},
    "xboa.common._common": {
        "float_tolerance": "P03 P05", "kill_subprocesses_at_exit": "P30 P22",
        "pdg_pid_to_muon1": "P10", "muon1_pid_to_pdg": "P10",
        "icool_pid_to_pdg": "P10 P08 P11", "pdg_pid_to_icool": "P10 P08",
        "mars_pid_to_pdg": "P10 P08 P11", "pdg_pid_to_mars": "P10 P08",
        "pdg_pid_to_mass": "P10 P03 P11", "pdg_pid_to_name": "P10",
        "pdg_pid_to_charge": "P10 P11", "constants": "P09 P02 P32",
        "units": "P09 P08 P11 P17 P33", "$io": "P30", "*": "P21"},
    "xboa.common._common:rg": {"*": "P33"},
    "xboa.common.config": {"*": "P21"},
    "xboa.common.matplotlib_wrapper": {"*": "P33"},
    "xboa.common.root_wrapper": {"*": "P33"},
    "xboa.hit._hit:Hit": {
        "__file_types": "P08", "__mass_shell_variables": "P03",
        "__get_variables": "P02 P01 P21", "__set_variables": "P02 P01 P21",
        "_default_var_types": "P08 P01 P11", "__get_keys": "P01 P02",
        "__set_keys": "P01 P02", "__maus_three_vec_conversions": "P11 P08",
        "__maus_variable_conversions": "P11 P08", "__maus_paths": "P11 P08",
        "__maus_root_mc_types": "P11", "__maus_root_recon_types": "P11",
        "__file_formats": "P08", "__file_units": "P08 P09",
        "__file_headers": "P08", "__default_user_string": "P08",
        "__hit_sort_comparator": "P08",
        "__angular_momentum_centroid": "P02",
        "__angular_momentum_vector": "P02", "__bad_pids": "P03 P11",
        "__opal_ignore_probes": "P11", "__opal_probes": "P11",
        "__opal_pid": "P11", "*": "P21"},
    "xboa.hit.factory._builtin_hit_factory:BuiltinHitFactory":
        {"*": "P08 P11"},
    "xboa.hit.factory._hit_factory_base:HitFactoryBase": {"*": "P11"},
    "xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory":
        {"*": "P11"},
    "xboa.hit.factory._maus_root_hit_factory:MausRootHitFactory":
        {"*": "P11"},
    "xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory":
        {"*": "P11"},
    "xboa.tracking.tracking_process._bsub_process:BSubProcess":
        {"*": "P24"},
    "xboa.tracking.tracking_process._tracking_process:TrackingProcess":
        {"*": "P24"},
    "cxx": {
        "PyHitcore__methods": "P01 P06 P19", "PyHitcore_PyHitcoreType":
        "P01 P05 P19 P20", "PyHitcore_hitcoredef": "P21",
        "PyBunchcore_Bunchcore_methods": "P12 P13 P14 P16",
        "PyBunchcore_Bunchcore_as_seq": "P12",
        "PyBunchcore_PyBunchcoreType": "P12 P19 P20",
        "PyBunchcore_bunchcoredef": "P21",
        "PyWeightContext__methods": "P06 P07",
        "PyWeightContext_weightContextNumeric": "P07",
        "PyWeightContext_PyWeightContextType": "P07 P19 P20",
        "PyWeightContext_weight_context_def": "P21",
        "Hitcore_get_dbl_map": "P01", "Hitcore_set_dbl_map": "P01",
        "Hitcore_get_int_map": "P01", "Hitcore_set_int_map": "P01",
        "*": ""},
}


@body("xboa")
def body_1():
    __version__ = '0.17.0'
    __all__ = ['bunch', 'hit', 'common', 'tracking', 'algorithms']

@body("xboa.algorithms")
def body_2():
    __all__ = ['closed_orbit', 'tune', 'smoothing', 'peak_finder']

@body("xboa.algorithms.decoupled_transfer_matrix:DecoupledTransferMatrix")
def body_3():
    det_tolerance = 1e-06

@body("xboa.algorithms.closed_orbit")
def body_4():
    __all__ = ['EllipseClosedOrbitFinder', 'EllipseClosedOrbitFinderIteration']

@body("xboa.algorithms.peak_finder")
def body_5():
    __all__ = ['WindowPeakFinder', 'UphillDownhillPeakFinder', 'RefinePeakFinder']

@body("xboa.algorithms.peak_finder._refine_peak_finder:RefinePeakFinder")
def body_6():
    fit_list = []

@body("xboa.algorithms.peak_finder._uphill_downhill_peak_finder:UphillDownhillPeakFinder")
def body_7():
    fit_list = []

@body("xboa.algorithms.smoothing")
def body_8():
    __all__ = ['GaussianSmoothing', 'FitSmoothing', 'CutSmoothing']

@body("xboa.algorithms.tune")
def body_9():
    __all__ = ['FFTTuneFinder', 'DPhiTuneFinder']

@body("xboa.bunch")
def body_10():
    __all__ = ['Bunch']

@body("xboa.bunch._bunch:Bunch")
def body_11():
    read_maus_root_file = staticmethod(read_maus_root_file)
    read_maus_json_file = staticmethod(read_maus_json_file)
    setup_file = staticmethod(setup_file)
    clear_global_weights = staticmethod(clear_global_weights)
    momentum_variable = staticmethod(momentum_variable)
    get_amplitude = staticmethod(get_amplitude)
    axis_list_to_covariance_list = staticmethod(axis_list_to_covariance_list)
    convert_string_to_axis_list = staticmethod(convert_string_to_axis_list)
    set_geometric_momentum = staticmethod(set_geometric_momentum)
    get_geometric_momentum = staticmethod(get_geometric_momentum)
    get_axes = staticmethod(get_axes)
    list_get = staticmethod(list_get)
    get_variables = staticmethod(get_variables)
    hit_get_variables = staticmethod(hit_get_variables)
    hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
    build_ellipse_2d = staticmethod(build_ellipse_2d)
    build_MR_ellipse = staticmethod(build_MR_ellipse)
    build_ET_ellipse = staticmethod(build_ET_ellipse)
    build_ellipse_from_transfer_matrix = staticmethod(build_ellipse_from_transfer_matrix)
    build_penn_ellipse = staticmethod(build_penn_ellipse)
    root_graph = staticmethod(root_graph)
    matplot_graph = staticmethod(matplot_graph)
    __number_of_header_lines = {'icool_for009': 3, 'icool_for003': 2, 'g4beamline_bl_track_file': 0, 'g4beamline_bl_track_file_2': 0, 'zgoubi': 0, 'turtle': 0, 'madx': 0, 'mars_1': 0, 'maus_json_virtual_hit': 0, 'maus_json_primary': 0, 'opal_loss': 1}
    __axis_list = ['x', 'y', 'z', 't', 'ct']
    __get_dict = {'angular_momentum': __ang_mom_for_get, 'emittance': get_emittance, 'dispersion': __dispersion_for_get, 'dispersion_prime': __dispersion_prime_for_get, 'beta': get_beta, 'alpha': get_alpha, 'gamma': get_gamma, 'moment': moment, 'mean': __mean_for_get, 'bunch_weight': __weight_for_get, 'standard_deviation': standard_deviation}
    __geometric_momentum = False
    __get_list = []
    for key, value in __get_dict.items():
        __get_list.append(key)
    bunch_overview_doc = staticmethod(bunch_overview_doc)

@body("xboa.bunch.weighting")
def body_12():
    __all__ = ['VoronoiWeighting', 'BoundingEllipse', 'HullContent', 'MultipoleWeighting']

@body("xboa.common._common")
def body_13():
    float_tolerance = 1e-09
    kill_subprocesses_at_exit = True
    pdg_pid_to_muon1 = {-13: 'mu+'}
    muon1_pid_to_pdg = {}
    for k, v in pdg_pid_to_muon1.items():
        muon1_pid_to_pdg[v] = k
    icool_pid_to_pdg = {0: 0, 1: -11, 2: -13, 3: 211, 4: 321, 5: 2212, -1: 11, -2: 13, -3: -211, -4: -321, -5: -2212}
    pdg_pid_to_icool = {}
    for k, v in icool_pid_to_pdg.items():
        pdg_pid_to_icool[v] = k
    mars_pid_to_pdg = {1: 2212, 2: 2112, 3: 211, 4: -211, 5: 321, 6: -321, 7: -13, 8: 13, 9: 22, 10: 11, 11: -11, 12: -2212, 13: 111, 14: 1000010020, 15: 1000010030, 16: 1000020030, 17: 1000020040, 18: 14, 19: -14, 20: 12, 21: -12, 22: 130, 23: 310, 24: 311, 25: -311, 26: 3122, 27: -3122, 28: 0, 29: 0, 30: 0, 31: -2112, 32: 0, 33: 0, 34: 0, 35: 0, 36: 0, 37: 0, 38: 0, 39: 0, 40: 0}
    pdg_pid_to_mars = {}
    for k, v in mars_pid_to_pdg.items():
        pdg_pid_to_mars[v] = k
    pdg_pid_to_mass = {0: 0, 11: 0.51099891, 12: 0.0, 13: 105.6583668, 14: 0.0, 22: 0.0, 111: 134.9766, 211: 139.57018, 321: 493.667, 2112: 939.56536, 2212: 938.271996, 1000010020: 1876.1239, 1000010030: 2809.432, 1000020030: 2809.41346, 1000020040: 3728.4001, 130: 497.614, 310: 497.614, 311: 497.614, 3122: 1115.683}
    pdg_pid_to_name = {0: 'none', 11: 'e-', 12: 'electron neutrino', 13: 'mu-', 14: 'muon neutrino', 22: 'photon', 111: 'pi0', 211: 'pi+', 321: 'K+', 2112: 'neutron', 2212: 'proton', 1000010020: 'deuterium', 1000010030: 'tritium', 1000020030: '3He', 1000020040: '4He', 130: 'K0L', 310: 'K0S', 311: 'K0', 3122: 'lambda', -11: 'e+', -12: 'electron antineutrino', -13: 'mu+', -14: 'muon antineutrino', -211: 'pi-', -321: 'K-', -2112: 'antineutron', -2212: 'antiproton', -311: 'antiK0', -3122: 'antilambda'}
    pdg_pid_to_charge = {0: 0, 11: -1, 12: 0, 13: -1, 14: 0, 22: 0, 111: 0, 211: +1, 321: +1, 2112: 0, 2212: +1, 1000010020: +1, 1000010030: +1, 1000020030: +2, 1000020040: +2, 130: 0, 310: 0, 311: 0, 3122: 0, -11: +1, -12: 0, -13: +1, -14: 0, -211: -1, -321: -1, -2112: 0, -2212: -1, -311: 0, -3122: 0}
    constants = {'c_light': 299.792458, 'pi': 3.14159265, 'echarge': 1}
    units = {'': 1.0, 'mum': 0.001, 'mm': 1.0, 'cm': 10.0, 'm': 1000.0, 'km': 1000000.0, 'ns': 1.0, 'mus': 1000.0, 'ms': 1000000.0, 's': 1000000000.0, 'eV': 1e-06, 'keV': 0.001, 'MeV': 1.0, 'GeV': 1000.0, 'TeV': 1000000.0, 'eV/c': 1e-06, 'keV/c': 0.001, 'MeV/c': 1.0, 'GeV/c': 1000.0, 'TeV/c': 1000000.0, 'eV/c2': 1e-06, 'keV/c2': 0.001, 'MeV/c2': 1.0, 'GeV/c2': 1000.0, 'TeV/c2': 1000000.0, 'Gauss': 1e-07, 'mT': 1e-06, 'T': 0.001, 'kT': 1.0, 'V': 1e-06, 'kV': 0.001, 'MV': 1.0, 'GV': 1000.0, 'kHz': 1e-06, 'MHz': 0.001, 'GHz': 1.0, 'GV/m': 1.0, 'GV/mm': 1000.0, 'kW': 6241509.74, 'MW': 6241509740.0, 'GW': 6241509740000.0, 'degrees': 2.0 * constants['pi'] / 360.0, 'radians': 1.0, 'deg': 2.0 * constants['pi'] / 360.0, 'rad': 1.0, 'degree': 2.0 * constants['pi'] / 360.0, 'radian': 1.0, 'echarge': 1.0, 'Coulomb': 6.24150974 * 10.0 ** 18.0}
    _canvas_persistent = []
    _hist_persistent = []
    _graph_persistent = []
    _legend_persistent = []
    _function_persistent = []
    wrapped_y_function = None
    __mp_subprocesses = []
    __fk_subprocesses = []
    atexit.register(__atexit)

@body("xboa.common._common:rg")
def body_14():
    canvas_border_mode = 0
    canvas_highlight_color = 2
    canvas_fill_color = 10
    hist_fill_color = canvas_fill_color
    line_width = 2
    line_color = 1
    line_style = 1
    fill_color = 0
    graph_fill_color = 10
    stats = False
    histo_margin = 0.0
    graph_margin = 0.1
    fit_color = 4
    fit_style = 2

@body("xboa.common.config")
def body_15():
    PACKAGES = {}
    try:
        import libMausCpp
        PACKAGES['maus'] = True
    except:
        PACKAGES['maus'] = False
    try:
        import ROOT
        ROOT.gStyle.SetPalette(1)
        PACKAGES['root'] = True
    except ImportError:
        PACKAGES['root'] = False
    try:
        import scipy
        PACKAGES['scipy'] = True
    except ImportError:
        PACKAGES['scipy'] = False
    try:
        import numpy
        from numpy import linalg
        from numpy import matrix
        PACKAGES['numpy'] = True
    except ImportError:
        PACKAGES['numpy'] = False
    try:
        import matplotlib
        from matplotlib import pyplot
        PACKAGES['matplot'] = True
    except ImportError:
        PACKAGES['matplot'] = False
    try:
        import multiprocessing
        PACKAGES['multiprocessing'] = True
    except ImportError:
        PACKAGES['multiprocessing'] = False
    try:
        import json
        PACKAGES['json'] = True
    except ImportError:
        PACKAGES['json'] = False

@body("xboa.common.matplotlib_wrapper")
def body_16():
    FIGURE_INDEX = 0

@body("xboa.common.root_wrapper")
def body_17():
    _canvas_persistent = []
    _hist_persistent = []
    _graph_persistent = []
    _legend_persistent = []
    _function_persistent = []
    _root_object_persistent = []

@body("xboa.hit")
def body_18():
    all = ['Hit', 'BadEventError']

@body("xboa.hit._hit:Hit")
def body_19():
    new_from_dict = staticmethod(new_from_dict)
    new_from_read_builtin = staticmethod(new_from_read_builtin)
    new_from_read_user = staticmethod(new_from_read_user)
    open_filehandle_for_writing = staticmethod(open_filehandle_for_writing)
    file_header = staticmethod(file_header)
    file_types = staticmethod(file_types)
    get_maus_tree = staticmethod(get_maus_tree)
    mass_shell_variables = staticmethod(mass_shell_variables)
    get_variables = staticmethod(get_variables)
    set_variables = staticmethod(set_variables)
    clear_global_weights = staticmethod(clear_global_weights)
    delete_global_weights = staticmethod(delete_global_weights)
    set_g4bl_unit = staticmethod(set_g4bl_unit)
    __get_maus_root_virtual_hits = staticmethod(__get_maus_root_virtual_hits)
    __get_maus_root_primary_hits = staticmethod(__get_maus_root_primary_hits)
    __split_list_by_equality = staticmethod(__split_list_by_equality)
    __get_maus_tree_recursive = staticmethod(__get_maus_tree_recursive)
    __split_list_by_equality = staticmethod(__split_list_by_equality)
    __file_types = ['icool_for009', 'icool_for003', 'g4beamline_bl_track_file', 'g4beamline_bl_track_file_2', 'mars_1']
    __file_types += ['maus_json_virtual_hit', 'maus_json_primary', 'maus_json_special_virtual_hit']
    try:
        config.has_maus()
        __file_types += ['maus_root_virtual_hit', 'maus_root_primary', 'maus_root_step', 'maus_root_scifi_trackpoint', 'maus_root_scifi_and_tof']
    except ImportError:
        pass
    __mass_shell_variables = ['', 'p', 'px', 'py', 'pz', 'energy']
    __get_variables = {'p': get_p, 'r': get_r, 'phi': get_phi, 'pt': get_pt, 'pphi': get_pphi, "x'": get_xP, "y'": get_yP, "t'": get_tP, "ct'": get_tP, "r'": get_rP, 'spin': get_spin, 'weight': get_weight, 'ct': get_ct, 'r_squared': get_r_squared, "z'": __return_one, 'kinetic_energy': get_ek, 'l_kin': get_l_kin, '': __do_nothing}
    __set_variables = {'p': set_p, "x'": set_xP, "y'": set_yP, "t'": set_tP, 'ct': set_ct, 'kinetic_energy': set_ek, '': __do_nothing}
    _default_var_types = {'x': float, 'y': float, 'z': float, 't': float, 'px': float, 'py': float, 'pz': float, 'energy': float, 'bx': float, 'by': float, 'bz': float, 'ex': float, 'ey': float, 'ez': float, 'eventNumber': int, 'event_number': int, 'particleNumber': int, 'particle_number': int, 'pid': int, 'status': int, 'station': int, 'local_weight': float, 'sx': float, 'sy': float, 'sz': float, 'mass': float, 'path_length': float, 'proper_time': float, 'e_dep': float, 'charge': float, 'spill': int, 'global_weight': float}
    __get_keys = []
    __set_keys = []
    __static_dummy = Hitcore()
    for key in __static_dummy.get_variables():
        __get_keys.append(key)
    for key in __static_dummy.set_variables():
        __set_keys.append(key)
    for key, value in __get_variables.items():
        __get_keys.append(key)
    for key, value in __set_variables.items():
        __set_keys.append(key)
    for key, value in __get_variables.items():
        if not key in _default_var_types:
            _default_var_types[key] = float
    __maus_three_vec_conversions = {'maus_json_virtual_hit': {'position': '', 'momentum': 'p', 'b_field': 'b', 'e_field': 'e'}, 'maus_json_primary': {'position': '', 'momentum': 'p'}}
    __maus_variable_conversions = {'maus_json_virtual_hit': {'station_id': 'station', 'particle_id': 'pid', 'track_id': 'particle_number', 'time': 't', 'mass': 'mass', 'charge': 'charge', 'proper_time': 'proper_time', 'path_length': 'path_length'}, 'maus_json_primary': {'particle_id': 'pid', 'time': 't', 'energy': 'energy'}}
    __maus_paths = {'maus_json_virtual_hit': ['mc_events', ['particle_number'], 'virtual_hits', ['station']], 'maus_json_primary': ['mc_events', ['particle_number'], 'primary']}
    __maus_root_mc_types = {'maus_root_virtual_hit': lambda x, y: Hit.__get_maus_root_virtual_hits(x, y), 'maus_root_primary': lambda x, y: Hit.__get_maus_root_primary_hits(x, y)}
    __maus_root_recon_types = {}
    __file_formats = {'icool_for009': ['eventNumber', 'particleNumber', 'pid', 'status', 'station', 't', 'x', 'y', 'z', 'px', 'py', 'pz', 'bx', 'by', 'bz', 'local_weight', 'ex', 'ey', 'ez', '', 'sx', 'sy', 'sz'], 'icool_for003': ['eventNumber', 'particleNumber', 'pid', 'status', 't', 'local_weight', 'x', 'y', 'z', 'px', 'py', 'pz', 'sx', 'sy', 'sz'], 'g4beamline_bl_track_file': ['x', 'y', 'z', 'px', 'py', 'pz', 't', 'pid', 'eventNumber', 'particleNumber', '', 'local_weight'], 'g4beamline_bl_track_file_2': ['x', 'y', 'z', 'px', 'py', 'pz', 't', 'pid', 'eventNumber', 'particleNumber', '', 'local_weight', '', '', ''], 'ZGoubi': [], 'Turtle': [], 'MadX': [], 'mars_1': ['eventNumber', 'pid', 'x', 'y', 'z', 'px', 'py', 'pz', 'energy', 'ct', 'local_weight']}
    __file_units = {'icool_for009': {'eventNumber': '', 'particleNumber': '', 'pid': '', 'status': '', 'station': '', 't': 's', 'x': 'm', 'y': 'm', 'z': 'm', 'px': 'GeV/c', 'py': 'GeV/c', 'pz': 'GeV/c', 'bx': 'T', 'by': 'T', 'bz': 'T', 'local_weight': '', 'ex': 'GV/m', 'ey': 'GV/m', 'ez': 'GV/m', 'sx': '', 'sy': '', 'sz': '', '': ''}, 'icool_for003': {'eventNumber': '', 'particleNumber': '', 'pid': '', 'status': '', 't': 's', 'local_weight': '', 'x': 'm', 'y': 'm', 'z': 'm', 'px': 'GeV/c', 'py': 'GeV/c', 'pz': 'GeV/c', 'sx': '', 'sy': '', 'sz': ''}, 'g4beamline_bl_track_file': {'x': 'mm', 'y': 'mm', 'z': 'mm', 'px': 'MeV/c', 'py': 'MeV/c', 'pz': 'MeV/c', 't': 'ns', 'pid': '', 'eventNumber': '', 'station': '', 'local_weight': '', 'particleNumber': ''}, 'g4beamline_bl_track_file_2': {'x': 'mm', 'y': 'mm', 'z': 'mm', 'px': 'MeV/c', 'py': 'MeV/c', 'pz': 'MeV/c', 't': 'ns', 'pid': '', 'eventNumber': '', 'station': '', 'local_weight': '', 'particleNumber': ''}, 'ZGoubi': {}, 'Turtle': {}, 'MadX': {}, 'mars_1': {'eventNumber': '', 'pid': '', 'x': 'mm', 'y': 'mm', 'z': 'mm', 'px': 'GeV/c', 'py': 'GeV/c', 'pz': 'GeV/c', 'energy': 'GeV', 'ct': 'cm', 'local_weight': ''}, 'maus_json_virtual_hit': {}, 'maus_json_primary': {}}
    __file_headers = {'icool_for003': '<user>\n0. 0. 0. 0. 0. 0. 0. 0.\n', 'icool_for009': '#<user>\n#  units = [s] [m]  [GeV/c] [T] [V/m]\nevt par typ  flg   reg    time        x           y           z           Px          Py          Pz          Bx          By          Bz          wt          Ex          Ey          Ez          arclength   polX        polY        polZ\n', 'g4beamline_bl_track_file': '#BLTrackFile <user>\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n', 'g4beamline_bl_track_file_2': '#BLTrackFile <user>\n#x y z Px Py Pz t PDGid EvNum TrkId Parent weight\n', 'ZGoubi': '', 'Turtle': '', 'MadX': '', 'mars_1': '', 'maus_json_virtual_hit': '', 'maus_json_primary': ''}
    __default_user_string = 'File generated by X_BOA'
    __event_cmp = staticmethod(__event_cmp)
    __station_cmp = staticmethod(__station_cmp)
    __hit_sort_comparator = {'icool_for009': __event_cmp, 'icool_for003': __event_cmp, 'g4beamline_bl_track_file': __event_cmp, 'g4beamline_bl_track_file_2': __event_cmp, 'ZGoubi': __event_cmp, 'Turtle': __event_cmp, 'MadX': __event_cmp, 'maus_json_virtual_hit': __event_cmp, 'maus_json_primary': __event_cmp, 'mars_1': __event_cmp}
    __angular_momentum_centroid = (0.0, 0.0, 0.0)
    __angular_momentum_vector = (0.0, 0.0, 1.0)
    __bad_pids = []
    __maus_root_mc_types = {'maus_root_virtual_hit': lambda x, y: Hit.__get_maus_root_virtual_hits(x, y), 'maus_root_primary': lambda x, y: Hit.__get_maus_root_primary_hits(x, y)}
    __maus_root_recon_types = {}
    __opal_ignore_probes = ['RING']
    __opal_probes = {}
    __opal_pid = 0
    hit_overview_doc = staticmethod(hit_overview_doc)

@body("xboa.hit.factory")
def body_20():
    all = ['HitFactoryBase', 'LineFactoryBase', 'UserHitFactory', 'BuiltinHitFactory', 'OpalHitFactory', 'MausJsonHitFactory']
    try:
        from xboa.hit.factory._maus_root_hit_factory import MausRootHitFactory
        from xboa.hit.factory._maus_root_recon_hit_factory import MausRootReconHitFactory
        all += ['MausRootHitFactory', 'MausRootReconHitFactory']
    except ImportError:
        pass

@body("xboa.hit.factory._builtin_hit_factory:BuiltinHitFactory")
def body_21():
    file_formats = {'icool_for009': ['eventNumber', 'particleNumber', 'pid', 'status', 'station', 't', 'x', 'y', 'z', 'px', 'py', 'pz', 'bx', 'by', 'bz', 'local_weight', 'ex', 'ey', 'ez', '', 'sx', 'sy', 'sz'], 'icool_for003': ['eventNumber', 'particleNumber', 'pid', 'status', 't', 'local_weight', 'x', 'y', 'z', 'px', 'py', 'pz', 'sx', 'sy', 'sz'], 'g4beamline_bl_track_file': ['x', 'y', 'z', 'px', 'py', 'pz', 't', 'pid', 'eventNumber', 'particleNumber', '', 'local_weight'], 'g4beamline_bl_track_file_2': ['x', 'y', 'z', 'px', 'py', 'pz', 't', 'pid', 'eventNumber', 'particleNumber', '', 'local_weight', '', '', ''], 'mars_1': ['eventNumber', 'pid', 'x', 'y', 'z', 'px', 'py', 'pz', 'energy', 'ct', 'local_weight']}
    file_units = {'icool_for009': {'eventNumber': '', 'particleNumber': '', 'pid': '', 'status': '', 'station': '', 't': 's', 'x': 'm', 'y': 'm', 'z': 'm', 'px': 'GeV/c', 'py': 'GeV/c', 'pz': 'GeV/c', 'bx': 'T', 'by': 'T', 'bz': 'T', 'local_weight': '', 'ex': 'GV/m', 'ey': 'GV/m', 'ez': 'GV/m', 'sx': '', 'sy': '', 'sz': '', '': ''}, 'icool_for003': {'eventNumber': '', 'particleNumber': '', 'pid': '', 'status': '', 't': 's', 'local_weight': '', 'x': 'm', 'y': 'm', 'z': 'm', 'px': 'GeV/c', 'py': 'GeV/c', 'pz': 'GeV/c', 'sx': '', 'sy': '', 'sz': ''}, 'g4beamline_bl_track_file': {'x': 'mm', 'y': 'mm', 'z': 'mm', 'px': 'MeV/c', 'py': 'MeV/c', 'pz': 'MeV/c', 't': 'ns', 'pid': '', 'eventNumber': '', 'station': '', 'local_weight': '', 'particleNumber': ''}, 'g4beamline_bl_track_file_2': {'x': 'mm', 'y': 'mm', 'z': 'mm', 'px': 'MeV/c', 'py': 'MeV/c', 'pz': 'MeV/c', 't': 'ns', 'pid': '', 'eventNumber': '', 'station': '', 'local_weight': '', 'particleNumber': ''}, 'mars_1': {'eventNumber': '', 'pid': '', 'x': 'mm', 'y': 'mm', 'z': 'mm', 'px': 'GeV/c', 'py': 'GeV/c', 'pz': 'GeV/c', 'energy': 'GeV', 'ct': 'cm', 'local_weight': ''}}
    file_mass_shell = {'icool_for009': 'energy', 'icool_for003': 'energy', 'g4beamline_bl_track_file': 'energy', 'g4beamline_bl_track_file_2': 'energy', 'mars_1': 'energy'}

@body("xboa.hit.factory._hit_factory_base:HitFactoryBase")
def body_22():
    bad_pids = []

@body("xboa.hit.factory._maus_json_hit_factory:MausJsonHitFactory")
def body_23():
    _maus_three_vec_conversions = {'virtual_hit': {'position': '', 'momentum': 'p', 'b_field': 'b', 'e_field': 'e'}, 'special_virtual_hit': {'position': '', 'momentum': 'p'}, 'primary': {'position': '', 'momentum': 'p'}}
    _maus_variable_conversions = {'virtual_hit': {'station_id': 'station', 'particle_id': 'pid', 'track_id': 'particle_number', 'time': 't', 'mass': 'mass', 'charge': 'charge', 'proper_time': 'proper_time', 'path_length': 'path_length'}, 'primary': {'particle_id': 'pid', 'time': 't', 'energy': 'energy'}, 'special_virtual_hit': {'particle_id': 'pid', 'track_id': 'particle_number', 'time': 't', 'mass': 'mass', 'charge': 'charge', 'path_length': 'path_length', 'energy_deposited': 'e_dep'}}
    _file_mass_shell = {'virtual_hit': 'energy', 'special_virtual_hit': 'energy', 'primary': 'p'}

@body("xboa.hit.factory._maus_root_hit_factory:MausRootHitFactory")
def body_24():
    sf_tracker_coeff = 100
    sf_station_coeff = 10
    sf_plane_coeff = 1
    sf_station_offset = 90000

@body("xboa.hit.factory._maus_root_recon_hit_factory:MausRootReconHitFactory")
def body_25():
    _file_mass_shell = {'virtual_hit': 'energy', 'primary': 'p'}
    sf_tracker_coeff = 100
    sf_station_coeff = 10
    sf_plane_coeff = 1
    sf_station_offset = 90000
    sf_p_value_cut = -1.0
    fallback_on_slabs = True
    fallback_on_digits = True

@body("xboa.tracking")
def body_26():
    __all__ = ['MatrixTracking', 'MAUSTracking', 'TrackingBase', 'TimeoutTracking', 'MultiTrack']

@body("xboa.tracking.tracking_process")
def body_27():
    __all__ = ['TrackingProcess', 'ThisNodeProcess', 'BSubProcess']

@body("xboa.tracking.tracking_process._bsub_process:BSubProcess")
def body_28():
    scratch_dir = '/work/scratch/tracking'
    std_out = 'job.out'
    std_err = 'job.err'

@body("xboa.tracking.tracking_process._tracking_process:TrackingProcess")
def body_29():
    pickle_jar = 'tracking_process.pickle'
    pickle_sandwich = 'hits_out.pickle'
    run_executable = 'xboa_tracking_process.py'

@body("cxx")
def body_30():
    PYERR = None
    PYREF = 0
    Hitcore_get_dbl_map = {}
    Hitcore_get_int_map = {}
    Hitcore_set_dbl_map = {}
    Hitcore_set_int_map = {}
    Hitcore_weightContext = None
    PyBunchcore_Bunchcore_as_seq = {0: PyBunchcore_sequence_length}
    PyBunchcore_Bunchcore_members = [{}]
    PyBunchcore_Bunchcore_methods = {'set_item': (PyBunchcore_set_item, 3), 'get_item': (PyBunchcore_get_item, 3), 'del_item': (PyBunchcore_del_item, 3), 'length': (PyBunchcore_length, 3), 'moment': (PyBunchcore_moment, 3), 'covariance_matrix': (PyBunchcore_covariance_matrix, 3), 'cut_double': (PyBunchcore_cut_double, 3), 'moment_tensor': (PyBunchcore_moment_tensor, 3), 'index_by_power': (PyBunchcore_index_by_power, 3)}
    PyBunchcore_PyBunchcoreType = {0: {0: [[1], None]}, 1: '_bunchcore.Bunchcore', 2: capi.sizeof, 4: PyBunchcore_dealloc, 11: PyBunchcore_Bunchcore_as_seq, 19: 1024, 27: PyBunchcore_Bunchcore_methods, 28: PyBunchcore_Bunchcore_members, 35: PyBunchcore_init, 36: PyBunchcore_alloc, 38: PyBunchcore_dealloc}
    PyBunchcore_bunchcoredef = {0: {0: [[1], None]}, 1: '_bunchcore', 3: -1}
    PyHitcore__keywdarg_methods = {}
    PyHitcore__members = [{}]
    PyHitcore__methods = {'get': (PyHitcore_get, 3), 'get_variables': (PyHitcore_get_variables, 17), 'set': (PyHitcore_set, 3), 'set_variables': (PyHitcore_set_variables, 17), 'clear_global_weights': (PyHitcore_clear_global_weights, 17), 'set_weight_context': (PyHitcore_setWeightContext__PyObjectP_PyObjectP, 19), 'get_weight_context': (PyHitcore_getWeightContext, 17), 'dump_memory': (PyHitcore_dump_memory, 17)}
    PyHitcore_check_ptr = None
    PyHitcore_create_empty_hitcore_ptr = None
    PyHitcore_get_hitcore_ptr = None
    PyHitcore_hitcore_smartpointer_context = [{}]
    PyHitcore_hitcoredef = {0: {0: [[1], None]}, 1: '_hitcore', 3: -1, 4: PyHitcore__keywdarg_methods}
    PyHitcore_pyCurrentContext = None
    PyHitcore_set_hitcore_ptr = None
    PyWeightContext__keywdarg_methods = {}
    PyWeightContext__members = [{}]
    PyWeightContext__methods = {'get_default_weight': (PyWeightContext_getDefaultWeight, 3), 'set_default_weight': (PyWeightContext_setDefaultWeight, 3), 'get_weight': (PyWeightContext_getWeight, 3), 'set_weight': (PyWeightContext_setWeight, 3), 'print_address': (PyWeightContext_printAddress, 1)}
    PyWeightContext_create_empty_weightcontext_ptr = None
    PyWeightContext_is_PyWeightContext_ptr = None
    PyWeightContext_weightContextNumeric = {0: PyWeightContext_binary_operator__Add, 1: PyWeightContext_binary_operator__Subtract, 2: PyWeightContext_binary_operator__Multiply, 10: PyWeightContext_unary_operator__Not, 30: PyWeightContext_binary_operator__Divide}
    PyWeightContext_weight_context_def = {0: {0: [[1], None]}, 1: '_weight_context', 3: -1, 4: PyWeightContext__keywdarg_methods}
    PyWeightContext_weightcontext_smartpointer_context = [{}]
    SmartPointer_ref_count___Hitcore = None
    SmartPointer_ref_count___WeightContext = None
    PyHitcore_PyHitcoreType = {0: {0: [[1], None]}, 1: '_hitcore.Hitcore', 2: capi.sizeof, 4: PyHitcore__free, 19: 1024, 23: PyHitcore__richcompare, 27: PyHitcore__methods, 28: PyHitcore__members, 35: PyHitcore__init, 36: PyHitcore__alloc, 38: PyHitcore__free, 46: 1}
    PyWeightContext_PyWeightContextType = {0: {0: [[1], None]}, 1: '_weight_context.WeightContext', 2: capi.sizeof, 4: PyWeightContext__free, 10: PyWeightContext_weightContextNumeric, 19: 1024, 23: PyWeightContext_richCompare, 27: PyWeightContext__methods, 28: PyWeightContext__members, 35: PyWeightContext__init, 36: PyWeightContext__alloc, 38: PyWeightContext__free, 46: 1}
