"""Which further properties a function takes part in, beyond the ones its
reference names."""
import re

EXTRA = [
    (r"cxx:_?(Py\w+|CppPyConverter\w*|PyCppConverter\w*|PythonComparator\w*)",
     "P19 P20"),
    (r"cxx:_?Bunchcore_(new\w*|get_item|set_item|del_item|assign\w*)",
     "P12 P20"),
    (r"cxx:_?Hitcore_(get_\w+|set_\w+)$", "P19"),
    (r"cxx:_?SmartPointer.*", "P20"),
    (r"cxx:_?Bunchcore_(get_moment\w*|covariance_matrix|bunch_weight)",
     "P13 P14"),
    (r"cxx:_?Hitcore_.*weight.*", "P06"),
    (r"cxx:_?WeightContext_.*", "P06 P07"),
    (r"xboa\.hit\._hit:Hit\.(get|set|__getitem__|__setitem__|__init__|"
     r"__return_one|__do_nothing|get_variables|set_variables)$",
     "P01 P02 P19"),
    (r"xboa\.hit\._hit:Hit\.(set_ek|set_p|get_ek|set_ct|set_xP|set_yP|set_tP)$",
     "P02 P03"),
    (r"xboa\.hit\._hit:Hit\.(translate|abelian_transformation|get_vector)$",
     "P03 P04"),
    (r"xboa\.hit\._hit:Hit\.new_from_dict$", "P01 P03 P05"),
    (r"xboa\.hit\._hit:Hit\.new_from_read_(builtin|user)$", "P08 P11 P34"),
    (r"xboa\.hit\._hit:Hit\.new_list_from_maus_.*", "P11 P34"),
    (r"xboa\.hit\._hit:Hit\._*get_maus_.*", "P08 P11"),
    (r"xboa\.hit\._hit:Hit\._*set_from_dict$", "P01 P05 P11"),
    (r"xboa\.hit\._hit:Hit\.(open_filehandle_for_writing|"
     r"write_list_builtin_formatted|write_user_formatted)$", "P08 P22"),
    (r"xboa\.hit\._hit:Hit\.(get_weight|get_local_weight|get_global_weight|"
     r"set_local_weight|set_global_weight|clear_global_weights|"
     r"delete_global_weights)$", "P06 P02"),
    (r"xboa\.hit\._hit:Hit\.set_g4bl_unit$", "P08 P09"),
    (r"xboa\.hit\._hit:Hit\.(check|mass_shell_\w+)$", "P03"),
    (r"xboa\.hit\.factory\..*", "P11 P34"),
    (r"xboa\.hit\.factory\._(builtin|line|opal|user)\w*:.*", "P08 P11 P34"),
    (r"xboa\.hit\.factory\._hit_factory_base:.*", "P08 P11 P34"),
    (r"xboa\.hit\.factory\.\w+:\w+\.(file_types|deprecated_file_types)$",
     "P08 P11"),
    (r"xboa\.bunch\._bunch:Bunch\.(translate|abelian_transformation|"
     r"transform_to|period_transformation)$", "P03 P04"),
    (r"xboa\.bunch\._bunch:Bunch\.(__copy__|copy|deepcopy|__deepcopy__|"
     r"new_from_hits|hits|get_hits|conditional_remove)$", "P05 P12"),
    (r"xboa\.bunch\._bunch:Bunch\.(clear_\w*weights?)$", "P06 P17"),
    (r"xboa\.bunch\._bunch:Bunch\.(split|conditional_remove|hit_equality|"
     r"get_hits)$", "P17 P34"),
    (r"xboa\.bunch\._bunch:Bunch\.(transmission_cut|hit_equality|cut|_cut|"
     r"conditional_remove)$", "P16"),
    (r"xboa\.bunch\._bunch:Bunch\.(cut|_cut)$", "P06 P16"),
    (r"xboa\.bunch\._bunch:Bunch\.(covariance_matrix|standard_deviation|"
     r"_*mean_picker|_*cov_mat_picker|means_set|covariances_set|"
     r"set_covariance_matrix|moment|mean|bunch_weight)$", "P13 P14"),
    (r"xboa\.bunch\._bunch:Bunch\.(axis_list_to_covariance_list|"
     r"convert_string_to_axis_list|get_axes|_*cov_mat_picker|"
     r"_*mean_picker)$", "P14 P15 P17"),
    (r"xboa\.bunch\._bunch:Bunch\.(set_geometric_momentum|"
     r"get_geometric_momentum|momentum_variable)$", "P14 P15"),
    (r"xboa\.bunch\._bunch:Bunch\.(get_\w+|mean|moment|bunch_weight|"
     r"standard_deviation|_*\w+_for_get)$", "P17"),
    (r"xboa\.bunch\._bunch:Bunch\.build_ellipse_from_transfer_matrix$",
     "P31 P32"),
    (r"xboa\.bunch\._bunch:Bunch\.(new_hit_shell|build_\w+)$", "P03 P32"),
    (r"xboa\.bunch\._bunch:Bunch\.(new_\w+_from_read_\w+|setup_file|"
     r"read_maus_\w+|new_from_read_\w+)$", "P08 P22 P34"),
    (r"xboa\.bunch\._bunch:Bunch\.hit_write_\w+$", "P08 P22"),
    (r"xboa\.bunch\._bunch:Bunch\.(histogram\w*)$", "P29"),
    (r"xboa\.bunch\._bunch:Bunch\.(root_histogram|matplot_histogram)$",
     "P29"),
    (r"xboa\.common\._common:(make_root_histogram|make_matplot_histogram)$",
     "P29 P33"),
    (r"xboa\.common\._common:(subprocess|process_list|"
     r"kill_all_subprocesses|_*atexit|_*function_with_queue)$", "P22 P30"),
    (r"xboa\.common\._common:(make_grid|make_shell|normalise_vector)$",
     "P32"),
    (r"xboa\.tracking\..*MultiTrack\..*", "P23 P24 P22"),
    (r"xboa\.tracking\..*TrackingProcess\..*", "P22 P23 P24"),
    (r"xboa\.tracking\..*Process\..*", "P24"),
    (r"xboa\.tracking\..*TimeoutTracking\..*", "P22 P23 P30"),
    (r"xboa\.tracking\..*xboa_tracking_process:.*", "P22 P24"),
    (r"xboa\.algorithms\.closed_orbit.*", "P25"),
    (r"xboa\.algorithms\.tune.*", "P26"),
    (r"xboa\.algorithms\.(smoothing|peak_finder).*", "P27"),
    (r"xboa\.bunch\.weighting.*", "P28"),
]
EXTRA = [(re.compile(a), b.split()) for a, b in EXTRA]


def extra(target, props):
    out = list(props)
    for rx, more in EXTRA:
        if rx.match(target):
            out += [p for p in more if p not in out]
    return out
