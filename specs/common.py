# drafted from reviewed code, parsed and never executed
import operator
import copy
import bisect
import sys
import string
import math
import os
import pydoc
import bisect
import atexit
import time
import signal
import ctypes
from xboa.common import config
import ROOT
import xboa.common.matplotlib_wrapper as matplotlib_wrapper
import matplotlib
import matplotlib.pyplot as pyplot
import numpy
import numpy.linalg as linalg
import multiprocessing
from xboa.common._common import substitute
from xboa.common._common import __y_function_wrapper
from xboa.common._common import nd_newton_raphson1
from xboa.common._common import nd_newton_raphson2
from xboa.common._common import min_max
from xboa.common._common import multisort
from xboa.common._common import n_bins
from xboa.common._common import histogram
from xboa.common._common import get_bin_edges
from xboa.common._common import make_root_canvas
from xboa.common._common import make_root_histogram
from xboa.common._common import make_root_legend
from xboa.common._common import make_matplot_histogram
from xboa.common._common import make_root_graph
from xboa.common._common import make_matplot_graph
from xboa.common._common import make_root_multigraph
from xboa.common._common import make_matplot_multigraph
from xboa.common._common import make_matplot_scatter
from xboa.common._common import wait_for_root
from xboa.common._common import clear_root
from xboa.common._common import wait_for_matplot
from xboa.common._common import matplot_show_and_continue
from xboa.common._common import subprocess
from xboa.common._common import kill_all_subprocesses
from xboa.common._common import kolmogorov_smirnov_test
from xboa.common._common import __atexit
from xboa.common._common import make_grid
from xboa.common._common import make_shell
from xboa.common._common import normalise_vector
from xboa.common._common import __function_with_queue
from xboa.common._common import process_list
from xboa.common._common import _sum_weight
from xboa.common._common import _get_fit_ellipse_covariance_matrix
from xboa.common._common import _update_fit_ellipse_cut
from xboa.common._common import fit_ellipse
from xboa.common._common import make_root_ellipse_function
from xboa.common._common import common_overview_doc
from xboa.common._common import rg

@spec("xboa.common._common:substitute", props="P08")
def ref_substitute(file_name_in, file_name_out, switch_dict):
    with open(file_name_in, 'r') as fin, open(file_name_out, 'w') as fout:
        for line in fin:
            for key, value in switch_dict.items():
                line = line.replace(str(key), str(value))
            fout.write(line)

@spec("xboa.common._common:__y_function_wrapper", props="P25")
def ref___y_function_wrapper(x_list_of_lists):
    global wrapped_y_function
    out = []
    for value in x_list_of_lists:
        out.append(wrapped_y_function(value))
    return out

@spec("xboa.common._common:nd_newton_raphson1", props="P25")
def ref_nd_newton_raphson1(y_function, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration=10, x_upper_limits=None, x_lower_limits=None, verbose=True):
    global wrapped_y_function
    wrapped_y_function = y_function
    return nd_newton_raphson2(__y_function_wrapper, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration, x_upper_limits, x_lower_limits, verbose)

@spec("xboa.common._common:nd_newton_raphson2", props="P25")
def ref_nd_newton_raphson2(y_function, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration=10, x_upper_limits=None, x_lower_limits=None, verbose=True):
    config.has_numpy()
    done = False
    x_list = []
    for key in range(len(x_start_values_list) + 1):
        x_list.append(copy.deepcopy(x_start_values_list))
    delta_x = numpy.matrix(str(x_deltas_list))
    count = copy.deepcopy(max_iteration)
    limits = type(x_upper_limits) == type([]) and type(x_lower_limits) == type([])
    if limits:
        delta_limit = []
        for i in range(len(x_start_values_list)):
            delta_limit.append(x_upper_limits[i] - x_lower_limits[i])
    while not done and count > 0:
        count -= 1
        jacobian = numpy.matrix(numpy.zeros((len(x_start_values_list), len(x_start_values_list))))
        for i in range(len(x_start_values_list)):
            if limits:
                x_list[0][i] -= delta_limit[i] * math.floor(x_list[0][i] / delta_limit[i] - x_lower_limits[i])
        for i in range(len(x_start_values_list)):
            x_list[i + 1] = copy.deepcopy(x_list[0])
            x_list[i + 1][i] += delta_x[0, i]
        y_x = y_function(x_list)
        try:
            y_x0 = numpy.matrix(str(y_x[0]))
        except:
            raise RuntimeError('Newton-Raphson failed to evaluate function with input ' + str(x_list) + ' and output ' + str(y_x))
        y_test = numpy.array(y_x0).flatten()
        y_magnitude_squared = numpy.vdot(y_test, y_test)
        for i in range(len(x_start_values_list)):
            if abs(delta_x[0, i]) < float_tolerance:
                return x_list[0]
            for j in range(len(y_tolerances_list)):
                jacobian[j, i] = (y_x[i + 1][j] - y_x[0][j]) / delta_x[0, i]
            x_list[i + 1][i] -= delta_x[0, i]
        try:
            delta_x = -(linalg.inv(jacobian) * y_x0.transpose()).transpose()
        except:
            return x_list[0]
        done = True
        if verbose:
            pass
        for i in range(len(x_start_values_list)):
            if abs(y_x[0][i]) > y_tolerances_list[i]:
                done = False
            x_list[0][i] += delta_x[0, i]
        y_x0 = y_function([x_list[0]])
    return x_list[0]

@spec("xboa.common._common:min_max", props="P29")
def ref_min_max(x_float_list, weight_list=[], margin=0.1, xmin=None, xmax=None):
    new_floats = x_float_list
    if len(weight_list) == len(x_float_list):
        new_floats = []
        for ind in range(len(weight_list)):
            if weight_list[ind] > 1e-06:
                new_floats.append(x_float_list[ind])
    if len(new_floats) == 0:
        x = [0.0, 0.0]
    else:
        x = [min(new_floats), max(new_floats)]
    delta = (x[1] - x[0]) * margin
    x[0] -= delta
    x[1] += delta
    if x[1] - x[0] < 1e-09:
        x[0] -= 1.0
        x[1] += 1.0
    if xmin != None:
        x[0] = xmin
    if xmax != None:
        x[1] = xmax
    return x

@spec("xboa.common._common:multisort", props="P29")
def ref_multisort(list_of_lists):
    horizontal_list = []
    for i in range(len(list_of_lists[0])):
        horizontal_list.append([])
        for j in range(len(list_of_lists)):
            horizontal_list[-1].append(list_of_lists[j][i])
    getitem = operator.itemgetter(0)
    horizontal_list = sorted(horizontal_list, key=getitem)
    for i in range(len(list_of_lists)):
        for j in range(len(list_of_lists[0])):
            list_of_lists[i][j] = horizontal_list[j][i]
    return list_of_lists

@spec("xboa.common._common:n_bins", props="P29")
def ref_n_bins(n_points, nx_bins=None, ny_bins=None, nz_bins=None, n_dimensions=1):
    out = [nx_bins, ny_bins, nz_bins]
    num_events = float(n_points)
    if nx_bins == None and n_dimensions == 1:
        out[0] = int(num_events / 10.0) + 1
    if nx_bins == None and n_dimensions == 2:
        out[0] = int(num_events ** 0.7 / 10.0) + 1
    if ny_bins == None and n_dimensions == 2:
        out[1] = int(num_events ** 0.7 / 10.0) + 1
    if nx_bins == None and n_dimensions == 3:
        out[0] = int(num_events ** 0.5 / 10.0) + 1
    if ny_bins == None and n_dimensions == 3:
        out[1] = int(num_events ** 0.5 / 10.0) + 1
    if nz_bins == None and n_dimensions == 3:
        out[2] = int(num_events ** 0.5 / 10.0) + 1
    for i in range(3):
        if out[i] == None:
            out[i] = 0
    return tuple(out)

@spec("xboa.common._common:histogram", props="P29")
def ref_histogram(x_values, x_bins, y_values=None, y_bins=None, weights=None):
    config.has_numpy()
    is_1d = False
    if weights is None:
        weights = [1.0] * len(x_values)
    if y_values is None:
        is_1d = True
        y_values = [0.0] * len(x_values)
        y_bins = [-1.0, 1.0]
    contents = numpy.zeros((len(x_bins) - 1, len(y_bins) - 1))
    for i, x in enumerate(x_values):
        p = bisect.bisect_right(x_bins, x_values[i]) - 1
        q = bisect.bisect_right(y_bins, y_values[i]) - 1
        if p >= 0 and p < len(x_bins) - 1 and (q >= 0) and (q < len(y_bins) - 1):
            contents[p, q] += weights[i]
    out = (contents, x_bins, y_bins)
    if is_1d:
        return (contents, x_bins, [])
    else:
        return (contents, x_bins, y_bins)

@spec("xboa.common._common:get_bin_edges", props="P29")
def ref_get_bin_edges(list_of_variables, number_of_bins, xmin=None, xmax=None):
    my_bins = []
    mm = min_max(list_of_variables, margin=0.0)
    if xmin != None:
        mm[0] = xmin
    if xmax != None:
        mm[1] = xmax
    delta = (mm[1] - mm[0]) / float(number_of_bins)
    for i in range(number_of_bins + 1):
        my_bins.append(mm[0] + delta * i)
    return my_bins

@spec("xboa.common._common:make_root_canvas", props="P33")
def ref_make_root_canvas(name_string, title_string=None, bg_color=rg.canvas_fill_color, highlight_color=rg.canvas_highlight_color, border_mode=rg.canvas_border_mode, frame_fill_color=rg.hist_fill_color):
    config.has_root()
    canvas_name_string = name_string + '-' + str(len(_canvas_persistent))
    if title_string == None:
        title_string = name_string
    canvas = ROOT.TCanvas(canvas_name_string, title_string)
    canvas.SetHighLightColor(highlight_color)
    canvas.SetFillColor(bg_color)
    canvas.SetBorderMode(border_mode)
    canvas.SetFrameFillColor(frame_fill_color)
    _canvas_persistent.append(canvas)
    return canvas

@spec("xboa.common._common:make_root_histogram", props="P33")
def ref_make_root_histogram(name_string, x_float_list, x_axis_string, n_x_bins, y_float_list=[], y_axis_string='', n_y_bins=0, weight_list=[], xmin=None, xmax=None, ymin=None, ymax=None, line_color=rg.line_color, line_style=rg.line_style, line_width=rg.line_width, fill_color=rg.fill_color, stats=rg.stats, hist_title_string=''):
    config.has_root()
    name_string += ' ' + str(len(_hist_persistent))
    if len(y_float_list) == len(x_float_list):
        x_min_max = min_max(x_float_list, weight_list, margin=rg.histo_margin, xmin=xmin, xmax=xmax)
        y_min_max = min_max(y_float_list, weight_list, margin=rg.histo_margin, xmin=ymin, xmax=ymax)
        hist = ROOT.TH2D(name_string, hist_title_string + ';' + x_axis_string + ';' + y_axis_string, n_x_bins, x_min_max[0], x_min_max[1], n_y_bins, y_min_max[0], y_min_max[1])
        if len(weight_list) == len(x_float_list):
            for i in range(len(x_float_list)):
                hist.Fill(x_float_list[i], y_float_list[i], weight_list[i])
        else:
            for i in range(len(x_float_list)):
                hist.Fill(x_float_list[i], y_float_list[i])
    else:
        x_min_max = min_max(x_float_list, weight_list, margin=rg.histo_margin, xmin=xmin, xmax=xmax)
        hist = ROOT.TH1D(name_string, hist_title_string + ';' + x_axis_string, n_x_bins, x_min_max[0], x_min_max[1])
        if len(weight_list) == len(x_float_list):
            for i in range(len(x_float_list)):
                hist.Fill(x_float_list[i], weight_list[i])
        else:
            for i in range(len(x_float_list)):
                hist.Fill(x_float_list[i])
    _hist_persistent.append(hist)
    hist.SetLineColor(line_color)
    hist.SetLineStyle(line_style)
    if fill_color != None:
        hist.SetFillColor(fill_color)
    hist.SetStats(stats)
    return hist

@spec("xboa.common._common:make_root_legend", props="P33")
def ref_make_root_legend(canvas, root_item_list):
    config.has_root()
    if len(root_item_list) == 0:
        raise KeyError('No items for ROOT legend')
    canvas.cd()
    leg = ROOT.TLegend()
    for index, leg in enumerate(root_item_list):
        leg_min = 0.89 - 0.08 * len(root_item_list)
    if leg_min < 0.1:
        leg_min = 0.1
    leg = ROOT.TLegend(0.0, leg_min, 0.4, 0.9)
    leg.SetEntrySeparation(0.6)
    for i, hist in enumerate(root_item_list):
        leg.AddEntry(hist, root_item_list[i].GetName())
    leg.SetFillColor(10)
    leg.SetBorderSize(0)
    leg.Draw()
    canvas.Update()
    _legend_persistent.append(leg)
    return leg

@spec("xboa.common._common:make_matplot_histogram", props="P33")
def ref_make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[], y_axis_string='', n_y_bins=0, weight_list=[]):
    config.has_matplot()
    config.has_numpy()
    figure_index = matplotlib_wrapper.get_figure_index()
    pyplot.figure(figure_index)
    if len(x_float_list) == 0:
        raise IndexError('Attempt to draw histogram with no x-points')
    if not len(y_float_list) == len(x_float_list):
        if weight_list == []:
            n, my_bins = numpy.histogram(a=x_float_list, bins=n_x_bins)
        else:
            n, my_bins = numpy.histogram(a=x_float_list, bins=n_x_bins, weights=weight_list)
        new_bins = []
        new_n = []
        index = 0
        while index < len(n) and abs(n[index]) < 1e-09:
            index += 1
        for i in range(index, len(n)):
            new_bins.append((my_bins[i] + my_bins[i + 1]) / 2.0)
            new_n.append(n[i])
        hist = pyplot.plot(new_bins, new_n)
        pyplot.xlabel(x_axis_string)
    else:
        if len(weight_list) == len(x_float_list):
            hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins, n_y_bins))
        else:
            hist = pyplot.hexbin(x_float_list, y_float_list, gridsize=(n_x_bins, n_y_bins))
        pyplot.xlabel(x_axis_string)
        pyplot.ylabel(y_axis_string)
    return hist

@spec("xboa.common._common:make_root_graph", props="P33")
def ref_make_root_graph(name_string, x_float_list, x_axis_string, y_float_list, y_axis_string, sort=True, xmin=None, xmax=None, ymin=None, ymax=None, line_color=rg.line_color, line_style=rg.line_style, line_width=rg.line_width, fill_color=rg.graph_fill_color, hist_title_string=''):
    config.has_root()
    x_float_list = copy.deepcopy(x_float_list)
    y_float_list = copy.deepcopy(y_float_list)
    if len(x_float_list) == 0 or len(x_float_list) != len(y_float_list):
        raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
    multilist = [x_float_list, y_float_list]
    if sort:
        multisort(multilist)
    x_min_max = min_max(multilist[0], margin=rg.graph_margin, xmin=xmin, xmax=xmax)
    y_min_max = min_max(multilist[1], margin=rg.graph_margin, xmin=ymin, xmax=ymax)
    hist = make_root_histogram(name_string, [], x_axis_string, 1000, [], y_axis_string, 1000, [], x_min_max[0], x_min_max[1], y_min_max[0], y_min_max[1], line_color=rg.line_color, line_style=rg.line_style, line_width=0, fill_color=None, stats=False, hist_title_string=hist_title_string)
    graph = ROOT.TGraph(len(x_float_list))
    graph.SetTitle(name_string)
    graph.SetName(name_string)
    graph.SetLineColor(line_color)
    graph.SetLineStyle(line_style)
    graph.SetLineWidth(line_width)
    graph.SetFillColor(fill_color)
    for i in range(len(x_float_list)):
        graph.SetPoint(i, x_float_list[i], y_float_list[i])
    _graph_persistent.append(graph)
    return (hist, graph)

@spec("xboa.common._common:make_matplot_graph", props="P33")
def ref_make_matplot_graph(x_float_list, x_axis_string, y_float_list, y_axis_string, sort=True):
    config.has_matplot()
    figure_index = matplotlib_wrapper.get_figure_index()
    pyplot.figure(figure_index)
    if len(x_float_list) == 0 or len(x_float_list) != len(y_float_list):
        raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
    multilist = [list(x_float_list), list(y_float_list)]
    if sort:
        multisort(multilist)
    x_min_max = min_max(multilist[0], margin=rg.graph_margin)
    y_min_max = min_max(multilist[1], margin=rg.graph_margin)
    myplot = pyplot.plot(multilist[0], multilist[1])
    pyplot.xlabel(x_axis_string)
    pyplot.ylabel(y_axis_string)
    pyplot.xlim(x_min_max[0], x_min_max[1])
    pyplot.ylim(y_min_max[0], y_min_max[1])
    matplotlib.pyplot.draw()
    return figure_index

@spec("xboa.common._common:make_root_multigraph", props="P33")
def ref_make_root_multigraph(name_string, x_float_list_of_lists, x_axis_string, y_float_list_of_lists, y_axis_string):
    config.has_root()
    name_string += ' ' + str(len(_hist_persistent))
    total_x_list = []
    total_y_list = []
    for a_list in x_float_list_of_lists:
        total_x_list += a_list
    for a_list in y_float_list_of_lists:
        total_y_list += a_list
    x_min_max = min_max(total_x_list, margin=rg.graph_margin)
    y_min_max = min_max(total_y_list, margin=rg.graph_margin)
    hist = ROOT.TH2D(name_string, ';' + x_axis_string + ';' + y_axis_string, 1000, x_min_max[0], x_min_max[1], 1000, y_min_max[0], y_min_max[1])
    graphs = []
    for index in range(len(x_float_list_of_lists)):
        graphs.append(ROOT.TGraph(len(x_float_list_of_lists[index])))
        ROOT.gStyle.SetPalette(int(len(x_float_list_of_lists) * 1.25))
        graphs[-1].SetLineColor(ROOT.gStyle.GetColorPalette(index + int(len(x_float_list_of_lists) * 0.25)))
        for i in range(len(x_float_list_of_lists[index])):
            graphs[-1].SetPoint(i, x_float_list_of_lists[index][i], y_float_list_of_lists[index][i])
        _graph_persistent.append(graphs[-1])
    _hist_persistent.append(hist)
    hist.SetStats(False)
    return (hist, graphs)

@spec("xboa.common._common:make_matplot_multigraph", props="P33")
def ref_make_matplot_multigraph(x_float_list_of_lists, x_axis_string, y_float_list_of_lists, y_axis_string):
    config.has_matplot()
    figure_index = matplotlib_wrapper.get_figure_index()
    pyplot.figure(figure_index)
    total_x_list = []
    total_y_list = []
    for a_list in x_float_list_of_lists:
        total_x_list += a_list
    for a_list in y_float_list_of_lists:
        total_y_list += a_list
    x_min_max = min_max(total_x_list, margin=rg.graph_margin)
    y_min_max = min_max(total_y_list, margin=rg.graph_margin)
    for index in range(len(x_float_list_of_lists)):
        multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
        multisort(multilist)
        myplot = pyplot.plot(multilist[0], multilist[1])
    pyplot.xlabel(x_axis_string)
    pyplot.ylabel(y_axis_string)
    pyplot.xlim(x_min_max[0], x_min_max[1])
    pyplot.ylim(y_min_max[0], y_min_max[1])
    matplotlib.pyplot.draw()

@spec("xboa.common._common:make_matplot_scatter", props="P33")
def ref_make_matplot_scatter(x_float_list, x_axis_string, y_float_list, y_axis_string):
    config.has_matplot()
    figure_index = matplotlib_wrapper.get_figure_index()
    pyplot.figure(figure_index)
    if len(x_float_list) == 0:
        raise IndexError('Attempt to draw histogram with no x-points')
    hist = pyplot.scatter(x_float_list, y_float_list, s=1)
    pyplot.xlabel(x_axis_string)
    pyplot.ylabel(y_axis_string)
    return hist

@spec("xboa.common._common:wait_for_root", props="P33")
def ref_wait_for_root():
    root_done = False
    while not root_done:
        root_done = True
        for canvas in _canvas_persistent:
            if not canvas == None:
                root_done = False
        time.sleep(0.01)

@spec("xboa.common._common:clear_root", props="P33")
def ref_clear_root():
    global _canvas_persistent, _hist_persistent, _graph_persistent
    for canv in _canvas_persistent:
        del canv
    for hist in _hist_persistent:
        del hist
    for graph in _graph_persistent:
        del graph
    _canvas_persistent = []
    _hist_persistent = []
    _graph_persistent = []

@spec("xboa.common._common:wait_for_matplot", props="P33")
def ref_wait_for_matplot():
    config.has_matplot()
    matplotlib.pyplot.show()

@spec("xboa.common._common:matplot_show_and_continue", props="P33")
def ref_matplot_show_and_continue():
    config.has_matplot()
    try:
        subprocess(matplotlib.pyplot.show, ())
    except:
        raise ImportError('matplot_show_and_continue is only available is (i) ROOT is not installed or (ii) you have python > 2.6')

@spec("xboa.common._common:subprocess", props="P30")
def ref_subprocess(function, args):
    try:
        config.has_multiprocessing()
        __mp_subprocesses.append(multiprocessing.Process(target=function, args=args))
        __mp_subprocesses[-1].start()
        return __mp_subprocesses[-1]
    except:
        try:
            config.has_root()
            raise ImportError('Error - attempt to make a subprocess using fork when ROOT library is active')
        except ImportError:
            pid = os.fork()
            if pid == 0:
                try:
                    function(*args)
                except:
                    os._exit(1)
                os._exit(0)
            else:
                __fk_subprocesses.append(pid)
                return pid

@spec("xboa.common._common:kill_all_subprocesses", props="P30")
def ref_kill_all_subprocesses():
    for ps in __mp_subprocesses:
        ps.terminate()
        time.sleep(0.01)
    for pid in __fk_subprocesses:
        os.kill(pid, signal.SIGKILL)

@spec("xboa.common._common:kolmogorov_smirnov_test", props="P29")
def ref_kolmogorov_smirnov_test(list_1, list_2):
    list_1 = sorted(list_1)
    list_2 = sorted(list_2)
    c_array_1 = ctypes.c_double * len(list_1)
    c_array_2 = ctypes.c_double * len(list_2)
    ca1 = c_array_1()
    ca2 = c_array_2()
    for i in range(len(list_1)):
        ca1[i] = ctypes.c_double(list_1[i])
    for i in range(len(list_2)):
        ca2[i] = ctypes.c_double(list_2[i])
    ks = ROOT.TMath.KolmogorovTest(len(list_1), ca1, len(list_2), ca2, '')
    return ks

@spec("xboa.common._common:__atexit", props="P30")
def ref___atexit():
    if kill_subprocesses_at_exit:
        kill_all_subprocesses()

@spec("xboa.common._common:make_grid", props="P32")
def ref_make_grid(n_dimensions, n_per_dimension):
    config.has_numpy()
    pos_vector = [numpy.matrix([-1.0] * n_dimensions)]
    for i in range(n_dimensions):
        pos_vector_copy = copy.deepcopy(pos_vector)
        for j in range(1, n_per_dimension):
            pos = 2.0 * j / float(n_per_dimension - 1) - 1.0
            for vec in pos_vector_copy:
                vec = copy.deepcopy(vec)
                vec[0, i] = pos
                pos_vector.append(vec)
    return pos_vector

@spec("xboa.common._common:make_shell", props="P32")
def ref_make_shell(n_per_dimension, ellipse, mean=None):
    config.has_numpy()
    n_dimensions = numpy.shape(ellipse)[0]
    grid = make_grid(n_dimensions, n_per_dimension)
    if mean is None:
        mean = numpy.zeros((n_dimensions,))
    shell = []
    ellipse_inv = numpy.linalg.inv(ellipse)
    for vector in grid:
        vector_test = numpy.array(vector).flatten()
        if numpy.vdot(vector_test, vector_test) > float_tolerance:
            shell.append(normalise_vector(vector, ellipse_inv) + mean)
    return shell

@spec("xboa.common._common:normalise_vector", props="P32")
def ref_normalise_vector(vector, matrix_inverse):
    config.has_numpy()
    scale = 1.0 / (vector * matrix_inverse * vector.transpose())[0, 0] ** 0.5
    if scale != scale:
        raise ValueError
    vector = vector * scale
    return vector

@spec("xboa.common._common:__function_with_queue", props="P30")
def ref___function_with_queue(args):
    function_call, queue, function_arg, index = args
    try:
        queue.put((index, function_call(*function_arg)))
    except:
        queue.put((index, sys.exc_info()[1]))

@spec("xboa.common._common:process_list", props="P30")
def ref_process_list(function_call, list_of_args, max_n_processes):
    manager = multiprocessing.Manager()
    queue = manager.Queue()
    new_list_of_args = [(function_call, queue, x, i) for i, x in enumerate(list_of_args)]
    with multiprocessing.Pool(max_n_processes) as pool:
        pool.map(__function_with_queue, new_list_of_args)
    out_list = []
    while not queue.empty():
        out_list.append(queue.get())
    out_list.sort()
    for i, item in enumerate(out_list):
        out_list[i] = item[1]
    return out_list

@spec("xboa.common._common:_sum_weight", props="P25")
def ref__sum_weight(weights, in_cut):
    n_points = len(in_cut)
    return sum([weights[i] for i in range(n_points) if in_cut[i]])

@spec("xboa.common._common:_get_fit_ellipse_covariance_matrix", props="P25")
def ref__get_fit_ellipse_covariance_matrix(points, weights, in_cut):
    n_points = len(points)
    sum_weight = _sum_weight(weights, in_cut)
    dimension = len(points[0])
    mean = numpy.zeros(dimension)
    cov = numpy.zeros([dimension, dimension])
    for i in range(n_points):
        if in_cut[i]:
            a_point = points[i]
            for j in range(dimension):
                mean[j] += a_point[j] / sum_weight * weights[i]
                for k in range(dimension):
                    cov[j, k] += a_point[j] * a_point[k] / sum_weight * weights[i]
    for i in range(dimension):
        for j in range(dimension):
            cov[i, j] -= mean[i] * mean[j]
    return (mean, cov)

@spec("xboa.common._common:_update_fit_ellipse_cut", props="P25")
def ref__update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
    n_points = len(points)
    n_dim = len(mean)
    in_cut = [True for i in range(n_points)]
    sqrt_det_inv = numpy.linalg.det(cov_inv) ** (1.0 / float(n_dim))
    for i in range(n_points):
        vec = numpy.array(points[i]) - mean
        vec_t = numpy.transpose(vec)
        eps = numpy.dot(vec_t, numpy.dot(cov_inv, vec)) / sqrt_det_inv
        in_cut[i] = eps < eps_cut
    return in_cut

@spec("xboa.common._common:fit_ellipse", props="P25")
def ref_fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations=10, verbose=True):
    n_points = len(points)
    old_det = 1.0
    mean, cov = (numpy.ones([2]), numpy.ones([2, 2]))
    in_cut = [True for i in range(n_points)]
    if weights is None:
        weights = [1.0] * n_points
    iterations = 0
    try:
        while abs(numpy.linalg.det(cov) - old_det) > float_tolerance and iterations < max_number_of_iterations:
            iterations += 1
            my_sum = 0
            for i in in_cut:
                if i == True:
                    my_sum += 1
            old_det = numpy.linalg.det(cov)
            mean, cov = _get_fit_ellipse_covariance_matrix(points, weights, in_cut)
            mat_inv = numpy.linalg.inv(cov)
            in_cut = _update_fit_ellipse_cut(points, mat_inv, mean, eps_cut)
    except Exception:
        if verbose:
            sys.excepthook(*sys.exc_info())
    if verbose:
        pass
    return (mean, cov)

@spec("xboa.common._common:make_root_ellipse_function", props="P33")
def ref_make_root_ellipse_function(mean, cov, contours=None, xmin=-1000.0, xmax=1000.0, ymin=-1000.0, ymax=1000.0):
    config.has_root()
    mat_inv = numpy.linalg.inv(cov)
    fit_func_str = '[2]*(x-[0])**2+[4]*(y-[1])**2+2*[3]*(x-[0])*(y-[1])'
    fit_func = ROOT.TF2('ellipse', fit_func_str)
    if contours != None:
        fit_func.SetContour(len(contours))
        for i, contour in enumerate(contours):
            fit_func.SetContourLevel(i, contour)
    if xmax == None or xmin == None or ymax == None or (ymin == None):
        xmin = -1000.0 + mean[0]
        xmax = 1000.0 + mean[0]
        ymin = -1000.0 + mean[1]
        ymax = 1000.0 + mean[1]
    fit_func.SetRange(xmin, ymin, xmax, ymax)
    fit_func.SetParameter(0, mean[0])
    fit_func.SetParameter(1, mean[1])
    fit_func.SetParameter(2, mat_inv[0, 0])
    fit_func.SetParameter(3, mat_inv[0, 1])
    fit_func.SetParameter(4, mat_inv[1, 1])
    fit_func.SetLineColor(rg.fit_color)
    fit_func.SetLineStyle(rg.fit_style)
    _function_persistent.append(fit_func)
    return fit_func
