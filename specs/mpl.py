# drafted from reviewed code, parsed and never executed
import numpy
import matplotlib
import matplotlib.pyplot as pyplot
import xboa.common
import xboa.common.config
import xboa.common.utils
from xboa.common.matplotlib_wrapper import make_histogram
from xboa.common.matplotlib_wrapper import make_graph
from xboa.common.matplotlib_wrapper import make_multigraph
from xboa.common.matplotlib_wrapper import make_scatter
from xboa.common.matplotlib_wrapper import plot_hist2d_ratio
from xboa.common.matplotlib_wrapper import wait_for_matplot
from xboa.common.matplotlib_wrapper import get_figure_index

@spec("xboa.common.matplotlib_wrapper:make_histogram", props="P33")
def ref_make_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[], y_axis_string='', n_y_bins=0, weight_list=[], fig_index=None):
    xboa.common.config.has_matplot()
    xboa.common.config.has_numpy()
    fig_index = get_figure_index(fig_index)
    pyplot.figure(fig_index)
    if len(x_float_list) == 0:
        raise IndexError('Attempt to draw histogram with no x-points')
    if not len(y_float_list) == len(x_float_list):
        if weight_list == []:
            n, my_bins = numpy.histogram(a=x_float_list, bins=n_x_bins)
        else:
            n, my_bins = numpy.histogram(a=x_float_list, bins=n_x_bins, weights=weight_list)
        new_bins = []
        new_n = []
        index = 0
        while index < len(n) and abs(n[index]) < 1e-09:
            index += 1
        for i in range(index, len(n)):
            new_bins.append((my_bins[i] + my_bins[i + 1]) / 2.0)
            new_n.append(n[i])
        hist = pyplot.plot(new_bins, new_n)
        pyplot.xlabel(x_axis_string)
    else:
        if len(weight_list) == len(x_float_list):
            hist = pyplot.hist2d(x_float_list, y_float_list, weights=weight_list, bins=(n_x_bins, n_y_bins))
        else:
            hist = pyplot.hist2d(x_float_list, y_float_list, bins=(n_x_bins, n_y_bins))
        pyplot.xlabel(x_axis_string)
        pyplot.ylabel(y_axis_string)
    return fig_index

@spec("xboa.common.matplotlib_wrapper:make_graph", props="P33")
def ref_make_graph(x_float_list, x_axis_string, y_float_list, y_axis_string, sort=True, fig_index=None, kwds={}):
    xboa.common.config.has_matplot()
    fig_index = get_figure_index(fig_index)
    pyplot.figure(fig_index)
    if len(x_float_list) == 0 or len(x_float_list) != len(y_float_list):
        msg = 'Attempt to draw graph with %i x points and %i y points. ' % (len(x_float_list), len(y_float_list))
        msg += 'They should be the same length, with at least 1 element.'
        raise IndexError(msg)
    multilist = [list(x_float_list), list(y_float_list)]
    if sort:
        xboa.common.multisort(multilist)
    x_min_max = xboa.common.min_max(multilist[0])
    y_min_max = xboa.common.min_max(multilist[1])
    myplot = pyplot.plot(multilist[0], multilist[1], **kwds)
    pyplot.xlabel(x_axis_string)
    pyplot.ylabel(y_axis_string)
    pyplot.xlim(x_min_max[0], x_min_max[1])
    pyplot.ylim(y_min_max[0], y_min_max[1])
    matplotlib.pyplot.draw()
    return fig_index

@spec("xboa.common.matplotlib_wrapper:make_multigraph", props="P33")
def ref_make_multigraph(x_float_list_of_lists, x_axis_string, y_float_list_of_lists, y_axis_string, fig_index=None, kwds=[]):
    xboa.common.config.has_matplot()
    fig_index = get_figure_index(fig_index)
    pyplot.figure(fig_index)
    total_x_list = []
    total_y_list = []
    for a_list in x_float_list_of_lists:
        total_x_list += a_list
    for a_list in y_float_list_of_lists:
        total_y_list += a_list
    x_min_max = xboa.common.min_max(total_x_list, margin=xboa.common.rg.graph_margin)
    y_min_max = xboa.common.min_max(total_y_list, margin=xboa.common.rg.graph_margin)
    for index in range(len(x_float_list_of_lists)):
        kwd_args = {}
        if index < len(kwds):
            kwd_args = kwds[index]
        multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
        xboa.common.multisort(multilist)
        myplot = pyplot.plot(multilist[0], multilist[1], **kwd_args)
    pyplot.xlabel(x_axis_string)
    pyplot.ylabel(y_axis_string)
    pyplot.xlim(x_min_max[0], x_min_max[1])
    pyplot.ylim(y_min_max[0], y_min_max[1])
    matplotlib.pyplot.draw()
    return fig_index

@spec("xboa.common.matplotlib_wrapper:make_scatter", props="P33")
def ref_make_scatter(x_float_list, x_axis_string, y_float_list, y_axis_string, fig_index=None, kwds={}):
    xboa.common.config.has_matplot()
    fig_index = get_figure_index(fig_index)
    pyplot.figure(fig_index)
    if len(x_float_list) == 0 or len(x_float_list) != len(y_float_list):
        msg = 'Attempt to draw graph with %i x points and %i y points. ' % (len(x_float_list), len(y_float_list))
        msg += 'They should be the same length, with at least 1 element.'
        raise IndexError(msg)
    hist = pyplot.scatter(x_float_list, y_float_list, s=1, **kwds)
    pyplot.xlabel(x_axis_string)
    pyplot.ylabel(y_axis_string)
    return fig_index

@spec("xboa.common.matplotlib_wrapper:plot_hist2d_ratio", props="P33")
def ref_plot_hist2d_ratio(axes, h1, h2, xedges, yedges, on_nan=0.0, hist_args={}):
    xboa.common.utils.require_modules(['numpy', 'matplotlib'])
    if len(h1) != len(h2):
        raise ValueError(f'h1 and h2 have different number of rows: {len(h1)} != {len(h2)}')
    for i, item in enumerate(h1):
        if len(h1[i]) != len(h2[i]):
            raise ValueError(f'Row {i} had wrong number of columns: {len(h1[i]) != {len(h2[i])}}')
    h1 = numpy.array(h1).transpose().flatten()
    h2 = numpy.array(h2).transpose().flatten()
    nan_index = []
    for i, x2 in enumerate(h2):
        if x2 == 0.0:
            h2[i] = 1.0
            h1[i] = 0.0
            nan_index.append(i)
    h3 = h1 / h2
    for i in nan_index:
        h3[i] = on_nan
    x_a = [(xedges[i] + e1) / 2 for i, e1 in enumerate(xedges[1:])]
    x_a = x_a * (len(yedges) - 1)
    y_a = []
    for i, e1 in enumerate(yedges[1:]):
        y_a += [(yedges[i] + e1) / 2] * (len(xedges) - 1)
    hist2d_3 = axes.hist2d(x_a, y_a, bins=[xedges, yedges], weights=h3, **hist_args)
    return hist2d_3

@spec("xboa.common.matplotlib_wrapper:wait_for_matplot", props="P33")
def ref_wait_for_matplot(block=False):
    xboa.common.config.has_matplot()
    matplotlib.pyplot.show(block=block)

@spec("xboa.common.matplotlib_wrapper:get_figure_index", props="P33")
def ref_get_figure_index(fig_index=None):
    global FIGURE_INDEX
    if fig_index != None:
        return fig_index
    FIGURE_INDEX += 1
    return FIGURE_INDEX
