"""writes /verif/properties.jsonl (the text of the properties lives here)"""
import json, os
P = []
TESTS = ("the existing tests sample a handful of hand-written inputs; ")


def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over.split(), "text": qtext},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files.split(),
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w}
                                 for n, m, w in state]
    if obs:
        d["anchors"]["observe_at"] = list(obs)
    P.append(d)


p("P01", "Stored hit variables are independent and complete", """
Every variable that a hit stores keeps the value last written under its name,
in the unit and sign it was given, and writing one variable never changes
another one. The names that a hit offers for reading and for writing are the
ones that can in fact be read and written, each bound to the quantity it
names.""", "inputs histories",
  "every variable name, every value, every sequence of writes and reads",
  """tests write a few variables and read them back; the table has forty-odd
names in three parallel places (compiled tables, accessors, Python lists) and a
swap between two rarely used ones is not sampled""",
  "xboa/core/cpplib/Hitcore.hh xboa/core/cpplib/Hitcore.cc xboa/core/pylib/PyHitcore.cc xboa/hit/_hit.py",
  [("name to accessor tables", "xboa/core/cpplib/Hitcore.cc initialise_string_to_accessor, initialise_string_to_mutator"),
   ("accessors and mutators", "xboa/core/cpplib/Hitcore.hh get_*/set_*"),
   ("variable lists", "xboa/hit/_hit.py Hit.get_variables, Hit.set_variables")],
  [("hit core members", "one C++ member per stored variable", "xboa/core/cpplib/Hitcore.hh")],
  ["Hit.get", "Hit.set", "Hit[...]"])

p("P02", "Derived hit variables follow from the stored ones", """
Every derived variable of a hit (momentum magnitudes, radii, angles, slopes,
kinetic energy, path in time times c, angular momentum, total weight) is the
documented function of the stored variables. Setting a derived variable makes
it read back as the value set while only the documented stored variables
change, and an impossible request is refused with an error.""", "inputs",
  "every value of the stored variables, including negative and zero momenta",
  """tests evaluate the getters at one or two points; sign and branch errors at
negative pz, zero radius or other masses are not sampled""",
  "xboa/hit/_hit.py",
  [("getters", "xboa/hit/_hit.py Hit.get_*"), ("setters", "xboa/hit/_hit.py Hit.set_*"),
   ("name to function tables", "xboa/hit/_hit.py Hit.__get_variables, Hit.__set_variables")],
  (), ["Hit.get", "Hit.set"])

p("P03", "The mass shell condition is restored and judged correctly", """
Putting a hit on the mass shell changes only the chosen momentum or energy
variable, to the value that satisfies energy squared = momentum squared + mass
squared (the non-negative root for energy and a momentum component, the same
direction for the total momentum); where no such value exists it becomes zero
and the call says so by returning False. The validity check accepts a hit exactly when its particle code is
known, its mass is the one of that particle and the mass shell condition holds
within tolerance; slice-wise operations that take a mass shell variable apply
it to every hit they change.""", "inputs",
  "every hit, variable name and tolerance",
  "tests adjust one muon hit; the branch per variable and sign is not covered",
  "xboa/hit/_hit.py xboa/bunch/_bunch.py",
  [("mass_shell_condition", "xboa/hit/_hit.py Hit.mass_shell_condition"),
   ("check", "xboa/hit/_hit.py Hit.check")])

p("P04", "Coordinate transformations act linearly on every hit alike", """
A translation adds the given offset to the named variables of every hit and to
no other variable; a linear (rotation or transfer matrix) transformation
replaces the named vector v by M (v - origin) + translation, using the values
before the transformation throughout. The bunch forms do this to every hit
exactly once, and the transfer to a target covariance or mean leaves the bunch
with the linear map that takes the present moments to the requested ones.""",
  "inputs", "every hit list, variable list, matrix and offset",
  "tests transform a few hits with special matrices (identity, one axis)",
  "xboa/hit/_hit.py xboa/bunch/_bunch.py",
  [("hit transformations", "xboa/hit/_hit.py Hit.translate, Hit.abelian_transformation"),
   ("bunch transformations", "xboa/bunch/_bunch.py Bunch.translate, Bunch.abelian_transformation, Bunch.transform_to, Bunch.period_transformation")])

p("P05", "Copies, pickles and text forms of hits are faithful and separate", """
A copy, deep copy, pickle or dictionary form of a hit or bunch carries every
stored variable, and a deep copy shares no mutable state with its original.
Two hits compare equal exactly when all their stored variables agree, and
unequal is the negation of equal.""", "inputs histories",
  "every hit and bunch, every later change to either copy",
  """tests copy one hit and compare; a variable left out of the copied set, or
sharing that only shows after a later mutation, is not sampled""",
  "xboa/hit/_hit.py xboa/bunch/_bunch.py xboa/core/cpplib/Hitcore.hh",
  [("copy and pickle protocol", "xboa/hit/_hit.py Hit.__copy__, __deepcopy__, __getstate__, __setstate__, dict_from_hit, new_from_dict"),
   ("bunch copies", "xboa/bunch/_bunch.py Bunch.copy, Bunch.deepcopy, Bunch.new_from_hits")])

p("P06", "A global weight belongs to its (spill, event, particle) everywhere", """
Two hits with the same spill, event and particle number always see the same
global weight, whichever hit or bunch or part of the library wrote it, and a
weight written for one such triple is never seen under another. Clearing
global weights resets all of them to one, and the total weight used by every
statistic is the product of local and global weight.""",
  "inputs histories",
  "every triple of numbers and every history of reads, writes, clears and cuts",
  """tests use one spill with equal small numbers, so exchanging two of the three
keys goes unnoticed; the table is shared by three extension modules""",
  "xboa/core/cpplib/Hitcore.hh xboa/core/cpplib/WeightContext.hh xboa/core/cpplib/WeightContext.cc xboa/core/cpplib/WeightContext.hpp xboa/core/pylib/PyWeightContext.cc xboa/hit/_hit.py xboa/bunch/_bunch.py",
  [("weight lookup key", "xboa/core/cpplib/Hitcore.hh Hitcore::set_global_weight, global_weight"),
   ("weight table", "xboa/core/cpplib/WeightContext.hh WeightContext"),
   ("key order", "xboa/core/cpplib/WeightContext.hh HitId operator<")],
  [("weight table", "map from (spill, event, particle) to weight with default", "xboa/core/cpplib/WeightContext.hh")])

p("P07", "Weight contexts combine entry by entry", """
Adding, subtracting, multiplying, dividing or testing weight contexts gives for
every (spill, event, particle) the same operation on the two weights, where an
entry missing on either side counts with that side's default weight; the
default weights combine the same way. The operands are unchanged by an
operation that returns a new context.""", "inputs histories",
  "every pair of contexts with overlapping, disjoint or empty entries",
  "tests combine two contexts with the same keys",
  "xboa/core/cpplib/WeightContext.hh xboa/core/cpplib/WeightContext.hpp xboa/core/cpplib/WeightContext.cc xboa/core/pylib/PyWeightContext.cc",
  [("merge", "xboa/core/cpplib/WeightContext.hpp"), ("number protocol", "xboa/core/pylib/PyWeightContext.cc")])

p("P08", "Every file format reads back the columns it writes", """
For each builtin text format the reader and the writer use the same columns in
the same order with the same unit for each column, and applying the format's
unit on writing is undone by reading. Writing selects exactly the hits of that
format's coordinate type, writes one record per hit after the format's header,
and reading skips exactly that header and keeps every record.""",
  "inputs configurations",
  "every format, every hit list and every user supplied unit or comparator",
  """tests round-trip two formats on one sample file; column order and units of
the other formats are never compared""",
  "xboa/hit/_hit.py xboa/bunch/_bunch.py xboa/hit/factory/_builtin_hit_factory.py xboa/hit/factory/_line_factory_base.py xboa/hit/factory/_user_hit_factory.py",
  [("format tables", "xboa/hit/_hit.py Hit.__file_headers, __file_format_in, __file_format_out, __file_units"),
   ("writers", "xboa/hit/_hit.py Hit.write_builtin_formatted, write_list_builtin_formatted, write_user_formatted"),
   ("readers", "xboa/hit/factory")])

p("P09", "Unit names denote consistent physical units", """
Every unit in the unit table is the documented multiple of the library's base
units (mm, ns, MeV, MeV/c, MV, kT, GHz, radians), so that any unit expressed
through others in the table has the matching value and a prefixed unit is its
base unit times the prefix. The physical constants have their accepted values
in those units, and conversions multiply or divide by the unit asked for.""",
  "inputs", "every entry of the tables",
  "tests look at two or three units",
  "xboa/common/_common.py",
  [("units and constants", "xboa/common/_common.py units, constants")])

p("P10", "Particle code tables are mutually consistent", """
Particle mass, charge and name tables cover the same particles; every particle
code maps to one name and back; antiparticles have the opposite charge and the
same mass as their particle; and every code of a foreign numbering scheme
translates to a code the tables know, and back to itself unless several
foreign codes stand for the same particle.""", "inputs", "every entry of every particle table",
  "tests never enumerate the tables",
  "xboa/common/_common.py xboa/hit/_hit.py",
  [("particle tables", "xboa/common/_common.py pdg_pid_to_mass, pdg_pid_to_charge, pdg_pid_to_name, mars_pid_to_pdg ...")])

p("P11", "Hit factories fill each variable from its own source field", """
Every hit made from a file record takes each variable from the field documented
for it, in the library's units, with numbering (spill, event, particle,
station) from the enclosing record; mass and charge follow from the particle
code and the energy from the mass shell unless the record gives them. A record
that cannot be used is reported or skipped as documented, never turned into a
hit with another record's values, and no hit is dropped or made twice.""",
  "inputs", "every record of every supported source format",
  """the MAUS and OPAL readers need libraries and files the tests do not have;
text formats are tested on one file""",
  "xboa/hit/factory/_maus_json_hit_factory.py xboa/hit/factory/_maus_root_hit_factory.py xboa/hit/factory/_maus_root_recon_hit_factory.py xboa/hit/factory/_opal_hit_factory.py xboa/hit/factory/_user_hit_factory.py xboa/hit/factory/_line_factory_base.py xboa/hit/factory/_builtin_hit_factory.py xboa/hit/factory/_hit_factory_base.py",
  [("factories", "xboa/hit/factory/*.py make_hit, new_spill, hit_generator")])

p("P12", "A bunch's list and its compiled core hold the same hits", """
After any sequence of appends, assignments, deletions, copies and slices, the
Python list of a bunch and the compiled container used for its statistics hold
the same hits in the same order. Indexing, length and iteration see that list,
an index outside it raises IndexError, and negative indices of a bunch count
from the end.""", "inputs histories",
  "every sequence of list operations with every index",
  "tests append and index a few hits and never compare the two containers after deletion or negative indices",
  "xboa/bunch/_bunch.py xboa/core/cpplib/Bunchcore.hh xboa/core/cpplib/Bunchcore.cc xboa/core/pylib/PyBunchcore.cc xboa/core/utils/TypeConversions.cc",
  [("list protocol", "xboa/bunch/_bunch.py Bunch.append, __setitem__, __delitem__, __getitem__, __len__"),
   ("core container", "xboa/core/cpplib/Bunchcore.hh set_item, get_item, del_item")],
  [("hit list", "Python list of hits", "xboa/bunch/_bunch.py Bunch.__hits"),
   ("hit core list", "C++ vector of hit cores", "xboa/core/cpplib/Bunchcore.hh hitcores_")])

p("P13", "Means and central moments are weighted with each hit's total weight", """
The mean of a variable is the sum over hits of weight times value divided by
the sum of weights; the moment of a list of variables is the weighted mean of
the product of the deviations from the given means, or from the bunch's own
means when none are given; every hit takes part once with its total weight.
Hits of zero weight take no part.""", "inputs",
  "every bunch, weight assignment and list of variables of any length",
  "tests use unit weights and one or two variables",
  "xboa/core/cpplib/Bunchcore.cc xboa/core/pylib/PyBunchcore.cc xboa/bunch/_bunch.py",
  [("core statistics", "xboa/core/cpplib/Bunchcore.cc get_moment, get_mean, covariance matrix"),
   ("bunch statistics", "xboa/bunch/_bunch.py Bunch.moment, mean, standard_deviation, bunch_weight")])

p("P14", "Covariance matrices pair each entry with its two axes", """
Row i and column j of a covariance matrix hold the covariance of the i-th and
j-th variable of the axes asked for (position and conjugate momentum of each
axis in order), the matrix is symmetric, and stored covariances and means take
the place of calculated ones exactly where they were set.""", "inputs histories",
  "every choice of axes and every combination of stored and calculated entries",
  "tests compare traces and one symmetric case",
  "xboa/bunch/_bunch.py xboa/core/pylib/PyBunchcore.cc xboa/core/cpplib/Bunchcore.cc",
  [("covariance selection", "xboa/bunch/_bunch.py Bunch.covariance_matrix, __cov_mat_picker, __mean_picker, set_covariance_matrix"),
   ("axis lists", "xboa/bunch/_bunch.py Bunch.axis_list_to_covariance_list, convert_string_to_axis_list")])

p("P15", "Emittance and optical functions are the documented moments", """
Emittance is the n-th root of the determinant of the 2n-dimensional covariance
matrix, over the mass unless geometric coordinates are used; beta, alpha, gamma, dispersion, angular momentum and amplitude are the documented
combinations of the same covariances, emittance, mean momentum and mass. The
coordinate convention chosen by the caller or by the class setting is used
consistently for every ingredient.""", "inputs configurations",
  "every bunch, axis choice and coordinate convention, with and without supplied covariances",
  "tests evaluate one Gaussian ellipse in normalised coordinates",
  "xboa/bunch/_bunch.py",
  [("optical functions", "xboa/bunch/_bunch.py Bunch.get_emittance, get_beta, get_alpha, get_gamma, get_dispersion, get_amplitude, get_kinetic_angular_momentum, get_canonical_angular_momentum")])

p("P16", "Cuts zero the chosen weight of exactly the hits that fail", """
A cut sets the local or global weight, whichever was chosen, to zero for
exactly the hits whose variable satisfies the given comparison with the cut
value, and never changes another hit, another variable or another weight, nor
raises a weight. A transmission cut keeps exactly the hits whose identifying
variables appear in the other bunch.""", "inputs",
  "every bunch, variable, comparison, cut value and pre-existing weight",
  "tests cut on a handful of hits with one comparison",
  "xboa/bunch/_bunch.py xboa/core/cpplib/Bunchcore.cc xboa/core/pylib/PyBunchcore.cc",
  [("cuts", "xboa/bunch/_bunch.py Bunch.cut, _cut, transmission_cut, conditional_remove"),
   ("core cut", "xboa/core/cpplib/Bunchcore.cc cut")])

p("P17", "Bunch queries select, order and dispatch as asked", """
Selecting hits by variables returns exactly the hits of the bunch for which all
the given values agree, in order; splitting and grouping puts each hit in the
group of its value; listing variables gives the values of each hit in hit
order divided by the requested unit; and asking a bunch for a quantity by name
gives the same as calling that quantity's own method with the same arguments.
Clearing weights resets the weights named, for every hit.""", "inputs",
  "every bunch, variable, comparator and quantity name",
  "tests query bunches of one or two hits and a few names",
  "xboa/bunch/_bunch.py",
  [("queries", "xboa/bunch/_bunch.py Bunch.get, list_get, get_hits, get_hit_variable, split, list_get_hit_variable, clear_weights")])

p("P18", "Calls do not change their arguments or their defaults", """
A library call leaves lists, dictionaries, arrays and hits passed to it as it
found them unless changing them is its purpose, and the default value of a
parameter is the same on every call.""", "inputs histories",
  "every call of every function, repeated in any order",
  "tests call functions once with throw-away literals",
  "xboa/bunch/_bunch.py xboa/common/_common.py xboa/common/matplotlib_wrapper.py xboa/hit/_hit.py xboa/algorithms xboa/tracking xboa/bunch/weighting",
  [("argument handling", "all public functions")])

p("P19", "A failing call into the compiled core raises a Python error", """
Every wrong argument, unknown name, out of range index or failed conversion
passed to the extension types ends in a Python exception, and no partial effect
of the failed call remains visible. No entry point returns failure without an
exception set, or success with one set, and results are written only after all
arguments were validated.""", "inputs fault_sequences",
  "every entry point, argument combination and failing conversion",
  "tests pass a few wrong types; most error branches are never executed",
  "xboa/core/pylib/PyHitcore.cc xboa/core/pylib/PyBunchcore.cc xboa/core/pylib/PyWeightContext.cc xboa/core/utils/TypeConversions.cc xboa/core/utils/TypeConversions-inl.hh xboa/core/utils/PythonComparator.hh",
  [("argument parsing and conversion", "xboa/core/pylib/*.cc, xboa/core/utils/TypeConversions*")])

p("P20", "The compiled core owns and releases its memory exactly once", """
On every path through the extension modules each new reference is returned,
stored or released exactly once, borrowed references are not released, and
objects kept by a container stay alive as long as the container uses them.
No returned value or stored member depends on uninitialised or freed
memory.""", "inputs histories",
  "every path through every entry point, including the error paths",
  "a leak or dangling reference does not change the value a test sees",
  "xboa/core/pylib/PyHitcore.cc xboa/core/pylib/PyBunchcore.cc xboa/core/pylib/PyWeightContext.cc xboa/core/utils/SmartPointer.hh xboa/core/utils/TypeConversions-inl.hh xboa/core/utils/PythonComparator.hh",
  [("reference handling", "xboa/core/pylib/*.cc"), ("smart pointer", "xboa/core/utils/SmartPointer.hh")])

p("P21", "Every documented operation is executable as written", """
Every name, attribute, keyword and argument used by a library function exists
where it is used, whichever branch is taken: no branch calls an undefined name,
passes a wrong number of arguments to another library function, or relies on a
language construct that the supported Python version does not have.""",
  "inputs configurations", "every branch of every function",
  "Python resolves names only when a line is executed; most error, plotting and file branches are never executed by tests",
  "xboa",
  [("all modules", "xboa/**/*.py")])

p("P22", "Files, worker pools and global switches are released on every path", """
A function that opens a file, starts a pool of workers or changes a global
setting or a caller's hit for its own use closes, stops or restores it before
it returns, also when it fails.""", "inputs fault_sequences",
  "every path out of every function that acquires something, including exceptions",
  "tests never make these calls fail, and a leaked handle does not fail a test",
  "xboa/bunch/_bunch.py xboa/hit/_hit.py xboa/common/_common.py xboa/bunch/weighting/_hull_content.py xboa/tracking",
  [("acquire and release sites", "open, Pool, set/restore pairs in xboa/**/*.py")])

p("P23", "Tracking returns one ordered list of hits per input hit", """
Every tracking implementation returns for each input hit, in input order, one
list of hits that starts with that hit's own state and continues with its
successive images; tracking one hit is tracking a list of one. Splitting the
work over processes returns the same lists in the same order as tracking all
hits at once.""", "inputs schedules",
  "every list of hits, number of processes and completion order",
  "tests track one or two hits in one process",
  "xboa/tracking/_matrix_tracking.py xboa/tracking/_maus_tracking.py xboa/tracking/_multitrack.py xboa/tracking/_timeout_tracking.py xboa/tracking/_tracking_base.py",
  [("track_one, track_many", "xboa/tracking/*.py")])

p("P24", "Tracking processes hand over their work completely", """
A tracking process is started with exactly the hits and the tracking object it
was given, runs them once, and its result becomes available only when it is
complete; asking early or after a failure raises or reports it rather than
returning another run's result. Batch submission, status and kill act on the
job that was submitted.""", "schedules fault_sequences histories",
  "every order of start, poll, join, kill and result, including failed jobs",
  "batch queues are absent from the test environment",
  "xboa/tracking/tracking_process/_tracking_process.py xboa/tracking/tracking_process/_bsub_process.py xboa/tracking/tracking_process/_this_node_process.py xboa/tracking/tracking_process/xboa_tracking_process.py xboa/tracking/_multitrack.py",
  [("process life cycle", "xboa/tracking/tracking_process/*.py")])

p("P25", "Ellipse fits and closed orbit search use the stated formulas", """
The ellipse fitted to points has their weighted mean and covariance after the
documented iterative cut; a point on the fitted ellipse has the stated squared
distance; the closed orbit search starts each iteration at the centre of the
previous ellipse, reports it with its noise, and stops at the documented
number of iterations or tolerance.""", "inputs",
  "every set of points, tolerance and iteration limit",
  "tests fit a single exact ellipse",
  "xboa/common/_common.py xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py",
  [("fit_ellipse", "xboa/common/_common.py fit_ellipse and helpers"),
   ("closed orbit finder", "xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py")])

p("P26", "Tune finders compute the tune from the tracked points", """
The phase advance finder transforms every tracked point to the circle of the
fitted ellipse and takes the mean wrapped phase step between consecutive turns
as the tune, with its spread as error; the Fourier finder evaluates the
spectrum of the recorded points and returns the frequency of the chosen peak.
Repeating the computation on the same points gives the same tune.""",
  "inputs histories", "every sequence of points, number of turns and repeated call",
  "tests use one sampled rotation",
  "xboa/algorithms/tune/_dphi_tune.py xboa/algorithms/tune/_fft_tune.py",
  [("tune finders", "xboa/algorithms/tune/*.py")])

p("P27", "Smoothing and peak finding use the whole documented window", """
The smoothing kernels give every output point the normalised kernel weighted
sum of the inputs in its window, of the documented length; the peak finders
return exactly the points that satisfy the documented criterion, once and in
order, within the bounds of the data.""", "inputs",
  "every data list, window width and step",
  "tests use one synthetic signal",
  "xboa/algorithms/smoothing xboa/algorithms/peak_finder",
  [("smoothing", "xboa/algorithms/smoothing/*.py"), ("peak finders", "xboa/algorithms/peak_finder/*.py")])

p("P28", "Statistical weighting assigns each hit its own computed weight", """
Cell-content, bounding ellipse and multipole weightings compute for each hit
the documented function of that hit's own coordinates (content of its cell,
distance to the bound, polynomial correction) and write it to the weight of
that very hit, leaving hits outside the bound with the documented weight.""",
  "inputs", "every bunch, bound and target distribution",
  "tests check symmetric samples where exchanging two hits' weights is invisible",
  "xboa/bunch/weighting",
  [("weighting", "xboa/bunch/weighting/*.py")])

p("P29", "Binning, ranges and sorting keep values and weights paired", """
A histogram counts each value once, with its weight, in the bin whose edges
enclose it; edges are ordered and cover the requested range; the computed range
of several data sets encloses all values and limits given by the caller are
used as given; sorting several lists together keeps corresponding entries
together.""", "inputs", "every list of values, weights, bin edges and limits",
  "tests use short unweighted lists",
  "xboa/common/_common.py xboa/bunch/_bunch.py",
  [("binning and ranges", "xboa/common/_common.py histogram, get_bin_edges, min_max, multisort, make_grid, n_bins")])

p("P30", "Process lists return results in input order and kill stragglers", """
Running a function over a list in several processes returns one result per
input, in input order, whatever the completion order, and an error in a worker
is reported. A call run with a time limit returns its own result, or is ended
with all its children when the limit passes.""", "schedules inputs",
  "every completion order, number of workers and time limit",
  "tests run two short jobs whose completion order is fixed",
  "xboa/common/_common.py",
  [("process_list, subprocess, kill_all_subprocesses", "xboa/common/_common.py")])

p("P31", "Decoupled transfer matrices give consistent Twiss parameters", """
The decoupling transformation pairs each eigenvalue with its own eigenvector
and plane, the phase advances are the arguments of those eigenvalues, and beta,
alpha and gamma of each plane and the fitted ellipse are taken from the same
decoupled two by two block; a matrix of odd size is refused.""", "inputs",
  "every symplectic matrix of even size",
  "the existing tests of this module do not run in the suite",
  "xboa/algorithms/decoupled_transfer_matrix.py",
  [("DecoupledTransferMatrix", "xboa/algorithms/decoupled_transfer_matrix.py")])

p("P32", "Ellipse builders lay out the documented beam matrix", """
The matrices built from Twiss parameters, emittance, momentum, mass, field and
dispersion are symmetric, have the documented entry for each pair of variables
and reproduce the optical functions they were built from; points generated on a
shell or grid around a mean lie on that ellipse or grid.""", "inputs",
  "every value of the optical parameters",
  "tests compare one parameter set",
  "xboa/bunch/_bunch.py xboa/common/_common.py",
  [("builders", "xboa/bunch/_bunch.py Bunch.build_penn_ellipse, build_MR_ellipse, build_ET_ellipse, build_ellipse_2d, build_ellipse_from_transfer_matrix, new_hit_shell"),
   ("shell and grid", "xboa/common/_common.py make_shell, make_grid")])

p("P33", "Plots show the data, units and labels they were asked for", """
Every plotting call draws exactly the values of the named variables in the
requested units, each axis with its own label, limits and data, one curve per
data set, with each hit's weight where a histogram is drawn.""", "inputs configurations",
  "every choice of variables, units, limits and number of data sets, for both plotting back ends",
  "plots are not inspected by tests",
  "xboa/bunch/_bunch.py xboa/common/_common.py xboa/common/matplotlib_wrapper.py",
  [("bunch plots", "xboa/bunch/_bunch.py root_*, matplot_*"), ("wrappers", "xboa/common/_common.py make_*, xboa/common/matplotlib_wrapper.py")])

p("P34", "Loading a file sorts every hit into the bunch of its group", """
Loading bunches from a file puts every hit that the reader yields into exactly
one bunch, that of its group (station, plane or spill) in reading order, honours
the requested number and kind of events, and gives the same hits whether they
are loaded as one bunch, a list or a dictionary of bunches.""", "inputs",
  "every file content, format and grouping",
  "tests load one example file",
  "xboa/bunch/_bunch.py xboa/hit/_hit.py",
  [("loaders", "xboa/bunch/_bunch.py Bunch.new_dict_from_read_builtin, new_list_from_read_builtin, new_from_read_builtin, read_maus_root_file, read_maus_json_file")])

p("P35", "Weighting converges and numerical results are accurate", """
Iterative weighting, ellipse fitting and root finding converge to the requested
target, and floating point results are accurate to the documented
tolerance.""", "inputs", "every input in the documented range",
  "convergence depends on the data",
  "xboa/bunch/weighting xboa/common/_common.py",
  [("iterations", "xboa/bunch/weighting/_multipole_weighting.py, xboa/common/_common.py nd_newton_raphson1")])

p("P36", "Numbers survive the text formats to the printed precision", """
A hit written to a text format and read back has every variable equal to the
printed precision of that format.""", "inputs", "every floating point value",
  "tests round-trip a few values",
  "xboa/hit/_hit.py", [("writers", "xboa/hit/_hit.py Hit.write_builtin_formatted")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
