#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HIT="xboa/hit/_hit.py"; BUN="xboa/bunch/_bunch.py"; COM="xboa/common/_common.py"
HC="xboa/core/cpplib/Hitcore.hh"; HCC="xboa/core/cpplib/Hitcore.cc"; BC="xboa/core/cpplib/Bunchcore.cc"
BCH="xboa/core/cpplib/Bunchcore.hh"
WC="xboa/core/cpplib/WeightContext.hpp"; WCH="xboa/core/cpplib/WeightContext.hh"; SP="xboa/core/utils/SmartPointer.hh"
PHC="xboa/core/pylib/PyHitcore.cc"; PBC="xboa/core/pylib/PyBunchcore.cc"; PWC="xboa/core/pylib/PyWeightContext.cc"
TC="xboa/core/utils/TypeConversions-inl.hh"

p("P01","Every hit variable reads back what was written and nothing else changes",
 "Writing any settable basic variable of a hit, under any of its names, makes every name of that variable read back exactly the written value and leaves every other basic variable of that hit, and every variable of every other hit except a global weight shared by identity, unchanged. A new hit reads zero everywhere except unit weights. Reading or writing an unknown name, or writing a value of the wrong kind, raises an error and changes nothing.",
 ["inputs","histories"],"all variables and aliases, all finite values, all hits, any order of writes",
 "Tests set a handful of values on one hit; a swapped accessor entry or an alias pointing at another field only shows on the pair of names they do not compare.",
 [HC,HCC,PHC,HIT],[("name to accessor/mutator maps",HCC+": initialise_string_to_*"),("get/set dispatch",HC+": get_double,set_double,get_int,set_int"),("wrapper",PHC+": get,set"),("Hit.get/Hit.set",HIT)],["Hit.get","Hit.set","Hitcore.get","Hitcore.set"])
p("P02","Derived hit variables follow their definitions and their setters invert them",
 "Every derived variable of a hit (total, transverse and angular momentum, radius, angles, slopes, kinetic energy, scaled time, spin, total weight) equals its documented formula in the basic variables. Setting a derived variable makes it read back the written value, changes only the basic variables it is documented to change, and preserves the momentum direction when the momentum magnitude is set. Slopes are refused, with nothing changed, when the longitudinal momentum is zero.",
 ["inputs"],"all real values of the basic variables and of the written value within the documented domain",
 "Tests evaluate one or two points per variable, at which several wrong formulas agree.",
 [HIT],[("derived getters",HIT+": get_p .. get_l_kin"),("derived setters",HIT+": set_p,set_xP,set_yP,set_tP,set_ct,set_ek"),("dispatch tables",HIT+": __get_variables,__set_variables")],["Hit.get","Hit.set"])
p("P03","The mass-shell condition restores E^2 = p^2 + m^2 through one variable only",
 "After imposing the mass-shell condition through a chosen variable, energy squared equals momentum squared plus mass squared whenever a solution exists; when none exists for a single momentum component that component is set to zero and failure is reported. Only the chosen variable (for total momentum, only the three components by a common factor) changes, and an unknown choice is refused without change.",
 ["inputs"],"all real momenta, masses and energies, all choices of variable",
 "Tests use two or three kinematic points and cannot exhibit the boundary between the solvable and unsolvable regions.",
 [HIT],[("mass shell",HIT+": Hit.mass_shell_condition")],["Hit.mass_shell_condition"])
p("P04","Copying, dict conversion and pickling preserve a hit and touch nothing else",
 "A deep copy, a hit rebuilt from a hit's dictionary or printed form, and an unpickled hit compare equal to the original in every variable including weights, and are independent of it: later writes to one are not seen by the other. Making such a copy changes no variable and no weight of the original or of any other hit. A shallow copy is the same hit.",
 ["inputs","histories"],"all hits and all states of the weight table, including hits whose global weight is not one",
 "Tests copy a hit in a fresh weight table and compare only the two hits; a side effect on a third particle's weight is invisible to them.",
 [HIT,BUN],[("dict conversion",HIT+": dict_from_hit,new_from_dict"),("copy and pickle",HIT+": __deepcopy__,__getstate__,__setstate__,__copy__"),("equality",HIT+": __eq__")],["Hit.deepcopy","Hit.new_from_dict","pickle"])
p("P05","Global weight belongs to the particle identity, local weight to the hit",
 "All hits with the same spill, event and particle number share one global weight: writing it through any of them, through a bunch or through the weight table is read by all of them and by no hit with a different identity. The local weight belongs to one hit; the total weight is always the product of the two; clearing global weights resets every identity to the default, and selecting another weight table switches every later read, statistic and cut to that table.",
 ["inputs","histories"],"all identity triples, all weights, all sequences of writes, identity changes, clears and table switches",
 "Tests use a few identities, mostly with equal event and particle numbers, in a single weight table.",
 [HC,WC,WCH,PHC,PWC,PBC],[("weight lookup",HC+": global_weight,set_global_weight,total_weight"),("table",WC+": getWeight,setWeight,clearWeights"),("identity order",WCH+": HitId::operator<"),("active table",PHC+": setWeightContext,getWeightContext; "+PBC+": setWeightContext")],["Hit['global_weight']","WeightContext.get_weight","Bunch.bunch_weight"],[("weight table","map from identity to weight plus default",WCH)])
p("P06","Weight tables combine identity by identity, defaults included",
 "For every identity, whether or not it was ever set in either operand, the weight in the sum, difference, product or quotient of two weight tables (or of a table and a number) is the sum, difference, product or quotient of the weights that the operands give that identity, and the default combines likewise. Inversion gives the default to an identity of weight zero and zero to every other, with default zero. Operands and all other tables are unchanged, and number-minus-table and number-over-table are refused.",
 ["inputs","histories"],"all pairs of tables with any finite set of identities, all numbers, chained expressions, a table combined with itself",
 "Tests combine tables with two or three identities; an identity present in only one operand at a particular place in the order, or self-combination, is not reached.",
 [WC,WCH,PWC],[("adopt identities",WC+": adoptHits"),("operators",WC+": add,subtract,multiply,divide,op_not and *::operate"),("python operators",PWC+": binary_operator,unary_operator")],["WeightContext + - * / ~"])
p("P07","Shared numerical records live exactly as long as something refers to them",
 "For every history of creating, sharing, replacing and dropping handles to a hit's numerical record or a weight table, the reference count of a record equals the number of live handles, the record is destroyed exactly once when the count reaches zero, and no live handle ever refers to a destroyed record. Replacing a handle by itself changes nothing.",
 ["histories"],"all sequences of construct, copy, assign, reset and destroy over any number of handles and records",
 "Tests run short fixed sequences; lifetime errors need a particular order of self-assignment, overwriting and destruction.",
 [SP,PHC,PBC],[("reference counting",SP+": set,incref,decref,~SmartPointer,operator="),("wrapper ownership",PHC+": _alloc,_init,_free; "+PBC+": get_item,set_item")],["Hitcore.dump_memory","SmartPointer::ref_count"],[("ref_count_","record address to number of handles",SP)])
p("P08","A bunch's list of hits and its numerical core never disagree",
 "After any sequence of building, appending, replacing, deleting and removing hits, the numerical core of a bunch holds exactly the same hits in the same order as its list: every statistic computed by the core equals the same statistic computed from the listed hits, and a change made to a listed hit is seen by the core. Out-of-range accesses raise an error and change neither.",
 ["histories","inputs"],"all operation sequences, all positions including negative ones",
 "Tests build a bunch once; the two representations only drift apart after specific sequences of replacement and deletion.",
 [BUN,BC,BCH,PBC,TC],[("append/set/delete",BUN+": append,__setitem__,__delitem__,conditional_remove,new_from_hits"),("core storage",BC+": set_item,del_item; "+BCH+": get_item,length")],["Bunch[i]","len(Bunch)","Bunch.moment"],[("hits list","python list of hits",BUN),("hitcores_","core vector of records",BCH)])
p("P09","Moments, means and widths are the weighted averages of the listed hits",
 "A moment of a bunch equals the sum over hits of total weight times the product of (variable minus centre), divided by the sum of total weights, where a centre not given is the weighted mean; means and standard deviations are the corresponding first moment and root second central moment. The value does not depend on whether the compiled or the interpreted path computes it, on the order of hits, or on hits of zero weight, and zero total weight raises an error.",
 ["inputs"],"bunches of any length, any weights, any list of variables and centres",
 "The tests that touch moments compare a few fixed bunches, mostly with unit weights.",
 [BUN,BC,PBC],[("moment and mean",BUN+": moment,mean,standard_deviation,bunch_weight"),("core moment",BC+": get_moment,bunch_weight")],["Bunch.moment","Bunch.mean","Bunch.standard_deviation","Bunch.bunch_weight"])
p("P10","The covariance matrix is the symmetric matrix of weighted second moments",
 "Entry (i, j) of the covariance matrix of a list of variables is the weighted second moment of variables i and j about the given or mean centres; the matrix is symmetric, its diagonal is non-negative for non-negative weights, and it is the same from the compiled and the interpreted calculation. A covariance matrix or means stored in the bunch are returned for the variables they cover until they are cleared.",
 ["inputs"],"bunches of any length and weights, any list of variables, any partial choice of centres",
 "Tests use fixed bunches and few variables; a transposed, half-filled or unweighted entry survives them.",
 [BUN,BC,PBC],[("python assembly",BUN+": covariance_matrix,set_covariance_matrix"),("core",BC+": covariance_matrix")],["Bunch.covariance_matrix","Bunchcore.covariance_matrix"])
p("P11","The moment tensor lists every multi-index once with its weighted raw moment",
 "For every number of variables and every maximum order the index list contains each combination of powers whose sum does not exceed the order exactly once, beginning with all zeros, and the tensor entry at each index is the weighted average over the bunch of the corresponding product of powers.",
 ["inputs"],"all orders, all numbers of variables, all bunches",
 "Tests check one order and dimension in detail.",
 [BC,PBC],[("enumeration",BC+": get_index_by_power,get_index_by_power_recurse"),("tensor",BC+": get_moment_tensor")],["Bunchcore.moment_tensor","Bunchcore.index_by_power"])
p("P12","A cut zeroes the weight of exactly the hits it selects",
 "After a cut, the chosen weight (local, or global by identity) is zero for exactly the hits whose variable satisfies the comparison with the cut value, or which were already zero, and every other weight and every coordinate is unchanged. A cut in numbers of sigma uses the weighted standard deviation of the bunch before that cut; the same hits are selected for basic, derived and integer variables.",
 ["inputs"],"all bunches, variables, comparison functions, thresholds, local and global cuts, several variables at once",
 "The only stable tests exercise one comparator at the boundary value.",
 [BUN,BC,PBC],[("cut",BUN+": cut,_cut"),("core cut",BC+": cut_double"),("comparator","xboa/core/utils/PythonComparator.hh: compare")],["Bunch.cut"])
p("P13","Selections partition a bunch without losing, duplicating or altering hits",
 "Splitting by a variable puts every hit in exactly the group of its value, in order; selecting or removing by a comparison keeps exactly the hits for which it is true or false, in order; and a transmission cut leaves weight only to the hits whose identifying values occur in the test bunch, unchanged for those. No coordinate of any hit is altered.",
 ["inputs"],"all bunches, variables, comparison functions, test bunches including empty and duplicated ones",
 "No stable test covers these operations beyond a single boundary case.",
 [BUN],[("selection",BUN+": split,get_hits,conditional_remove,transmission_cut")],["Bunch.split","Bunch.get_hits","Bunch.conditional_remove","Bunch.transmission_cut"])
p("P14","Coordinate transformations apply the stated linear map to every hit",
 "Translating adds the given offset to each named variable of every hit; an affine transformation maps the vector of named variables to matrix times (vector minus origin) plus origin plus translation; and a period transformation measures the variable from the given offset and moves it by a whole number of periods into the one period around zero. Only named variables and the one chosen by the mass-shell option change, and transforming to target covariances gives the bunch those covariances up to overall scale.",
 ["inputs"],"all matrices, origins, translations, partial specifications, bunches of any length",
 "Tests apply a couple of maps to one hit.",
 [HIT,BUN],[("hit level",HIT+": translate,abelian_transformation,get_vector"),("bunch level",BUN+": translate,abelian_transformation,transform_to,period_transformation")],["Bunch.translate","Bunch.abelian_transformation","Bunch.transform_to","Bunch.period_transformation"])
p("P15","Emittance, Twiss parameters and amplitude are mutually consistent",
 "Emittance is the 2n-th root of the covariance determinant, over mass unless geometric coordinates are asked for; the Twiss functions computed from the same bunch reproduce its second moments from that emittance, so that beta times gamma minus alpha squared is one in one dimension, in either coordinate convention and however the convention is selected. Amplitude is the squared distance in the inverse covariance times that emittance, and angular momentum and dispersion equal their defining moments.",
 ["inputs","configurations"],"all non-degenerate bunches, axis lists, both conventions selected globally or per call, optional given covariances and means",
 "No stable test exercises these functions; unit tests fix one bunch and one convention.",
 [BUN],[("emittance and Twiss",BUN+": get_emittance,get_beta,get_gamma,get_alpha"),("amplitude",BUN+": get_amplitude"),("moments of rotation and dispersion",BUN+": get_kinetic_angular_momentum,get_canonical_angular_momentum,get_dispersion,get_dispersion_prime"),("conventions",BUN+": momentum_variable,axis_list_to_covariance_list")],["Bunch.get_emittance","Bunch.get_beta","Bunch.get_amplitude"])
p("P16","Beam ellipses built from Twiss parameters have the requested optics",
 "An ellipse built from beta, alpha, emittance, momentum and mass is symmetric and positive definite, and its determinant, diagonal and off-diagonal elements give back exactly the requested emittance, beta and alpha in the chosen convention. The four-dimensional solenoidal ellipse is symmetric, has equal transverse blocks with the requested beta, alpha and canonical angular momentum term, and has the requested four-dimensional emittance. Non-positive beta or emittance is refused, and so is a non-positive mass for the solenoidal ellipse.",
 ["inputs"],"all real parameters within the stated domain",
 "Unit tests check single numerical points.",
 [BUN],[("builders",BUN+": build_ellipse_2d,build_penn_ellipse")],["Bunch.build_ellipse_2d","Bunch.build_penn_ellipse"])
p("P17","Hits written in a built-in format are read back as the same hits",
 "For each built-in text format, every hit written, of any station, is read back exactly once, grouped by station in the original order, with every variable the format carries equal up to printed precision after unit conversion, with particle id, mass and charge consistent and energy on the mass shell. Writing leaves the hits in memory unchanged, whether it succeeds or is refused, and a declared unit of length in the file header is honoured on reading.",
 ["inputs","histories"],"all hits with particle ids known to the format, all formats, any station grouping, both length units",
 "Tests write and read one hit per format with fixed values.",
 [HIT,BUN,"xboa/hit/factory/_builtin_hit_factory.py","xboa/hit/factory/_line_factory_base.py"],[("writer",HIT+": write_builtin_formatted,write_list_builtin_formatted,__write_formatted"),("reader","xboa/hit/factory/_builtin_hit_factory.py: make_hit; _line_factory_base.py: _read_formatted"),("file set-up",BUN+": setup_file,new_from_read_builtin")],["Hit.write_list_builtin_formatted","Bunch.new_from_read_builtin"])
p("P18","User-defined column formats round-trip and reject malformed input",
 "For any list of settable columns with any known units, hits written in a user format are read back with the same values up to printed precision, in order; blank columns are ignored; lines with the wrong number of columns or unparsable numbers are counted and skipped without losing or corrupting neighbouring hits. A format with an unknown column or a missing or unknown unit is refused before anything is read.",
 ["inputs"],"all column lists, unit choices and line sequences",
 "Tests use one column list.",
 [HIT,BUN,"xboa/hit/factory/_user_hit_factory.py","xboa/hit/factory/_line_factory_base.py"],[("writer",HIT+": write_user_formatted"),("reader","xboa/hit/factory/_user_hit_factory.py; _line_factory_base.py"),("bunch reader",BUN+": new_from_read_user,hit_write_user")],["Bunch.new_from_read_user","Bunch.hit_write_user"])
p("P19","Particle-id, mass, charge and unit tables are mutually consistent",
 "Every foreign particle id maps to a standard id with a known mass; translating a standard id to a foreign code and back gives the same standard id; a particle and its antiparticle have the same mass and opposite charge; and all unit factors of one physical dimension are in their exact decimal ratios.",
 ["configurations"],"every entry of every table",
 "No test enumerates the tables.",
 [COM],[("tables",COM+": icool_pid_to_pdg,mars_pid_to_pdg,pdg_pid_to_mass,pdg_pid_to_charge,units")],["xboa.common tables"])
p("P20","Histogramming puts each weighted point in the one bin that contains it",
 "Every point inside the histogram range adds its weight to exactly the one bin whose half-open interval contains it, in one or two dimensions, and points outside add nothing, so the contents sum to the weight in range. Generated bin edges are evenly spaced, increasing, of the requested number, and span the requested or actual range, and histogramming a bunch is the histogram of its variables in the requested units with its weights.",
 ["inputs"],"all point lists, weights, edges, units, with and without explicit limits",
 "Tests bin a few points away from edges.",
 [COM,BUN],[("binning",COM+": histogram,get_bin_edges,n_bins,min_max"),("bunch histogram",BUN+": histogram,histogram_var_bins,list_get_hit_variable")],["Common.histogram","Bunch.histogram"])
p("P21","Ranges and sorting keep data intact",
 "The range of a list of numbers contains every number of positive weight, is the tightest such range extended by the requested margin, is never empty, and explicit limits override it. Sorting several lists together orders the first and applies the same permutation to all the others, losing no entry. Text substitution replaces exactly the listed keys and keeps every other character.",
 ["inputs"],"all lists, weights, margins, and substitution tables",
 "Tests use short fixed lists.",
 [COM],[("range",COM+": min_max"),("joint sort",COM+": multisort"),("substitution",COM+": substitute")],["Common.min_max","Common.multisort","Common.substitute"])
p("P22","Grids and shells place the right number of points exactly where stated",
 "A grid in d dimensions with n points per dimension contains each of the n^d combinations of evenly spaced coordinates from -1 to 1 exactly once. A shell contains one point per non-central grid point, each lying on the given ellipsoid about the given mean, in the direction of that grid point; a bunch built on a shell has one hit per point with those coordinates on the mass shell. Normalising a vector keeps its direction and gives it unit length in the given metric.",
 ["inputs"],"all dimensions and sizes, all positive definite ellipses, all means",
 "Tests cover one or two sizes with simple ellipses.",
 [COM,BUN],[("grid and shell",COM+": make_grid,make_shell,normalise_vector"),("bunch on shell",BUN+": new_hit_shell")],["Common.make_grid","Common.make_shell","Bunch.new_hit_shell"])
p("P23","Newton-Raphson solves affine systems in one step and stays inside its limits",
 "Newton-Raphson search of a vector function performs at most the requested number of iterations, solves an affine invertible function exactly in one step, does not modify the caller's start point, evaluates the function about points folded into the periodic limits when these are given, and gives the same answer through the one-point and the many-point function interface.",
 ["inputs"],"all affine functions, start points, steps and limits within the domain",
 "Tests solve two fixed functions.",
 [COM],[("search",COM+": nd_newton_raphson1,nd_newton_raphson2")],["Common.nd_newton_raphson1","Common.nd_newton_raphson2"])
p("P24","The fitted ellipse is the weighted mean and covariance of the points inside it",
 "With no point outside the cut, the fitted centre and ellipse are exactly the weighted mean and covariance of all the points; with a cut, each iteration uses exactly the points whose normalised amplitude about the previous fit is below the cut, with their own weights. The number of iterations never exceeds the limit and the caller's data are not modified.",
 ["inputs"],"all point lists, weights, cuts and iteration limits",
 "Tests fit two fixed samples with unit weights.",
 [COM],[("fit",COM+": fit_ellipse,_get_fit_ellipse_covariance_matrix,_update_fit_ellipse_cut,_sum_weight")],["Common.fit_ellipse"])
p("P25","The phase-advance tune of an exact rotation is the rotation's fraction of a turn",
 "For points that advance by a constant angle on any ellipse, the computed phase advance per turn is that angle as a fraction of a full turn in the stated sense of rotation, in [0, 1), for each step as well as for the mean; there is one advance per consecutive pair of points. Missing data are refused, and repeated evaluation gives the same answer.",
 ["inputs","histories"],"all ellipses, tunes, start phases and numbers of turns, repeated calls",
 "Tests check a few tunes on one ellipse.",
 ["xboa/algorithms/tune/_dphi_tune.py",COM],[("tune","xboa/algorithms/tune/_dphi_tune.py: get_tune,get_dphi_list,run_tracking")],["DPhiTuneFinder.get_tune"])
p("P26","Peak finders return exactly the local maxima they define",
 "The slope-based finder returns, in increasing order and each once, exactly the indices at which the data strictly rise and then strictly fall. The window finder returns, in order and without repetition, exactly the positions that are the first maximum of some window without lying on an inner edge of that window and exceed the stated threshold; every returned index is a valid position and the data are not modified.",
 ["inputs"],"all finite data lists, window sizes, steps and thresholds",
 "Tests use one or two waveforms.",
 ["xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py","xboa/algorithms/peak_finder/_window_peak_finder.py"],[("slope","_uphill_downhill_peak_finder.py: find_peaks,_get_derivative"),("window","_window_peak_finder.py: find_peaks")],["find_peaks"])
p("P27","Smoothing is a normalised local average that keeps length and constants",
 "Gaussian smoothing returns one value per input value, each the Gaussian-weighted sum of the inputs within range divided by the full or the truncated kernel sum as selected; with boundary adjustment a constant signal is unchanged and the output stays within the range of the input. Cutting smoothing removes exactly the rows that deviate from their block mean by more than the cut, from every column alike. The input is never modified.",
 ["inputs"],"all signals, widths, ranges, block sizes and cuts",
 "Tests smooth one signal.",
 ["xboa/algorithms/smoothing/_gaussian_smoothing.py","xboa/algorithms/smoothing/_cut_smoothing.py"],[("gaussian","_gaussian_smoothing.py: smooth,_smooth_one"),("cut","_cut_smoothing.py: smooth,smooth_table")],["GaussianSmoothing.smooth","CutSmoothing.smooth_table"])
p("P28","Tracking maps each particle by its transfer map and loses no particle",
 "Matrix tracking returns for each particle its copy followed by one hit per transfer matrix whose coordinates are the matrix applied to (input minus reference) plus the output offset, on the mass shell, without altering the input; tracking many equals tracking each. Tracking over several processes hands every particle to exactly one process in order, with shares differing by at most one.",
 ["inputs","schedules"],"all matrices, offsets, particle lists and process counts",
 "Tests track one particle through one map; work division is not tested.",
 ["xboa/tracking/_matrix_tracking.py","xboa/tracking/_multitrack.py","xboa/tracking/_tracking_base.py"],[("matrix","_matrix_tracking.py: track_one"),("division","_multitrack.py: track_many_async,get_return_value")],["MatrixTracking.track_one","MultiTrack.track_many_async"])
p("P29","The bounding-ellipse cut keeps exactly the points inside the ellipse",
 "A point is kept exactly when its squared distance from the centre in the inverse of the limiting ellipse does not exceed one; kept points come out in their original order and unchanged together with their original positions, and the caller's array is not modified. Boundary sample points all lie on the limiting ellipse, and malformed limits are refused.",
 ["inputs"],"all positive definite ellipses, centres and point lists",
 "Tests use one ellipse.",
 ["xboa/bunch/weighting/_bounding_ellipse.py",COM],[("cut","_bounding_ellipse.py: __init__,cut_on_bound")],["BoundingEllipse.cut_on_bound"])
p("P30","Polynomial weighting gives the weighted bunch the target moments",
 "After polynomial weights are applied to a non-degenerate bunch, its weighted moments at every targeted multi-index equal the targets, whichever order the targets were given in, through local or global weights as selected, and no coordinate changes. Inconsistent, duplicated or non-integer target indices are refused.",
 ["inputs"],"all bunches with invertible moment systems, all target sets",
 "Tests target a single ellipse.",
 ["xboa/bunch/weighting/_multipole_weighting.py",BC],[("weights","_multipole_weighting.py: apply_weights,_calculate_coefficients,set_target_moments,_moments_from_ellipse")],["MultipoleWeighting.apply_weights"])
p("P31","Closed-orbit iteration reports the fixed point and never tampers with its seed",
 "Iterating the closed-orbit search on a linear periodic map moves the seed to the centre of the fitted turn-by-turn ellipse, which is the map's fixed point, keeps all coordinates that are not searched, and stops at the iteration limit or when the noise is within tolerance; the caller's seed hit is not modified.",
 ["inputs","histories"],"all stable linear maps, seeds and settings",
 "Tests run one toy lattice.",
 ["xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py"],[("search","_ellipse_closed_orbit_finder.py")],["EllipseClosedOrbitFinder.find_closed_orbit"])
p("P32","Decoupling a transfer matrix reproduces it and its matched beam is invariant",
 "For a stable symplectic transfer matrix the decoupling satisfies M R = R T with block-diagonal T, the reported phase advances are those of its eigenvalues, each plane has beta times gamma minus alpha squared equal to one, and the matched covariance for any eigen-emittances is mapped to itself by M. Non-square, odd-sized or non-unit-determinant matrices are refused.",
 ["inputs"],"all stable symplectic matrices of even size",
 "No stable test covers it.",
 ["xboa/algorithms/decoupled_transfer_matrix.py"],[("decoupling","decoupled_transfer_matrix.py: __init__,_get_decoupling,get_v_m")],["DecoupledTransferMatrix"])
p("P33","Geometric weighting by cells and hulls conserves content",
 "Weights derived from cell volumes or hull content are non-negative and proportional to the cell volume times the target density, and the content of a hull is the volume of its convex hull.",
 ["inputs"],"all point sets in general position",
 "Tests use fixed meshes.",
 ["xboa/bunch/weighting/_voronoi_weighting.py","xboa/bunch/weighting/_hull_content.py"],[("tessellation","_voronoi_weighting.py,_hull_content.py")])
p("P34","Framework data files (ROOT and JSON event trees) are read completely",
 "Every hit stored in an external framework's event tree is returned exactly once with its coordinates and identity, and malformed events are skipped without losing the rest.",
 ["inputs"],"all event trees",
 "Needs the external framework's data and classes, absent here.",
 ["xboa/hit/factory/_maus_root_hit_factory.py","xboa/hit/factory/_maus_json_hit_factory.py","xboa/tracking/_maus_tracking.py"],[("readers","xboa/hit/factory/_maus_*.py")])
p("P35","Spectral tune and function-fit results are accurate",
 "The tune found from a spectrum and the parameters found by fitting a function are accurate to the resolution of the data.",
 ["inputs"],"all signals",
 "Accuracy of external transforms and minimisers on real data.",
 ["xboa/algorithms/tune/_fft_tune.py","xboa/algorithms/peak_finder/_refine_peak_finder.py","xboa/algorithms/smoothing/_fit_smoothing.py"],[("fits","_fft_tune.py,_refine_peak_finder.py,_fit_smoothing.py")])
p("P36","Parallel helpers terminate and return results in argument order",
 "Running a function over a list of arguments in worker processes returns one result or exception per argument in argument order for every interleaving of workers, and every started process ends.",
 ["schedules"],"all interleavings of worker processes",
 "Depends on the scheduler; tests see one interleaving.",
 [COM,"xboa/tracking/_timeout_tracking.py"],[("workers",COM+": process_list,subprocess,kill_all_subprocesses")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
