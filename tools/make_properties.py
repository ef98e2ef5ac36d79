"""Writes /verif/properties.jsonl (kept in one place so that it stays easy to edit)."""
import json, os

S = "interpolation/splines/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=state or [],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


CG = S + "codegen.py"
ES = S + "eval_splines.py"
EC = S + "eval_cubic.py"
EN = S + "eval_cubic_numba.py"
PF = S + "prefilter_cubic.py"
FC = S + "filter_cubic.py"

prop(
    "C01", "Linear splines return the multilinear blend of the surrounding nodes",
    "On any cartesian grid whose axes are each evenly spaced or given by increasing nodes, in any mix, "
    "evaluating a linear spline (eval_linear, or eval_spline with k=1) at a point inside the grid returns the multilinear "
    "blend of the values at the corners of the cell that contains the point. In particular it returns the node value at every node, "
    "including the first and last ones, for scalar and for vector-valued data.",
    ["inputs", "configurations"],
    "all grids (1 to 5 dimensions, 2 or more nodes per axis, uniform and nonuniform axes), all finite node values, all points of the closed grid",
    "The tests evaluate random points on two grids with equal sizes on [0,1] and mostly only check that the call returns; they never compare with the interpolant itself.",
    [CG, ES],
    [("generated evaluation code: cell search, barycentric coordinates, tensor reduction", CG + " eval_template, eval_template_vectorized, get_values")],
    ["return value of eval_linear / eval_spline(k=1)"],
)
prop(
    "C02", "Filtered cubic splines are the natural cubic spline through the nodes",
    "Filtering node values on a uniform grid and evaluating the result with eval_cubic (or eval_spline with k=3) inside the grid gives the "
    "tensor product natural cubic spline (second derivative zero at both ends of each axis) through those values. "
    "In particular every node value is reproduced.",
    ["inputs", "configurations"],
    "all uniform grids of 1 to 4 dimensions with 2 or more nodes per axis (different numbers along different axes), any finite bounds and values, scalar and vector-valued data",
    "The tests evaluate random coefficients and check shapes only; no test compares a cubic value with anything.",
    [CG, ES, PF],
    [("banded solve for the coefficients", PF + " find_coefs_1d, solve_deriv_interp_1d"), ("cubic basis and tensor reduction", CG + " blending_formula(k=3)")],
    ["filter_cubic/prefilter followed by eval_cubic/eval_spline(k=3)"],
)
prop(
    "C03", "The three extrapolation modes do what they say outside the grid",
    "Outside the grid, 'constant' gives 0, 'nearest' gives the value at the closest point of the grid, and 'linear' continues the interpolant "
    "linearly along each coordinate with its value and slope at the boundary, however far the point is; the default is 'linear'. "
    "At points of the closed grid all modes give the same interpolated value. This holds for linear splines on uniform and nonuniform axes and for cubic splines.",
    ["inputs", "configurations"],
    "all grids of 1 to 3 dimensions, linear and cubic splines, all three modes plus the default, every evaluation form (one point or many, in place or not, scalar or vector values), all finite points including points exactly on the boundary, out along a single axis, and very far away",
    "One 1d test compares call forms with each other; no test checks the extrapolated values, and cubic or multidimensional or nonuniform extrapolation is not run at all.",
    [CG, ES, S + "option_types.py"],
    [("projection / early exit / extension of the basis per mode", CG + " eval_template*, blending_formula"), ("mode dispatch on types", ES + " __eval_linear, __eval_cubic"), ("mode constants", S + "option_types.py")],
    ["return value of eval_linear/eval_cubic/eval_spline with an extrapolation mode"],
)
prop(
    "C04", "Requested partial derivatives are the derivatives of the interpolant",
    "eval_spline with a list of partial derivatives returns, in the order of the list, the values of exactly those partial derivatives of the "
    "interpolant it evaluates, in units of the grid coordinates: at points inside the grid in any extrapolation mode, and of the linear "
    "continuation outside in 'linear' mode; outside in 'constant' mode they are zero.",
    ["inputs", "configurations"],
    "linear splines (orders 0, 1, 2 and mixed; uniform and nonuniform axes) and cubic splines (orders 0 and 1 and mixed), 1 to 3 dimensions, all lists of partial derivatives, scalar and vector values, one point or many; at kinks of a linear spline either one-sided derivative is accepted",
    "Tests check numbers for linear splines on nonuniform axes only; uniform axes, cubic splines and vector values are only run for shape.",
    [CG, ES],
    [("derivative basis functions", CG + " blending_formula(l=1)"), ("ordering and tensor reduction per requested derivative", CG + " eval_template*, get_values(diffs=)")],
    ["return value of eval_spline(diff=...)"],
)
prop(
    "C05", "Every way of calling an evaluation gives the same numbers and shapes",
    "For given grid, coefficients and points, evaluating one point at a time (as an array or as a tuple), many points at once, all outputs of vector-valued "
    "data together or one by one, and into a preallocated output or a returned one all give the same numbers, with the documented output shapes. "
    "A preallocated output is overwritten completely, whatever it contained before.",
    ["inputs", "configurations"],
    "eval_linear, eval_cubic and eval_spline; every combination of evaluation form, value type, in place or not, extrapolation mode and with or without derivatives, in 1 to 3 dimensions, including zero points, one point and one output",
    "Tests compare forms for 1d linear splines and for one 2d grid; each combination is separately generated code.",
    [CG, ES],
    [("one generated function per combination", CG + " get_code_spline"), ("output allocation", ES + " ol_allocate_output"), ("overload dispatch", ES + " eval_spline, eval_linear, eval_cubic")],
    ["return value / out argument of eval_linear, eval_cubic, eval_spline"],
)
prop(
    "C06", "Memory layout of the arguments does not matter, and inputs are left alone",
    "Evaluating and filtering give the same result whether array arguments are C-ordered, Fortran-ordered, strided views or read-only, and a strided preallocated "
    "output receives the same numbers as a contiguous one. No argument other than the preallocated output is modified, and nothing around a preallocated output is written.",
    ["inputs", "configurations"],
    "values, coefficients, points, nonuniform axes and outputs in every layout; eval_linear, eval_cubic, eval_spline, filter_cubic/prefilter, interp and mlinterp",
    "Two tests cover Fortran order for 2d linear and read-only points for cubic; other layouts compile different code and are never run.",
    [ES, CG, PF, "interpolation/multilinear/mlinterp.py"],
    [("recognition of point arrays of any layout", ES + " t_array_2d"), ("filter writes only into the coefficients", PF + " __filter_cubic")],
    ["results and the arguments after the call"],
)
prop(
    "C07", "Filtering gives the documented coefficients through every interface",
    "Cubic filtering returns an array with two more entries along each axis whose B-spline combination reproduces the given values with zero second derivative at the ends; "
    "vector-valued data are filtered output by output, in-place and allocating calls agree, and prefilter with k=1 returns the values themselves. "
    "filter_cubic, prefilter(k=3), filter_coeffs and filter_mcoeffs give the same coefficients, which are linear in the values and do not depend on the bounds of the grid.",
    ["inputs", "configurations"],
    "1 to 4 dimensions, all sizes from 2 nodes per axis, different sizes per axis, all finite values and bounds; values as n1 x ... x nd or flattened for the list interface",
    "Tests check the shape of the coefficients of a 2d square grid.",
    [PF, FC],
    [("two separate implementations of the same solver", PF + " find_coefs_1d; " + FC + " find_coefs_1d"), ("axis by axis solves", PF + " __filter_cubic; " + FC + " filter_coeffs_2d/3d/4d")],
    ["returned / in-place coefficients"],
)
prop(
    "C08", "Compatibility functions agree with the current evaluators",
    "The compatibility functions that take bounds and numbers of nodes (cubic: one spline or many, one point or many, returned or preallocated; multilinear: one function or many) "
    "return what the corresponding current evaluator returns for the same spline at the same points, inside and outside the grid. "
    "So do the compiled routines written out for fixed numbers of dimensions.",
    ["inputs", "configurations"],
    "eval_cubic_spline(s), vec_eval_cubic_spline(s), the dimension-specific cubic routines for 1 to 4 dimensions, multilinear_interpolation and vec_multilinear_interpolation; all bounds, sizes, coefficients and finite points",
    "Tests check number of dimensions of the result on a 2d square grid and never run the dimension-specific routines for 1, 3 or 4 dimensions.",
    [EC, EN, S + "multilinear_numba.py"],
    [("wrappers building a grid from bounds", EC + " get_grid"), ("unrolled routines", EN)],
    ["returned values / preallocated outputs"],
)
prop(
    "C09", "Gradients of cubic multi-splines are gradients of the values returned with them",
    "Evaluating cubic multi-splines with gradients returns the spline values and, for each point, axis and spline, the partial derivative of that spline along that axis, "
    "inside the grid and in the linear extrapolation region, arranged as points x axes x splines.",
    ["inputs", "configurations"],
    "vec_eval_cubic_splines_G and CubicSplines.interpolate(diff=True) for 1 to 4 dimensions, any number of splines and points, any bounds and sizes, preallocated outputs or not",
    "The only test checks output shapes for a 2d grid with two equal splines.",
    [EN, EC, S + "splines.py"],
    [("unrolled gradient routines", EN + " vec_eval_cubic_splines_G_1..4"), ("dispatch on number of dimensions", EC + " vec_eval_cubic_splines_G")],
    ["returned values and gradients"],
)
prop(
    "C10", "Spline objects always interpolate the values they were last given",
    "LinearSpline, LinearSplines, CubicSpline and CubicSplines evaluate to the interpolant of the values most recently set, "
    "whatever was set, evaluated or rejected before, with values given on the grid shape or flattened in the order in which the object's grid attribute lists the nodes. "
    "Cubic objects reject non-finite values and non-finite points and then still represent the values they had; one point gives the same number(s) as a list of that point.",
    ["histories", "inputs"],
    "sequences of construction (with or without values), set_values, evaluation at one or many points, reading the grid, rejected calls, and changing the caller's arrays after handing them to cubic objects; 1 to 4 dimensions",
    "Tests build each object once on a 2d square grid with two equal functions and check shapes only; no test sets values twice or reads the grid.",
    [S + "splines.py", S + "multilinear.py", "interpolation/cartesian.py"],
    [("set_values / interpolate / grid", S + "splines.py"), ("set_values / interpolate / grid", S + "multilinear.py")],
    ["evaluation results, grid attribute, exceptions"],
    state=[dict(name="coefficients", meaning="filtered values of the last accepted set_values", where=S + "splines.py __coeffs__/__mcoeffs__")],
)
prop(
    "C11", "interp is multilinear with constant continuation, in every call form",
    "interp returns the multilinear interpolant at points inside the grid and the value at the closest grid point outside; in one dimension this is numpy.interp. "
    "Scalar arguments, a tuple, a point array, a list of points and (in 1 and 2 dimensions) arrays of coordinates combined as a cartesian product all give the same numbers, and result entry (i,j) of a product belongs to the i-th first and j-th second coordinate.",
    ["inputs", "configurations"],
    "1 to 4 dimensions, nonuniform and uniform axes, all finite values and points (inside, on nodes, outside along some axes, far away), every call form",
    "Tests only check that something is returned.",
    ["interpolation/multilinear/mlinterp.py", "interpolation/multilinear/fungen.py"],
    [("recognition of the call form", "interpolation/multilinear/mlinterp.py detect_types, make_mlinterp"), ("projection on the grid", "interpolation/multilinear/fungen.py project")],
    ["return value of interp"],
)
prop(
    "C12", "mlinterp is multilinear interpolation with linear continuation",
    "mlinterp returns the multilinear interpolant at points inside the grid and continues it linearly along each coordinate outside, however far, "
    "for any mix of uniform and nonuniform axes. A tuple of coordinates and a list of points give the same numbers, which are those of eval_linear.",
    ["inputs", "configurations"],
    "1 to 5 dimensions, every mix of uniform and nonuniform axes, all finite values and points",
    "Tests check that results exist; one test uses its result for nothing.",
    ["interpolation/multilinear/mlinterp.py", "interpolation/multilinear/fungen.py"],
    [("cell search", "interpolation/multilinear/fungen.py get_index"), ("coefficient extraction and reduction", "interpolation/multilinear/fungen.py get_coeffs, tensor_reduction")],
    ["return value of mlinterp"],
)
prop(
    "C13", "Functions give the same results inside jitted code as outside",
    "Called from inside user functions compiled with numba (including loops over points and compile-time constant grids or options), the evaluation, filtering, interp, mlinterp and Hermite functions "
    "return the same results as when they are called from Python, or as their Python-callable equivalents.",
    ["programs", "inputs", "configurations"],
    "jitted callers of eval_linear, eval_cubic, eval_spline, filter_cubic, prefilter, interp, mlinterp and hermite in 1 to 3 dimensions, with grids passed as arguments or frozen as globals, point by point or vectorized",
    "One test wraps eval_linear in guvectorize and does not look at the result.",
    [ES, PF, "interpolation/multilinear/mlinterp.py", S + "hermite.py"],
    [("overloads resolved by the compiler", ES + "; " + PF + "; interpolation/multilinear/mlinterp.py; " + S + "hermite.py")],
    ["results of jitted callers"],
)
prop(
    "C14", "Results depend only on the arguments, not on earlier calls",
    "Any sequence of calls of different functions, numbers of dimensions, call forms and options returns for each call what the same call returns on its own; "
    "repeating a call with the same arguments returns bit-identical results, and no result array is shared with or changed by a later call.",
    ["histories", "configurations"],
    "sequences of calls mixing interp, mlinterp, eval_linear, eval_cubic, eval_spline, filters, Hermite, complete polynomials, Smolyak grids and spline objects",
    "Each test calls a function in one fixed order and looks at each result at most once.",
    [CG, ES, "interpolation/multilinear/mlinterp.py", S + "eval_cubic.py"],
    [("generated functions kept in shared namespaces", CG + " source_to_function; interpolation/multilinear/mlinterp.py ol_interp")],
    ["results over a history of calls"],
)
prop(
    "C15", "Grids are validated and their nodes enumerated completely and in order",
    "UCGrid and CGrid return the axes they are given unchanged when every axis is valid and raise otherwise (lower bound not below upper bound, fewer than two nodes, wrong type or number of dimensions). "
    "nodes, cartesian and mlinspace list every combination of axis nodes exactly once, the last axis varying fastest in C order and the first in Fortran order.",
    ["inputs", "configurations"],
    "1 to 5 axes of any sizes, valid and invalid axis descriptions, both orders",
    "Tests use mlinspace on square grids to build data and never look at the enumeration; no test builds an invalid grid.",
    [S + "__init__.py", "interpolation/cartesian.py"],
    [("checks on axes", S + "__init__.py UCGrid, CGrid"), ("enumeration", "interpolation/cartesian.py cartesian, _repeat_1d")],
    ["return values and exceptions"],
)
prop(
    "C16", "Complete polynomial bases list every monomial once, with exact derivatives",
    "complete_polynomial(z, d) contains, at each observation, every monomial of total degree at most d in the variables exactly once, starting with the constant and the variables, "
    "as many as n_complete says, and complete_polynomial_der(z, d, i) contains in the same positions the derivatives of those monomials with respect to variable i. "
    "One observation as a vector and many as a matrix give the same numbers; degrees above 5 or below 0 and variable numbers that do not exist are rejected.",
    ["inputs", "configurations"],
    "1 to 6 variables, degrees 0 to 5, every variable, any number of observations, finite values including zero and negative, float and integer input",
    "Tests check one derivative vector of degree 2 and compare vector and matrix forms at one point for degrees 2 and 4.",
    ["interpolation/complete_poly.py"],
    [("nested loops written out per degree, for vectors and matrices, values and derivatives", "interpolation/complete_poly.py _complete_poly_impl*, _complete_poly_der_impl*")],
    ["returned matrices"],
)
prop(
    "C17", "Complete polynomial fits are least squares fits and keep damping history",
    "After fit_values, a CompletePolynomial evaluates to the least squares polynomial of its degree for the data, so polynomials of that degree are recovered everywhere, for scalar and vector-valued data, and der returns its exact partial derivatives. "
    "With damping, the coefficients after each fit are (1-damp) times the new fit plus damp times the previous ones.",
    ["histories", "inputs"],
    "sequences of fits with and without damping, evaluations and derivatives, 1 to 4 variables, degrees 1 to 5, data with enough observations to determine the fit",
    "Tests fit one polynomial exactly at the data points; damping is run but its effect never checked, and the object's derivative is never called.",
    ["interpolation/complete_poly.py"],
    [("fit / evaluate / derive", "interpolation/complete_poly.py CompletePolynomial")],
    ["values and derivatives returned by the object, its coefficients"],
    state=[dict(name="coefs", meaning="current coefficients", where="interpolation/complete_poly.py CompletePolynomial.coefs")],
)
prop(
    "C18", "Smolyak grids are exactly the sparse grid of their dimension and level",
    "A SmolyakGrid contains each point of the Smolyak construction (products of nested Chebyshev extrema sets whose level indices sum to at most dimension plus level, "
    "capped per axis for anisotropic grids) exactly once, mapped affinely onto the bounds, with as many basis polynomials as points and a basis matrix holding those polynomials' values at the points. "
    "cube2dom and dom2cube are inverse affine maps between [-1,1]^d and the bounds; invalid dimensions, levels and bounds of wrong length are rejected.",
    ["inputs", "configurations"],
    "2 to 6 dimensions, isotropic levels 1 to 4 and anisotropic levels, any finite bounds given as scalars, lists or arrays",
    "Tests build three isotropic grids and look at the number of points only indirectly; anisotropic grids are never built.",
    ["interpolation/smolyak/grid.py", "interpolation/smolyak/util.py"],
    [("index enumeration", "interpolation/smolyak/grid.py smol_inds; interpolation/smolyak/util.py permute"), ("points", "interpolation/smolyak/grid.py a_chain, build_grid"), ("basis", "interpolation/smolyak/grid.py poly_inds, build_B")],
    ["attributes and methods of SmolyakGrid"],
)
prop(
    "C19", "Smolyak interpolation reproduces the grid data and its polynomial space",
    "SmolyakInterp returns the given values at the grid points and recovers every polynomial of the grid's Smolyak space everywhere, using the values given most recently by construction or update_theta. "
    "The results requested from interpolate come in the documented order, alone when only one is requested, and the derivatives with respect to coefficients and grid values are the true ones.",
    ["inputs", "histories", "configurations"],
    "2 to 5 dimensions, isotropic and anisotropic levels, any bounds, any finite data, points inside and outside the bounds, every combination of requested results",
    "Tests print errors without asserting them for values, and check derivatives for one isotropic grid and a linear function.",
    ["interpolation/smolyak/interp.py", "interpolation/smolyak/grid.py"],
    [("coefficients by LU", "interpolation/smolyak/interp.py find_theta; interpolation/smolyak/grid.py SmolyakGrid"), ("evaluation", "interpolation/smolyak/interp.py SmolyakInterp.interpolate")],
    ["return values of interpolate"],
    state=[dict(name="theta", meaning="current coefficients", where="interpolation/smolyak/interp.py SmolyakInterp.theta")],
)
prop(
    "C20", "Smolyak gradients are the gradients of the interpolant",
    "The gradient returned by SmolyakInterp.interpolate is, at every point and in every direction, the exact partial derivative of the interpolating polynomial in the coordinates of the user's domain, and asking for it does not change the values.",
    ["inputs", "configurations"],
    "2 to 5 dimensions, isotropic and anisotropic levels, bounds of different widths along different axes, any finite data, points inside and outside the bounds",
    "The test checks the gradient of a function that is the sum of the coordinates, for which it is identically one.",
    ["interpolation/smolyak/interp.py", "interpolation/smolyak/grid.py"],
    [("derivative of the basis via second-kind Chebyshev polynomials", "interpolation/smolyak/grid.py build_B(deriv=True)"), ("change of variables", "interpolation/smolyak/interp.py interpolate")],
    ["gradient returned by interpolate(deriv=True)"],
)
prop(
    "C21", "Smolyak building blocks satisfy their definitions",
    "cheby2n returns the Chebyshev polynomials of the first (or second) kind of degrees 0 to n at every point of any shape; s_n, a_chain and phi_chain give the nested extrema sets, their disjoint increments and the matching polynomial numbers; "
    "m_i and num_grid_points give the sizes of the sets and grids; permute yields every distinct ordering of a list once; build_B gives the basis values (and derivatives) at arbitrary points.",
    ["inputs", "configurations"],
    "degrees up to 40, set numbers up to 9, points inside and outside [-1,1] of 0 to 3 array dimensions, lists with repeated entries",
    "None of these functions is tested on its own.",
    ["interpolation/smolyak/grid.py", "interpolation/smolyak/util.py"],
    [("recurrences and index arithmetic", "interpolation/smolyak/grid.py; interpolation/smolyak/util.py")],
    ["return values"],
)
prop(
    "C22", "Hermite interpolation matches values and slopes and is constant outside",
    "Cubic Hermite interpolation on increasing nodes returns between two nodes the cubic with the given values and slopes at both, so it recovers cubics from their values and slopes and equals the node values at nodes; "
    "outside it returns the first or last value. Scalar and vector evaluation give the same numbers.",
    ["inputs"],
    "all increasing node arrays with 2 or more nodes (evenly spaced or not), any finite values and slopes, any finite evaluation points",
    "The test runs one call on random data and does not look at the result.",
    [S + "hermite.py"],
    [("cell search, basis polynomials", S + "hermite.py HermiteInterpolation, hermite_interp, hermite_splines")],
    ["return values of HermiteInterpolation, HermiteInterpolationVect, hermite_interp, hermite_splines"],
)
prop(
    "C23", "No evaluation reads or writes outside its arrays, whatever the point",
    "Evaluating at any points, including points arbitrarily far outside the grid, infinities and NaN, on grids down to two nodes per axis, never accesses memory outside the arguments: "
    "results are computed from the given coefficients only and only the output is written. Points that are NaN or infinite do not disturb the results at the other points.",
    ["inputs", "configurations"],
    "linear (uniform and nonuniform) and cubic splines in every extrapolation mode, one point and many, with and without derivatives, filtering, gradients, interp, mlinterp, Hermite; every float64 point, smallest grids",
    "Compiled code does not check bounds; an access just outside an array normally goes unnoticed, and no test uses extreme points or two-node grids.",
    [CG, ES, EN, "interpolation/multilinear/fungen.py", S + "hermite.py", PF],
    [("clamping of the cell index", CG + " eval_template*; " + EN + "; interpolation/multilinear/fungen.py get_index")],
    ["IndexError with bounds checking switched on, poisoned memory around the arrays"],
)
prop(
    "C24", "Interpolation commutes with rescaling, relabelling and linear combinations",
    "Interpolating a linear combination of data gives the linear combination of the interpolants; shifting and rescaling an axis together with the points, reversing the direction of an axis, or reordering the axes together with the data and points does not change results; "
    "and data that are constant along an axis give results that do not depend on that coordinate in 'nearest' and 'linear' modes.",
    ["inputs", "configurations"],
    "eval_linear on any mix of axes, filter_cubic with eval_cubic, interp and mlinterp; 1 to 4 dimensions; points inside and outside in the linear and nearest modes",
    "A relation between several calls; tests make single calls on symmetric grids where such errors cancel.",
    [CG, PF, "interpolation/multilinear/fungen.py"],
    [("axes are handled independently and alike", CG + "; " + PF + "; interpolation/multilinear/fungen.py")],
    ["results of related calls"],
)
prop(
    "C25", "B-spline basis functions follow the recursive definition",
    "The B-spline basis function of any degree on increasing knots is zero outside its support, nonnegative inside, equals the piecewise polynomial of the Cox-de Boor definition, and all basis functions covering a point sum to one.",
    ["inputs"],
    "degrees 0 to 5, all strictly increasing knot vectors, all indices and points",
    "Not tested at all.",
    [S + "basis_splines.py"],
    [("recursion", S + "basis_splines.py B, B0")],
    ["return value of B"],
)

prop(
    "C26", "Integer and single-precision arguments mean the numbers they hold",
    "Whenever a call accepts data, grid bounds, nodes or points that are integers (of any width), single precision numbers, lists or plain Python numbers, it returns the same floating point results as with the same numbers in double precision: "
    "nothing is truncated to whole numbers, wraps around, or comes back as an integer array.",
    ["inputs", "configurations"],
    "eval_linear, eval_cubic, eval_spline with derivatives, prefilter / filter_cubic / filter_coeffs, interp, mlinterp, spline objects, Hermite interpolation; every type of every argument that is accepted, one point and many, 1 to 3 dimensions",
    "The result type of generated code is inferred from the argument types, so every combination of types is a separate compiled function; tests use double precision throughout.",
    [CG, ES, EN, PF, S + "filter_cubic.py", S + "splines.py", "interpolation/multilinear/mlinterp.py", S + "hermite.py"],
    [("allocation of outputs and type inference", ES + "; " + EN + "; " + PF + "; interpolation/multilinear/mlinterp.py; " + S + "hermite.py")],
    ["return value and dtype of each call with converted arguments"],
)

prop(
    "C27", "Templates render what the template language says",
    "For every template and namespace, the bundled template language (interpolation.tempita, which generates all spline kernels) produces exactly the text that its constructs define: literal text unchanged, expressions with filters, "
    "for loops with unpacking, looper, break and continue, if/elif/else, Python code, defaults, functions with every kind of argument, comments, inheritance, other delimiters, HTML quoting. "
    "Directives on a line by themselves leave no line behind. Invalid templates raise TemplateError naming the place, failing expressions tell the line and column, and substituting twice gives the same text.",
    ["inputs", "configurations"],
    "all nestings of the constructs in a template; all placements of directives (inline, on their own lines, indented, at the start or end); all ways of giving the namespace; every kind of syntax error at every place",
    "No test covers it directly; the kernels only use a handful of constructs on fixed templates.",
    ["interpolation/tempita/__init__.py", "interpolation/tempita/_looper.py", "interpolation/tempita/compat3.py"],
    [("lexing, trimming, parsing, interpreting", "interpolation/tempita/__init__.py lex, trim_lex, find_position, parse_*, Template._interpret_*, TemplateDef"), ("loop helper", "interpolation/tempita/_looper.py")],
    ["text returned by sub / Template.substitute", "TemplateError and its position"],
)

prop(
    "C28", "What is not supported is rejected instead of being answered",
    "Calls that ask for something unsupported raise an exception and never return numbers: spline orders other than 1 and 3, unknown extrapolation modes or options, derivatives of negative order, of order above 1 for cubic splines, "
    "or for another number of dimensions, cubic evaluation on axes given by nodes, data with too few or too many dimensions for the grid, tuples with too few coordinates, "
    "spline objects and Smolyak interpolants given the wrong number of values or points of another dimension. This holds from Python and in jitted code; supported calls return the same numbers after a rejected call.",
    ["inputs", "configurations", "histories"],
    "every unsupported spline order, mode, option and derivative in every call form; every function with data of every wrong number of dimensions; every object with wrong sizes; each between supported calls, from Python and in jitted functions",
    "Which implementation is chosen depends on the types of all arguments, so each wrong argument may slip into an implementation meant for others; no test makes an unsupported call to an evaluator.",
    [ES, CG, PF, S + "option_types.py", S + "splines.py", S + "multilinear.py", S + "filter_cubic.py", "interpolation/multilinear/mlinterp.py", "interpolation/smolyak/interp.py"],
    [("choice of the implementation and code generation", ES + "; " + CG + " get_code_spline, basis formulas; " + PF), ("sizes", S + "splines.py; " + S + "multilinear.py; interpolation/smolyak/interp.py")],
    ["exception or value of each call", "values of supported calls afterwards"],
)

prop(
    "C29", "Threads, copies and pickles give the same results as the original",
    "Calls made from several threads at the same time return what each of them returns on its own, whatever the schedule: filtering, evaluation, compatibility functions, polynomial bases and fits, Smolyak grids and interpolants, "
    "node enumeration and templates share no working memory between calls, also when the threads use the same spline, fit, interpolant or template object. "
    "A copy, deep copy or restored pickle of a spline, complete polynomial, Smolyak grid or interpolant returns what the original returns, with or without values set, "
    "and giving new data to the copy (or, for deep copies and pickles, to the original) does not change the other one.",
    ["schedules", "histories", "inputs"],
    "all interleavings of the lines of the package run by two or more threads, for all pairs of calls; all classes, ways of copying and later updates of original and copy",
    "No test uses threads or copies; working memory kept between calls gives right results as long as calls do not overlap.",
    [S + "filter_cubic.py", S + "splines.py", S + "multilinear.py", S + "eval_cubic.py", "interpolation/complete_poly.py", "interpolation/smolyak/grid.py", "interpolation/smolyak/interp.py",
     "interpolation/cartesian.py", "interpolation/tempita/__init__.py", CG],
    [("filtering and evaluation from objects", S + "filter_cubic.py filter_coeffs, filter_mcoeffs; " + S + "splines.py; " + S + "multilinear.py; " + S + "eval_cubic.py"),
     ("bases and fits", "interpolation/complete_poly.py; interpolation/smolyak/grid.py build_B, SmolyakGrid; interpolation/smolyak/interp.py"), ("templates", "interpolation/tempita/__init__.py Template; " + CG + " get_code_spline")],
    ["results of each call in each thread", "results of original and copy after updates"],
)

prop(
    "C30", "Building blocks for jitted code compute what they say",
    "The functions interp and mlinterp are built from, and which jitted user code can call, follow their definitions: fmap applies a function to each element of a tuple (with the elements of a second tuple of that length, "
    "or with one common argument) and returns the tuple of results, rejecting tuples of different lengths; funzip transposes a tuple of tuples; get_size is the number of nodes of an axis; get_index gives a cell and the position in it that together "
    "are the point, the cell containing the point inside the axis and the first or last one outside; get_coeffs returns the values at the corners of a cell as nested tuples; tensor_reduction contracts them with "
    "the weights (1-l, l) along each axis; extract_row returns the leading entries of a row; project returns the closest point of the grid; clamp the closest number of an interval.",
    ["programs", "inputs", "configurations"],
    "tuples of 1 to 8 elements of any mix of integers, floats, booleans, arrays and tuples; 1 to 5 axes in every mix of uniform and nonuniform; all finite values and points",
    "One test calls get_index at three points of grids with two nodes; nothing else is called directly.",
    ["interpolation/multilinear/fungen.py"],
    [("generated code per number of elements and type", "interpolation/multilinear/fungen.py _map, ol_funzip, ol_get_index, ol_get_size, ol_get_coeffs, gen_tensor_reduction, ol_extract_row, ol_project, clamp")],
    ["results of jitted functions that call them"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
