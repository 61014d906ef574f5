#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
PK = "starwinds_magnetogram/"
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[PK + f for f in files],
                               state=[dict(name=a, meaning=b, where=PK + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=PK + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "A coefficient set answers from its store history",
 "After any sequence of stores, a coefficient set returns for every degree and order the value most recently stored there, and its default value where nothing was stored; its size, its highest degree and its lowest order (each 0 for an empty set, the lowest order never above 0) are those of the stored pairs. A store that is refused (appending to a pair already present, an order larger in magnitude than the degree, a value with the wrong number of components) leaves the set exactly as it was.",
 ["histories", "inputs"], "every sequence of store, append, lookup and query operations, any degrees, orders, widths, default values",
 "The tests build a handful of fixed sets; they never interleave refused stores with lookups, nor vary default, width and order of stores.",
 ["coefficients.py"], [("Coefficients.set / append / get / has / size / degree_max / order_min", "coefficients.py")],
 [("coefficients", "stored value per (degree, order)", "coefficients.py"), ("_degree_max,_order_min", "extents", "coefficients.py")],
 ["public methods of a coefficient set"])

prop("C02", "Coefficient sets are independent values",
 "No operation that derives something from coefficient sets (copying, scaling, arithmetic, truncation, splitting, stacking, comparing, ZDI/PFSS conversion, rotation, folding onto positive orders) changes its operands, and a later change to one set is never visible in any other. Changing in place an array that was handed to a set, or an array obtained from a set as its default value, as an enumeration result or as the answer for a coefficient never stored, changes no set.",
 ["histories"], "every sequence of operations over a pool of coefficient sets and the arrays passed in and out",
 "Aliasing only shows in histories that derive, then mutate, then look again; tests check single results right after one call.",
 ["coefficients.py", "converter.py", "rotate.py"],
 [("copies made by store, copy, hsplit, hstack, default value", "coefficients.py"), ("conversions build new sets", "converter.py"), ("rotation accumulates into a fresh array", "rotate.py")],
 [("coefficients", "stored arrays", "coefficients.py"), ("_default_coefficients", "mutable default", "coefficients.py")],
 ["all live coefficient sets after every operation"])

prop("C03", "Coefficient algebra is elementwise with missing as zero",
 "For sets whose default is zero, sum, difference, product (with a number, from either side, or another set), power, quotient by a number, scaling by a function of degree and order, truncation and closeness comparison equal the same operation applied entry by entry, a missing entry counting as zero; sums, differences and set products hold exactly the pairs present in either operand, the others exactly the pairs of their operand (up to the given degree for truncation). Splitting a set into its components (singly or at given positions) and stacking components keep every entry in its component, so that stacking the split parts gives back the original set.",
 ["inputs", "histories"], "all pairs of coefficient sets (any support, width, complex values) and all algebraic operations, composed in any order",
 "Tests check a few operations on two fixed sets; the identities must hold for all supports (disjoint, nested, empty) and widths.",
 ["coefficients.py"], [("add, multiply, scale, truncated, hstack, hsplit, isclose, allclose, operator methods", "coefficients.py")],
 [], ["results of arithmetic on coefficient sets"])

prop("C04", "Enumerating a coefficient set is complete, ordered, exact",
 "Enumerating a set as arrays lists each pair in the requested degree and order ranges (by default: all orders of all degrees up to the highest stored) exactly once, by increasing degree and then order, with its stored value or the default, and when only stored pairs are asked for, lists exactly the stored ones in range; iterating over the contents lists exactly the stored pairs in the same order. Building a set from such arrays gives back the same entries, and refuses repeated pairs.",
 ["inputs"], "all coefficient sets and all non-empty degree/order range filters",
 "Tests use one full and one tiny set with default filters only.",
 ["coefficients.py"], [("as_arrays, contents, from_arrays", "coefficients.py")], [], ["returned degree, order and value arrays"])

prop("C05", "Reading a magnetogram file takes exactly its data rows",
 "Reading accepts as data exactly the lines whose first four whitespace-separated fields are an integer, an integer, a number and a number (any further fields ignored), in any order and mixed with any other lines, and returns their values unchanged; a row that repeats a pair already seen in the current group starts the next group, and the groups become the successive components of the result, missing entries being zero. A data row whose order exceeds its degree in magnitude makes the read fail.",
 ["inputs"], "all text files of data rows, headers, blank lines and junk in any arrangement; any number of groups of any shape",
 "Tests read a few well-formed files with one header style and equal-sized groups.",
 ["reader_writer.py", "coefficients.py"], [("read_magnetogram_file line acceptance and grouping", "reader_writer.py"), ("hstack of groups", "coefficients.py")], [],
 ["coefficient set returned by the reader"])

prop("C06", "A written magnetogram file reads back as what was written",
 "Writing a coefficient set and reading the file returns, component by component, every entry with degree up to the requested maximum (default: its highest degree) and order at or above the requested minimum (default 0) to seven significant digits, and zero for every pair in that range that the set does not hold, and no other pairs; no header line is taken for data (for file names without blanks). With the SWMF header the five header lines come first and state the true number of rows per component and the true maximum degree.",
 ["inputs", "configurations"], "all coefficient sets with 1 or more components, all degree/order limits, header on or off",
 "Tests round-trip two sample files without limits and only check that some header text appears.",
 ["reader_writer.py"], [("write_magnetogram_file, create_swmf_header", "reader_writer.py"), ("as_arrays enumeration", "coefficients.py")], [],
 ["bytes of the written file", "set read back"])

prop("C07", "The converter command writes the converted coefficients",
 "The converter command's output holds, for every degree up to the input's highest (or the requested maximum, padding with zeros) and every non-negative order, the input's radial coefficient times the ZDI-to-PFSS factor; with the reverse option three groups that are the ZDI form of the input; and with conversion disabled the input coefficient itself. The SWMF header is present unless suppressed (never in the reverse direction) and inputs with several groups are refused where a PFSS file is expected.",
 ["inputs", "configurations"], "all input files and all combinations of options",
 "The console-script tests run a few option combinations and do not compare all written numbers.",
 ["bin/convert_magnetogram.py", "converter.py", "reader_writer.py"], [("main, no_conversion, convert_zdi_to_pfss, convert_pfss_to_zdi", "bin/convert_magnetogram.py"), ("conversion factors", "converter.py")], [],
 ["output file of the command"])

prop("C08", "The converter command never destroys files",
 "No run of the converter command changes its input file, whatever name, relative or absolute path or link the output is given as; a run without an explicit output name never changes any existing file, and creates only the input's name with a suffix in the current directory. A run that fails leaves every file as it was, and a successful run changes nothing but its output file.",
 ["histories", "configurations"], "all sequences of command runs over a directory with files, links and sub-directories, all options, valid and invalid inputs",
 "The tests run the command once per temporary directory; aliased paths, repeated runs and failing runs are not covered.",
 ["bin/convert_magnetogram.py", "reader_writer.py"], [("output name selection and checks", "bin/convert_magnetogram.py"), ("lines are formatted before the file is opened", "reader_writer.py")],
 [("file system", "path to content", "bin/convert_magnetogram.py")], ["directory tree before and after every run"])

prop("C09", "ZDI and PFSS radial coefficients describe one surface field",
 "Converting radial ZDI coefficients to the PFSS form multiplies each entry of non-negative order m and degree l by (-1)^m sqrt((2l+1)/(4 pi (2 - [m=0]))), and the radial field at the stellar surface computed from either form is the same at every point off the rotation axis with the azimuth reversed. Converting back to the ZDI form returns the original radial coefficients.",
 ["inputs"], "all radial coefficient sets of non-negative order, degrees 0 to 30, all surface points",
 "Tests compare fields for a few coefficient files on one grid; the factor must be right for every degree and order.",
 ["converter.py", "zdi_magnetogram.py", "pfss_magnetogram.py"], [("forward_conversion_factor, convert_zdi_to_pfss, convert_pfss_to_zdi", "converter.py")], [],
 ["coefficients", "radial field values"])

prop("C10", "PFSS to ZDI conversion reproduces the surface vector field",
 "The three-component ZDI set made from a PFSS set has zero toroidal coefficients and, at every surface point off the rotation axis with the azimuth reversed, the same radial and polar field as the PFSS potential field with the default stellar and source surface radii, and the opposite azimuthal field.",
 ["inputs"], "all PFSS coefficient sets of non-negative order up to degree 30 and all surface points off the axis",
 "Existing tests accept a known discrepancy in the low degrees and compare only averages over a grid.",
 ["converter.py", "pfss_magnetogram.py", "zdi_magnetogram.py"], [("beta factor from the radial function at the surface", "converter.py"), ("r_l and default radii", "pfss_magnetogram.py")], [],
 ["coefficients", "vector field values"])

prop("C11", "The ZDI field is the harmonic expansion of its coefficients",
 "With N = sqrt((2l+1)(l-m)!/(4 pi (l+m)!)) P_lm(cos theta) (Condon-Shortley phase included), the radial, polar and azimuthal fields are the real parts of the sums of alpha N e^{im phi}, of (-beta dN/dtheta + gamma i m N/sin theta) e^{im phi}/(l+1) and of (-beta i m N/sin theta - gamma dN/dtheta) e^{im phi}/(l+1), at every point off the rotation axis, whatever the order, number or shape of coefficients and points. Missing beta or gamma coefficients count as zero. For negative orders the radial field is that sum likewise.",
 ["inputs"], "all coefficient lists with 0 <= m <= l <= 30 (non-negative orders; of either sign for the radial field) and all arrays of points off the axis",
 "Tests look at single low-degree coefficients or compare the code with itself on coarse grids.",
 ["zdi_magnetogram.py", "associated_legendre.py"], [("get_radial/polar/azimuthal_field and parts", "zdi_magnetogram.py"), ("calculate_lpmn", "associated_legendre.py"), ("get_c_lm", "zdi_magnetogram.py")], [],
 ["field component arrays"])

prop("C12", "ZDI fields decompose exactly into their parts",
 "At every point off the axis each field component is the sum of its poloidal and toroidal part; the poloidal (toroidal) version of a magnetogram has exactly the poloidal (toroidal) part as its field, and restricting to a range of degrees and orders, or to the dipole, gives the field of just those coefficients. The field strength is the Euclidean norm of the three components, and the Cartesian full, poloidal and toroidal fields are the corresponding components expressed along x, y, z; none of these operations changes the magnetogram it starts from.",
 ["inputs", "histories"], "all ZDI magnetograms, restriction ranges and points; all chains of restriction, poloidal/toroidal and copy operations",
 "Tests check only the number of coefficients kept or one combination; the Cartesian parts are not exercised at all.",
 ["zdi_magnetogram.py", "coordinate_transforms.py"], [("as_poloidal, as_toroidal, as_restricted, as_dipole, copy, get_all", "zdi_magnetogram.py"), ("get_cartesian_*_field, get_field_strength", "zdi_magnetogram.py")], [],
 ["field arrays", "coefficients of derived magnetograms"])

prop("C13", "ZDI energies add up and match the coefficients",
 "The energy of a coefficient of order m other than 0 is half its squared magnitude and of order 0 the square of its real part, times l/(l+1) for the beta and gamma coefficients; total, radial, poloidal, toroidal, per-degree and axisymmetric values reported are the sums of these over the coefficients concerned, as the documented fractions (of the total; of the poloidal or toroidal energy; of the dipole for the axisymmetric dipole). The energy matrices hold at [l, highest degree + m] the radial, poloidal (radial included) and toroidal energy of coefficient (l, m), zero where there is none.",
 ["inputs"], "all non-zero ZDI magnetograms of non-negative order, including those lacking degrees, orders or components",
 "Tests pin numbers for three files; sets without an axial dipole, sparse or reordered sets are not tried.",
 ["zdi_magnetogram.py"], [("energy, energy_matrix, _energy_helper", "zdi_magnetogram.py")], [], ["energy dictionary", "returned arrays"])

prop("C14", "The PFSS field is the potential field with a source surface",
 "Between the stellar surface and the source surface the PFSS field is minus the gradient of the potential sum_lm R_l(r) Theta_lm(theta) (g cos m phi + h sin m phi) with Schmidt-normalised Theta and R_l vanishing at the source surface and giving the coefficients as radial field at the stellar surface. Inside the star it is zero, on the source surface it is purely radial, and beyond it falls off as the inverse square of the distance from its source-surface value; this holds for all radii, points off the rotation axis and coefficients of non-negative order.",
 ["inputs"], "all coefficient sets (degree up to 30), star and source surface radii with star < source surface, all points off the axis in any array shape",
 "Tests evaluate a dipole and one file at default radii; the region boundaries and custom radii are hardly touched.",
 ["pfss_magnetogram.py", "associated_legendre.py"], [("evaluate_spherical, r_l, phi_lm, theta_lm", "pfss_magnetogram.py")], [], ["field arrays"])

prop("C15", "Cartesian and spherical descriptions agree",
 "Converting points from Cartesian to spherical coordinates and back returns the point (polar angle in [0, pi], azimuth in [-pi, pi], radius the norm); the origin has polar angle 0 and no field. The two vector transformation matrices are rotations, inverse to each other, and map the unit radial, polar and azimuthal vectors to the directions in which the point moves when the respective coordinate grows; the Cartesian PFSS field is the spherical PFSS field at that point expressed along x, y, z.",
 ["inputs"], "all points (fields: off the axis) and angles, all array shapes, all coefficient sets and radii",
 "Tests check a few hand-picked directions.",
 ["coordinate_transforms.py", "pfss_magnetogram.py"], [("coordinate and vector transformations", "coordinate_transforms.py"), ("evaluate_cartesian", "pfss_magnetogram.py")], [], ["arrays returned"])

prop("C16", "Rotating and folding coefficients moves the field rigidly",
 "Rotating a coefficient set by a rotation (a unit quaternion, or z-y-z Euler angles in degrees) gives a set whose complex harmonic sum at a point rotated by the inverse rotation equals the original set's at the original point, for every degree separately and every component; the squared norm of each degree is preserved. Folding onto positive orders leaves the real part of the harmonic sum unchanged at every point and produces only orders 0 to l for every degree up to the highest.",
 ["inputs", "histories"], "all coefficient sets, rotations and compositions of rotations, all points",
 "Tests rotate a few low-degree sets by special angles and compare a handful of points.",
 ["rotate.py", "converter.py"], [("rotate_magnetogram, rotate_magnetogram_euler_zyz_deg", "rotate.py"), ("map_to_positive_orders", "converter.py")], [], ["coefficients after rotation and folding"])

prop("C17", "The surface grid tiles the sphere consistently",
 "For every grid of increasing polar and azimuthal corner angles, facet centres are the mean of the corners, facet areas are the exact areas of the spherical patches (so they sum to the area of the covered region, 4 pi for a full grid), and the Cartesian corners, centres and unit normals are the unit-sphere positions of these angles. The projected visible fraction of a facet seen from a direction of any length is the cosine of the angle between its normal and the direction where that is positive and zero otherwise.",
 ["inputs", "configurations"], "all grids (default, by numbers of corners, by explicit and uneven corner angles) and view directions",
 "Tests check total area and one direction on uniform grids.",
 ["geometry.py", "coordinate_transforms.py"], [("ZdiGeometry", "geometry.py")], [], ["arrays returned by the grid"])

prop("C18", "The longitudinal field is the visible-area-weighted mean",
 "For every observer polar angle and every list of observer azimuths the longitudinal field is the mean over the visible hemisphere of the line-of-sight component of the Cartesian field at the facet centres, each facet weighted with its area times its projected visible fraction. The values depend only on the observer direction: not on the number type or order of the azimuths, nor on other azimuths in the list, and the default list is one full turn in equal steps.",
 ["inputs"], "all magnetograms, grids, observer angles and azimuth lists",
 "Tests check dipoles from a few directions; the azimuths are always one default-shaped float array.",
 ["longitudinal_field.py", "geometry.py", "zdi_magnetogram.py"], [("get_longitudinal_field_curve", "longitudinal_field.py")], [], ["curve array"])

prop("C19", "A sampled surface field gives back its coefficients",
 "Sampling a ZDI field on a regular full-sphere grid of facet centres and converting the samples returns the coefficients of the field up to the requested degree (l >= 1, 0 <= m <= l; alpha also for l = 0; the axisymmetric ones up to their meaningless imaginary part), within the accuracy of the grid; coefficients not in the field come out as zero. Every coefficient is the sum over the samples of their projection on its vector harmonic, weighted with the sine of the polar angle and the area of a facet in angles (given, or the product of the two steps), on any regular grid; so the conversion is linear in the field and the coefficients asked for one by one equal those asked for together.",
 ["inputs"], "all real ZDI fields of degree at most 6 on grids fine enough to resolve them",
 "Tests recover single coefficients on one grid.",
 ["converter.py", "associated_legendre.py", "zdi_magnetogram.py"], [("get_zdi_coeffs, convert_latlon_to_zdi, convert_latlon_to_zdi_coeffs", "converter.py")], [], ["coefficients returned"])

prop("C20", "Image transforms do not depend on call history",
 "The image of a coefficient set on a separable grid is its complex spherical-harmonic sum at the facet centres, and transforming an image to coefficients returns the harmonics integrals for all degrees below the limit, so that an image made from coefficients of low degree gives them back within the accuracy of the grid. Every result depends only on the arguments of the call: not on earlier calls with other grids, degrees or limits, nor on what callers did to arrays returned earlier.",
 ["histories", "inputs"], "all sequences of forward and backward transforms and harmonic evaluations over several grids, with callers modifying returned arrays in between",
 "Tests call the transforms once per grid; the cache they share is never provoked.",
 ["image_converter.py", "geometry.py"], [("cached spherical harmonics", "image_converter.py"), ("from_image, to_image", "image_converter.py")],
 [("harmonics cache", "values kept between calls", "image_converter.py")], ["arrays and coefficients returned"])

prop("C21", "The Parker wind solution is transonic and conserves mass",
 "At every radius from the stellar surface outwards the wind speed v (in units of the sound speed sqrt(2kT/m_p)) and radius r (in units of GMm_p/(4kT)) satisfy v^2 - 2 ln v = 4 ln r + 4/r - 3 with v below, equal to and above 1 exactly where r is, and radii inside the star count as the surface. The density has the base value at the surface, density times speed times area is the same at every radius and equals the reported total mass flux; arguments are never modified and results are real and finite.",
 ["inputs"], "all temperatures, masses, stellar radii (surface between 0.02 and 1 sonic radii) and base densities; all radii as scalars or arrays of any shape and order, the sonic radius included",
 "Tests evaluate the default Sun-like wind at a few radii.",
 ["parker_solution.py"], [("speed, density, total_mass_flux, Lambert-W branch choice", "parker_solution.py")], [], ["speeds, densities, flux", "caller's arrays afterwards"])

prop("C22", "Wavelength intervals partition the spectrum at the gaps",
 "For every list of wavelengths the intervals are consecutive, non-empty, half-open index ranges that together cover each sample exactly once, and they break exactly between neighbours whose spacing exceeds the threshold. The spectrum plot draws every sample exactly once in each of its panels, whose vertical range is that between the 3rd and 97th percentile of its whole column.",
 ["inputs"], "all wavelength lists of at least two samples (increasing or not) and thresholds",
 "Not tested; every pattern of gaps (none, adjacent, at the ends) has to work.",
 ["plot_lsd.py"], [("wl_intervals, plot_spectrum", "plot_lsd.py")], [], ["interval list", "points drawn"])

prop("C23", "LSD plots show the requested Stokes parameters",
 "For every selection and order of the parameters I, V and N the LSD plot (command or function) has one panel per parameter, in order, showing against the first column exactly that parameter's column with its own error column and a label naming that parameter; header rows to skip are those requested, and the output image file is written where asked. A stack plot shows for every file the Stokes V column with its error in its own panel, in order.",
 ["inputs", "configurations"], "all parameter strings over I, V, N, numbers of header rows and data tables",
 "Tests run the default selection and check only that a file appears.",
 ["plot_lsd.py", "bin/plot_lsd.py"], [("plot_lsd_profile, plot_lsd_stack", "plot_lsd.py"), ("main", "bin/plot_lsd.py")], [], ["data drawn in the panels", "labels"])

prop("C24", "The magnetogram plot command draws what was asked for",
 "For every ZDI or PFSS magnetogram file and plot type, the plot command draws the requested quantity (radial, polar, azimuthal field, field strength, or the three components as a map under one colour scale) at its true values on the grid, under the label of that quantity (B_r, B_theta, B_phi, |B|), converting PFSS files first, marks the true extreme values and, for single fields, states the area-weighted mean magnitude. Energy plots show the energies of the magnetogram at their degree and order and the shares of the energy summary; unknown plot or file types are refused without writing an image.",
 ["inputs", "configurations"], "all magnetogram files with a non-zero field and orders m >= 0, types and plot types",
 "Tests only check that the command exits and writes some image.",
 ["bin/plot_magnetogram.py", "plot_zdi.py", "plots.py"], [("main", "bin/plot_magnetogram.py"), ("plot_zdi_field, plot_zdi_components, plot_energy_*", "plot_zdi.py")], [], ["artists on the figure", "files written"])

prop("C25", "Field statistics are the area-weighted ones",
 "The numerical description of a magnetogram on a full-sphere grid reports, for the poloidal and toroidal part and the sum of each component and for the field strength, the area-weighted mean magnitude, root mean square and standard deviation of the magnitude and the maximum magnitude over the facets, under that quantity's own name.",
 ["inputs"], "all magnetograms and full-sphere grids without a facet centre on the axis",
 "Tests only look at the presence of entries for one file.",
 ["geometry.py", "zdi_magnetogram.py"], [("numerical_description", "geometry.py"), ("get_all", "zdi_magnetogram.py")], [], ["dictionary returned"])

prop("C26", "Numbers on plots are written as the values they stand for",
 "Major tick marks are 0 and plus and minus the powers of ten in the requested exponent range and step, each labelled with exactly its value; minor ticks are exactly the multiples 0 to 9 of the decades from one below the lowest of the range to its top, both signs, sorted without repeats; on a symlog colour bar the marks within its limits stand at these values. The Tesla-to-Gauss relabelling multiplies the value a power-of-ten label denotes by ten to the shift and leaves labels without a power of ten alone, and the TeX form of a number denotes the number to three significant digits.",
 ["inputs"], "all exponent ranges, steps, shifts, labels and finite numbers",
 "Not tested.",
 ["colorbar_manual_tickmarks.py", "plots.py"], [("auto_symlog_tickmarks, generate_major, generate_minor, tesla_to_gauss", "colorbar_manual_tickmarks.py"), ("latex_float", "plots.py")], [], ["values and label strings"])

prop("C27", "The Fibonacci sphere is an even unit-sphere point set",
 "For every number of points and with or without randomisation the Fibonacci sphere returns that many points of unit norm, whose second coordinates are evenly spaced and symmetric about zero, each the midpoint of one of that many equal-area bands; without randomisation the points stand at 1, 2, ..., n-1 and 0 golden angles from first to last, with it every point but at most one turns from its predecessor by the golden angle.",
 ["inputs"], "all numbers of points from 1 up, randomised or not",
 "Not tested.",
 ["fibonacci_sphere.py"], [("fibonacci_sphere", "fibonacci_sphere.py")], [], ["array returned"])

prop("C28", "Pictures of the potential field and stream traces show the field",
 "For every PFSS coefficient set, normal axis, extent and radii, a slice shows the radial field of the points of that plane (none inside the star), circles at the stellar and source surface radius, the names of the plane's two axes and field lines that run along the in-plane field; component maps show the three components at the requested radius with their true extremes and one colour scale. Stream traces of PFSS and ZDI magnetograms show radial field or field strength of every facet, lines along the tangential components whose width is proportional to their size, and a legend of widths that agrees with the lines.",
 ["inputs", "configurations"], "all coefficient sets with a field (traces: a tangential one), normals, extents beyond the star, radii",
 "Tests draw one slice of one file and only check that an image is written.",
 ["plot_pfss.py", "plot_zdi.py", "plots.py", "pfss_magnetogram.py"], [("plot_slice, plot_components, plot_streamtraces", "plot_pfss.py"), ("plot_streamtraces", "plot_zdi.py"), ("normal_plane", "pfss_magnetogram.py")], [], ["artists on the figure"])

prop("C29", "Answers do not depend on what was called before",
 "Every function, method and command of the package gives, for the same arguments and files, the same result, drawing or output file whatever was called earlier in the process, and whatever callers did to results they got earlier. A call leaves the shared state of the process as it was: working directory, environment, command-line arguments, NumPy error handling and print options, random streams, warning filters, Matplotlib settings, loggers and the package's own constants and default arguments. Exceptions: drawing may change the figures, random sets and points use the random streams, commands set the package's log level.",
 ["histories"], "all sequences of calls to the public functions of the package in one process",
 "Tests run each function once or in the order of the test files, with one set of arguments per shape of input; a table keyed too coarsely or a setting left changed shows only in other orders.",
 ["image_converter.py", "geometry.py", "coefficients.py", "reader_writer.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "bin/generic_arguments.py"],
 [("cached spherical harmonics", "image_converter.py"), ("default geometry argument", "plot_pfss.py"), ("generic_arguments.handle", "bin/generic_arguments.py")],
 [("lru_cache", "harmonics on a grid", "image_converter.py")], ["results of calls", "process state"])

prop("C30", "Chains of conversions keep what each file stands for",
 "After any sequence of conversions (ZDI to PFSS, PFSS to ZDI, reformatting) by command or library, each file holds the source's radial coefficients times the conversion factor to the power of the number of ZDI-to-PFSS less the number of PFSS-to-ZDI conversions it descends from (there and back gives the radial coefficients again), to the seven digits each step keeps, zero above any maximum degree asked for on the way, with rows for all non-negative orders up to its own degree; after a reverse conversion also the matching second group and a zero toroidal one. A command is refused exactly when its input is missing, is its own output or has several groups where one is expected, and then changes nothing.",
 ["histories"], "all sources and sequences of forward, reverse and reformatting runs over any file names",
 "Tests convert one file once; what a second or third conversion of a result gives is not tested.",
 ["bin/convert_magnetogram.py", "converter.py", "reader_writer.py", "coefficients.py"],
 [("convert_zdi_to_pfss, convert_pfss_to_zdi, no_conversion", "bin/convert_magnetogram.py"), ("forward_conversion_factor", "converter.py"), ("write_magnetogram_file", "reader_writer.py")],
 [], ["files after each sequence", "refusals"])

prop("C31", "Printed forms state the stored values",
 "The text of a coefficient set lists after a title every stored pair once, in ascending order of degree and order, as degree, order and the stored values in brackets to eight decimals of the number, or of its mantissa (always so for values below 0.0001 in size); the text of an empty set shows the default value. The text of a ZDI magnetogram lists after its title each coefficient in the magnetogram's order with degree, order and alpha, beta and gamma at full precision. The text of a Parker solution states temperature, base density, radius and mass to two significant digits.",
 ["inputs"], "all coefficient sets (complex, real or integer, any width), ZDI magnetograms and wind parameters",
 "Tests never look at these texts.",
 ["coefficients.py", "zdi_magnetogram.py", "parker_solution.py"],
 [("Coefficients.__str__", "coefficients.py"), ("ZdiMagnetogram.__str__", "zdi_magnetogram.py"), ("ParkerSolution.__str__", "parker_solution.py")], [], ["str() of the objects"])

prop("C32", "Random coefficient sets follow the requested spectrum",
 "A random coefficient set holds exactly the orders 0 to l of every degree from the lowest to the highest requested. Its values are, going by degree and then by order, one pair of numbers each from the given source (by default NumPy's normal numbers), as real and imaginary part, divided by 2l+1 and by l to the power beta; no other random numbers are used.",
 ["inputs"], "all degree ranges from 1 (0 with beta = 0), exponents beta and sources of random numbers",
 "Tests use one random set as an input and never look at it.",
 ["coefficients.py"], [("noise", "coefficients.py")], [], ["set returned", "random numbers consumed"])

prop("C33", "Opposite waves are collected into one",
 "For all amplitudes and phases, the collected amplitude t and phase g satisfy r cos(x + a) + s cos(b - x) = t cos(x + g) for every x, and for sines r sin(x + a) + s sin(b - x) = t sin(x + g), with t not negative and g between minus and plus pi, element by element for arrays.",
 ["inputs"], "all real amplitudes and phases, scalars and arrays",
 "Tests reach the cosine case through single folded sets and never the sine case.",
 ["converter.py"], [("collect_cosines, collect_sines", "converter.py")], [], ["amplitude and phase returned"])

prop("C34", "Common command arguments mean the same in every command",
 "In every command, words are read from left to right: the first of --version, --help or a value of the wrong type ends the run at once (exit code 0 with version or help shown, exit code 2 with the usage shown); unknown options, no input file or more than two files refuse the run with exit code 2 and the usage. None of these changes any file. Otherwise the command runs and writes the same files whatever of -q, -v and --debug is given; the package logs from warnings (-q) or debug messages (-v) on, the last one given counting, else from information on, and --debug calls the debugger once.",
 ["inputs", "configurations"], "all sequences of common options, wrong options or values and file names standing together",
 "Tests run single command lines that succeed.",
 ["bin/generic_arguments.py", "bin/convert_magnetogram.py", "bin/plot_lsd.py", "bin/plot_magnetogram.py"],
 [("add, handle, defaults", "bin/generic_arguments.py"), ("main", "bin/convert_magnetogram.py"), ("main", "bin/plot_lsd.py"), ("main", "bin/plot_magnetogram.py")], [], ["exit code", "output", "files", "log level of the package"])

prop("C35", "A surface map shows the array it is given, in place and north up",
 "For every grid and array of finite values, drawing it on axes colours every facet, at its own place in degrees, with its own value, on a colour scale from the smallest to the largest value (or the given limits; made symmetric about zero when asked, and by default when the values have both signs) labelled with the field's name; colatitude runs downwards however often, after whatever else and by whatever function the axes are drawn on. Marks of the extremes stand on a facet of smallest and of largest value and state those values, lines of equal value are drawn at the asked levels of the array, zero included, and the array, the grid and later drawings are left as they are.",
 ["inputs", "histories"], "all grids with increasing corners, finite arrays (any sign, zero, constant, any size) and sequences of drawings on the same axes",
 "Tests draw single maps of one file and look only whether a file appears; drawing twice on the same axes turned the map upside down.",
 ["plots.py", "plot_zdi.py"], [("plot_magnetic_field, plot_equirectangular, add_extrema, add_contours, plot_components", "plots.py"), ("plot_zdi_field", "plot_zdi.py")], [], ["artists on the axes"])

prop("C36", "The functions behind the fields are the ones they are named for",
 "Called directly, for degrees, orders and points in any shape they take, without changing their arguments: the Legendre routine gives the associated Legendre functions of the cosine and their derivatives by the angle, off the axis; the Schmidt functions, the radial function with its derivative (any radii, star and source surface), the waves in longitude with their derivative, the spherical harmonics (any order, with or without the cache) and the ZDI-to-PFSS factor are the stated functions; normalisations by either method, and ratios of factorials, are those of the exact factorials for positive and negative orders; and the list of orders 0 to l of degrees up to a maximum is complete and ascending.",
 ["inputs"], "all degrees to 30 (normalisations to 150, factors to 2000), orders, points off the axis, radii and shapes",
 "Tests compare two implementations with each other for a few degrees on one grid; most functions are reached only through fields with default radii.",
 ["associated_legendre.py", "pfss_magnetogram.py", "zdi_magnetogram.py", "converter.py", "image_converter.py"],
 [("calculate_lpmn", "associated_legendre.py"), ("theta_lm, calculate_all_theta, r_l, phi_lm, factorial_ratio", "pfss_magnetogram.py"), ("get_c_lm", "zdi_magnetogram.py"), ("forward_conversion_factor, positive_lm", "converter.py"), ("spherical_harmonic", "image_converter.py")], [], ["values returned"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
