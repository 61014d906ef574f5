"""Per property: the deciding method in a few words, and what the check assures."""
_T = "TLA+ specification checked with TLC; "
TECH, NOTE = {}, {}
def _n(p, tech, note):
    TECH[p], NOTE[p] = _T + tech, note
_COMMON = (" Bounded: holds for what was explored on this run (see evidence); assumes TLC, the BigInteger override of "
           "spec/BigInt.tla (cross-checked against its TLA+ definitions) and the recorder in harness/.")
_n("C01", "store histories generated by TLC replayed in the code; random histories judged by the trace specification",
   "Machine model-checked exhaustively for small pools; all short store histories replayed; long random histories judged step by step, every live set compared after every step." + _COMMON)
_n("C02", "derive/mutate histories (TLC-generated and random) judged by the trace specification's frame condition",
   "After every event every live set is compared with the machine, so any aliasing reached by a history is seen." + _COMMON)
_n("C03", "operation histories (TLC-generated and random) judged against the specified algebra",
   "Each result is compared entry by entry with the specified operation; laws of the specification are checked by TLC." + _COMMON)
_n("C04", "enumeration filters swept exhaustively, results judged against the specified enumeration",
   "All combinations of a filter grid on two sets, random sets and filters elsewhere." + _COMMON)
_n("C05", "magnetogram texts generated from the file grammar by TLC and at random, read by the code and judged against the specified reader",
   "Specified lexer and reader decide for each text what must be read; all short texts of the generator, random long ones and both shipped dialects." + _COMMON)
_n("C06", "written files judged line by line against the specified writer and read back",
   "Every line of the written file and the set read back are compared with the specification." + _COMMON)
_n("C07", "command histories of the converter generated by TLC, run on a scratch file system and judged against the file system machine",
   "Command lines and initial file systems of the Cli machine are enumerated; every file is compared before and after." + _COMMON)
_n("C08", "command histories over links and path spellings, judged by the frame condition of the file system machine",
   "No file other than the named output may change, whatever the spelling, link or failure." + _COMMON)
_n("C09", "conversions of random magnetograms judged by fields computed in the specification at sampled points",
   "Field of the converted set against the specified field at the star and elsewhere; exact conversion formulae model-checked." + _COMMON)
_n("C10", "conversions of PFSS magnetograms judged by the specified potential field",
   "Specified conversion of each coefficient, for star and source surface radii over several decades." + _COMMON)
_n("C11", "fields evaluated by the code judged against the harmonic sums computed in TLA+ fixed-point arithmetic",
   "Sums recomputed in 90-bit arithmetic from three-term recurrences, themselves model-checked (orthogonality, closed forms)." + _COMMON)
_n("C12", "component splits, restrictions and Cartesian fields judged against the specified decomposition",
   "Decomposition identities are model-checked; each accessor of the code is judged at random points off the axis." + _COMMON)
_n("C13", "reported, printed and tabulated energies judged against the specified sums",
   "Sums of the specification are model-checked (additivity, mean square); random sparse and full magnetograms." + _COMMON)
_n("C14", "field in all three regions judged against the specified potential field",
   "Field recomputed in 90-bit arithmetic, boundaries included; model-checked to be divergence-free and matched at the source surface." + _COMMON)
_n("C15", "coordinates and vectors transformed by the code judged against the specified transformation matrices and directions",
   "Round trips and orthonormality are model-checked on an integer lattice; shapes, scales, near-axis and branch-cut points at random." + _COMMON)
_n("C16", "coefficient sets rotated and folded by the code judged through the field and the matrices of the specification",
   "Rotation about the axis and by quaternions, folding of negative orders; group laws model-checked." + _COMMON)
_n("C17", "surface grids built by the code judged against the specified grid",
   "Centres, areas, normals, default grid and numbering of generated and random grids; partition of the sphere model-checked." + _COMMON)
_n("C18", "longitudinal field curves of random grids, fields and inclinations judged against the specified projected sum",
   "Visibility, weights and phases of every facet recomputed by the specification; phase and linearity laws model-checked." + _COMMON)
_n("C19", "fields sampled on random grids and fitted by the code judged against the coefficients that generated them",
   "Quadrature error bound comes from the model; band-limited fields on many grids and degrees." + _COMMON)
_n("C20", "interleaved histories of image transforms over several grids judged step by step by the trace specification",
   "Caching, grid switching and argument mutation are explored by histories; each image recomputed by the specification." + _COMMON)

_n("C21", "wind speeds, densities, pressures and radii computed by the code judged against the specified Parker equation in scaled arithmetic",
   "Residual of the transonic equation and branch of every speed recomputed in TLA+; monotonicity and the sonic point model-checked; radii over decades." + _COMMON)
_n("C22", "wavelength intervals of all short gap patterns generated by TLC and random spectra judged against the specified partition",
   "All gap patterns up to the model's bound, random longer lists, panels read off the drawn figure." + _COMMON)
_n("C23", "LSD plot commands and functions judged by the specified panels",
   "All selections and orders of parameters by function and command line; every point and error bar compared with the table." + _COMMON)
_n("C24", "plot requests enumerated by TLC run through the command; facets, marks, labels, curves and shares judged against the specified field and energies",
   "Every kind of file and plot; default grid by sampled facets and all extremes, small grids by all facets; refused requests must change nothing." + _COMMON)
_n("C25", "statistics of the code judged against weighted statistics of the field recomputed by the specification",
   "All facets of small full-sphere grids recomputed in 90-bit arithmetic." + _COMMON)
_n("C26", "labels, ticks and TeX numbers of the code judged by the specified notation",
   "Label grammar model-checked (write/read); exhaustive decades, random values, exact rational comparison of rounded numbers." + _COMMON)
_n("C27", "point sets of the code judged against the specified spiral",
   "All sizes of a range and random larger ones; coordinates recomputed in fixed-point arithmetic." + _COMMON)
_n("C28", "slices, maps and stream traces drawn by the code read off the figures and judged against the specified field",
   "Planes, circles, field-line directions, widths, scales and legends; plane and field symmetries model-checked (SliceMC)." + _COMMON)
_n("C29", "sessions generated by TLC (all ordered pairs of neighbouring calls) run in one process, every answer and the shared state judged step by step against a new process",
   "98 calls over all modules, each pair in both orders plus random sessions; a memoising implementation is model-checked to refine the history-free session, and two faulty ones are refuted." + _COMMON)
_n("C30", "histories of conversions enumerated by TLC and random longer ones, run by command, function and library steps and judged by the workspace machine",
   "All pairs of runs over two sources and two outputs (sampled on quick) and random histories of 3 to 9 runs; the machine's summary of a file is model-checked against carrying out each step." + _COMMON)
_n("C31", "printed texts read by the specified grammar and compared with the stored values",
   "Entries, complex number notations and named values are read character by character in TLA+; reading back what is written is model-checked; random sets, magnetograms and winds." + _COMMON)
_n("C32", "random sets judged against the machine that walks degrees and orders and consumes draws",
   "The machine's walk (each pair once, one draw each, termination) is model-checked; draws are supplied or replayed from the seed." + _COMMON)
_n("C33", "collected waves judged against the specified sum of waves",
   "The sum is shown to be a wave of the stated amplitude on a grid (TLC); random and degenerate amplitudes and phases, scalars and arrays." + _COMMON)
_n("C36", "direct calls of the functions behind the fields judged against the specified functions",
   "Unnormalised Legendre functions by recurrence in fixed-point arithmetic, factorials as exact integers; both shown to agree with the normalised recurrences, parity, size, slope and the two radial solutions (TLC); degrees to 30 (normalisations to 150), all shapes." + _COMMON)
_n("C35", "sessions of drawings enumerated by TLC and random ones, drawn by the code, read off the axes and judged by the map machine",
   "All sequences of drawings over classes of arrays; facets, places, scale, labels, direction, marks and lines of equal value read off the axes; a machine that toggles the direction is refuted." + _COMMON)
_n("C34", "command lines enumerated by TLC from the word-by-word reader, run in every command and judged by it",
   "All sequences of up to four words (thorough; a sample on quick) run through main of each command in a scratch directory; exit code, texts, files, log level, debugger calls." + _COMMON)
