"""What each property says, where it lives, how it is decided."""

TECH = "gated value-flow analysis of type-checked MIR"
NOTE = ("Decides the rule on the value graph of every function named in the evidence, for all "
        "inputs at once: loops are summarised (no unrolling), path conditions are BDDs over "
        "comparisons. Real arithmetic stands in for floats (rounding is out of scope) except that "
        "NaN, truncation and comparison are kept. Anything the analysis cannot summarise is "
        "reported, not skipped.")
DATA = "The data source answers the same request the same way and keeps the arrays of one timestep parallel."

MIX = "src/functions/mixing.rs"
FN = "src/functions.rs"
COND = "src/functions/conditional.rs"
SELF = "src/particleselector.rs"
CART = "src/grid/cartesian_grid.rs"
CYL = "src/grid/cylindrical_grid.rs"
VEC = "src/grid/vector_grid.rs"
GRID = "src/grid.rs"
P2D = "src/plotting/plotting_2d"
PLOTS = [f"{P2D}/{n}.rs" for n in ("quiver", "unit_vector", "scalar_map", "scalar_contour",
                                   "parity_map", "parity_contour")]
LIBS = ("The libraries that draw, read and write files are known by their signatures only.",)

ALL = {}


def prop(pid, title, statement, quantifier, why, files, mechanism, observe, explain, over=None,
         technique=TECH, note=NOTE, na=None, assumptions=(DATA,)):
    ALL[pid] = dict(title=title, statement=statement, quantifier=quantifier, why=why, files=files,
                    mechanism=mechanism, observe=observe, explain=explain,
                    over=over or ["inputs"], technique=technique, note=note, na=na,
                    assumptions=list(assumptions))


prop("C01", "Nothing a user filtered out is counted",
     "Every number an analysis reports is made only of samples (one particle at one timestep) "
     "whose time lies in the selector's window, whose particle the selector accepts by its own "
     "attributes at that timestep, and which lie inside the grid, where there is one. Samples whose position is not "
     "known contribute to no field that depends on position validity, and each sample counts at "
     "its own position.",
     "all recordings, selectors, grids and analysis parameters",
     "The filter is repeated by hand in every analysis; a test samples one recording and one "
     "selector, while an index taken from the wrong axis or a check dropped in one branch shows "
     "only for particular particles and times.",
     [FN, MIX], [("fields deposited sample by sample", f"{FN} vectorfield, velocityfield, numberfield, occupancyfield"),
                         ("mixing fields", f"{MIX} lacey_mixing, concentration_field, msd_field"),
                         ("closed forms", f"{FN} mean_velocity, granular_temperature_field, dispersion, histogram")],
     "returned grids and numbers",
     "Every deposit into a grid and every term of a reported sum is found in the value graph; its "
     "path condition must imply the window, selector, range, grid and position checks of the very "
     "sample (timestep role, particle role) whose values it carries.")

prop("C02", "Every qualifying sample is counted exactly once",
     "An analysis counts every sample that passes its filters, each exactly once, from the first "
     "recorded timestep of the window to the last. No qualifying timestep or particle is skipped "
     "and none is counted twice.",
     "all recordings, selectors, grids and analysis parameters",
     "Off-by-one loop bounds, early loop exits and double deposits change totals only slightly and "
     "only for particular windows; a unit test has no independent total to compare with.",
     [FN, MIX], [("loops over timesteps and particles", f"{FN}, {MIX}")],
     "returned grids and numbers",
     "The disjunction of the conditions of all deposits of one output must equal the specified "
     "set of samples, deposits of one output must exclude each other, and each lies in exactly "
     "the two loops over timesteps and particles; sums must range over exactly that set.")

prop("C03", "The particle selector accepts exactly the documented values",
     "Each criterion (radius, cloud, density, particle id) accepts everything when switched off, "
     "the one value, the closed range of two values, or the listed values, judged by its own "
     "list, and a particle is selected exactly when all four accept it. A timestep is selected "
     "exactly when its time lies in the closed window, changing the window leaves the rest alone, "
     "and the default selector accepts everything.",
     "all selector settings with non-empty criterion lists and all particle attributes",
     "Four criteria with four shapes each interact; a test tries a few values, and a criterion "
     "that consults a neighbour's list only shows when the two lists differ.",
     [SELF], [("selection", f"{SELF} is_valid, timestep_valid"), ("construction", f"{SELF} new, set_time, default")],
     "which particles an analysis counts",
     "The accepting condition is computed as a BDD over the constructor's inputs and compared with "
     "the documented condition, one criterion at a time and all together.")

prop("C09", "Results start from an empty grid",
     "Every analysis accumulates into a grid that starts with no data and no weights, and running "
     "it again, or on a grid that already holds data, gives the same result. The grid the caller "
     "passes in is only a template.",
     "all grids, including ones already filled", "Tests start from a new grid, where leftovers "
     "cannot show.", [GRID, CART, CYL, VEC, FN, MIX],
     [("empty copies of a grid", "new_zeros of each grid"), ("accumulation", f"{FN}, {MIX}")],
     "returned grids after a first use",
     "The object every deposit goes to must be one created by the zeroing constructor in this "
     "call; what that constructor builds is decided field by field.", over=["inputs", "histories"])

prop("C10", "A velocity field shows the component and range asked for",
     "Every velocity mode deposits the quantity it names, computed from the sample's own velocity, "
     "and exactly the samples whose value lies between the given minimum and maximum count. "
     "Unknown modes are rejected.",
     "all modes, bounds and recordings", "Nine modes times two bounds; a swapped component or a "
     "filter on another quantity than the one deposited is invisible to a test that uses one mode.",
     [FN], [("mode table", f"{FN} velocityfield")], "returned grid",
     "For each mode the deposited value is compared with the norm of the named components under "
     "the deposit's path condition, which must entail both bounds on that same value.")

prop("C12", "Fields report the documented quantity and normalisation",
     "A number field holds plain counts, a velocity or vector field the mean over the samples of "
     "a cell, and an occupancy field the share of the total time spent in each cell, split evenly "
     "between the cell of departure and of arrival. Normalisation happens exactly once, after all "
     "samples, on the returned grid.",
     "all recordings, grids and parameters", "A wrong weight, a normalisation inside the loop or a "
     "total that omits some samples scales results in a way only a second, independent "
     "computation would reveal.", [FN], [("fields", f"{FN}")], "returned grid",
     "Deposited values, the object they go to and the ordering, number and argument of "
     "normalising operations are read off the value graph and compared with the definition.")

prop("C14", "Extraction returns the particle's own trajectory",
     "Extracting a particle over a period yields one row per timestep of the period, holding the "
     "time, position and velocity of that particle at that timestep in the documented columns. "
     "Periods outside the recording are rejected.", "all particles, periods and recordings",
     "Row offsets and column swaps need periods that do not start at zero.",
     ["src/functions/extractions.rs"], [("extraction", "src/functions/extractions.rs extract")],
     "returned array",
     "The returned array's shape and each of its elements, as functions of row and column, are "
     "compared with the recording's own values.")

prop("C22", "The Lacey index is the variance-based mixing index",
     "At every timestep of the window the mixing index is (s0² - s²) / (s0² - sr²), where s² is "
     "the variance of the first type's share over the cells with enough particles, and s0² and sr² "
     "are those of segregated and random mixtures with the overall share. Each timestep is judged "
     "on its own.", "all recordings, type pairs and thresholds",
     "The formula mixes counts, shares and cell numbers; a wrong denominator or leftovers of the "
     "previous timestep give plausible numbers.", [MIX], [("Lacey index", f"{MIX} lacey_mixing")],
     "returned time series", "The two returned series are compared, element by element, with the "
     "definition written over the per-type count grids of that timestep.")

prop("C23", "Dispersion is the spread of later positions",
     "The dispersion of a cell is the variance, summed over the axes, of where the particles found "
     "in it are one interval later, for cells visited more than once. The overall figure is the "
     "average of the cells' values.", "all recordings, intervals and grids",
     "Variances computed from running sums hide sign and normalisation errors behind plausible "
     "values.", [FN], [("dispersion", f"{FN} dispersion")], "returned grid and number",
     "The value written to a cell is reduced to a ratio of sums over samples and compared with the "
     "definition by exact rational arithmetic on those sums.")

prop("C24", "Concentration is the share of one type",
     "The concentration field holds, per cell, the number of samples of the first type divided by "
     "the samples of both types, weighted by the number of both. Each type is counted in a grid of "
     "its own.", "all recordings and type pairs", "Swapped types or a denominator of one type "
     "still give numbers between 0 and 1.", [MIX], [("concentration", f"{MIX} concentration_field")],
     "returned grid", "Which samples each component grid receives, and what is computed from them, "
     "is compared with the definition.")

prop("C25", "Histograms count each speed in its bin",
     "A velocity histogram has evenly spaced bins from the lowest to the highest speed (the "
     "recorded ones, or up to a given limit), one edge more than bins, and each bin holds the "
     "number of qualifying samples whose speed lies in it. Samples outside every bin are not "
     "counted.", "all recordings, limits and numbers of bins", "Boundary samples and an explicit "
     "limit below the fastest sample are needed to see a shifted or overflowing bin.", [FN],
     [("histogram", f"{FN} histogram")], "returned counts and edges",
     "The counts array is summarised as a sum over samples per bin index and compared with the "
     "definition, for one bin, for any larger number, for recorded and given limits.")

prop("C26", "Granular temperature is the spread of velocities",
     "The granular temperature of a cell is the root of the mean square deviation of the chosen "
     "velocity components of the samples in the cell from their mean, with the number of samples "
     "as weight. Nothing else enters.", "all recordings, grids and modes",
     "Running sums of squares hide component and normalisation mix-ups.", [FN],
     [("granular temperature", f"{FN} granular_temperature_field")], "returned grid",
     "The written array is reduced to sums over samples per cell and compared with the definition "
     "for each mode.")

prop("C33", "Mean square displacement averages squared distances",
     "The displacement field holds, per cell, the mean squared distance between where a sample is "
     "and where the same particle is after the lag, and the displacement curve gives the mean over "
     "all samples for evenly spaced lags. Samples without a later timestep do not count.",
     "all recordings, lags and grids", "A distance to the wrong particle, time or axis is still a "
     "distance.", [MIX], [("displacement", f"{MIX} msd_field, msd")], "returned grid and curve",
     "Deposited values, the written result and the curve's points are compared with the "
     "definition over the later timestep of the same recording.")

prop("C34", "The homogeneity index is the spread over layers",
     "The homogeneity index is the standard deviation of the occupancy of the grid's layers, from "
     "the same selection and threshold as the caller's. Layers without data do not count.",
     "all recordings, grids and thresholds", "One number without an independent reference.",
     [FN], [("homogeneity", f"{FN} homogenity_index")], "returned number",
     "The returned value is compared with the definition over the collapsed occupancy field.")

prop("C35", "The mean velocity is the mean over selected samples",
     "The mean velocity is the sum of the speeds of all selected samples divided "
     "by their number. Samples without a velocity count neither above nor below.",
     "all recordings and selectors", "One number without an independent reference; a divisor that "
     "counts other samples than the sum shifts it slightly.", [FN],
     [("mean velocity", f"{FN} mean_velocity_showcase")], "returned number",
     "Numerator and denominator are compared as sums over the same set of samples.")

TRAIT = f"{GRID} GridFunctions3D"
prop("C05", "A deposit changes exactly its own cell",
     "Adding a value at a position or to a cell changes the data of that one cell by the value and "
     "its weight by one, inserting sets that cell's data, and a trajectory is shared evenly between "
     "its two end cells (on a cylinder it counts where it starts). Every other cell and the layout "
     "stay as they were, a position without a cell changes nothing, and reading at a position "
     "gives the value of its cell.",
     "all grids, contents, positions and values", "A deposit that also touches another cell, or "
     "the weight of another, is seen only when two cells are compared after the same operation.",
     [CART, CYL], [("deposits", "add_value, add_to_cell, add_trajectory_value, insert, get_value")],
     "data and weights of the grid after the operation",
     "The state after each operation is compared, at an arbitrary cell, with the state before plus "
     "the specified change, through the same accessors a caller has.", assumptions=())

prop("C06", "A position belongs to the Cartesian cell that contains it",
     "A position is inside a Cartesian grid exactly when each of its coordinates lies in the grid's "
     "closed limits, and it then belongs to the one of equally wide cells that contains it, the upper "
     "limit belonging to the last cell. Positions outside, or not known, have no cell, and the cell "
     "found is always one of the grid's.",
     "all positions, limits and numbers of cells", "Boundary positions, the last cell and unequal "
     "axes are where index arithmetic goes wrong, and a test samples a few positions.",
     [CART], [("cells", f"{CART} cell_id, is_inside")], "is_inside, cell_id",
     "Both answers are computed as functions of position, limits and cells and compared with the "
     "definition on every grid the constructor can build.", assumptions=())

prop("C07", "A vector grid keeps its three components in step",
     "Every operation on a vector grid does the same operation, once, on each of its three component "
     "grids with the operation's own arguments, and every question is answered as a component would "
     "answer it. The components start as copies of the given grid and are separate grids.",
     "all vector grids, operations and arguments", "A component forgotten or treated twice shows only "
     "in results that use that component.", [VEC],
     [("component-wise operations", f"{VEC} VectorGrid")], "the three component grids",
     "For each operation, the calls on each component are collected with their conditions and must "
     "be exactly one, unconditional, with the same arguments.", assumptions=())

prop("C08", "Whole-grid operations act on every cell alike",
     "Dividing by the weights, by a number or by an array divides every cell's data by its own weight, "
     "the number or the matching element, and leaves the weights alone. Replacing data or weights "
     "replaces exactly that, and is refused exactly when the shape differs; the layout never changes.",
     "all grids, contents, numbers and arrays", "An operation that also normalises the weights, or "
     "pairs cells wrongly, still produces plausible fields.", [CART, CYL],
     [("whole-grid operations", "divide_by_weight, divide_by_scalar, divide_by_array, set_data, set_weights")],
     "data and weights of the grid after the operation",
     "The state after each operation is compared with the specified one at an arbitrary cell.",
     assumptions=())

prop("C13", "Projections and cuts take the right cells",
     "Projecting a grid along one or two axes gives, for each remaining cell, the mean of the cells "
     "along the others weighted by their samples, empty cells left out, and the weight projections give "
     "the totals. A cut gives the layer of cells with the given index or containing the given position, "
     "and a cut along an axis that does not exist is refused.",
     "all grids, contents, axes and positions", "Axis mix-ups vanish on cubes and symmetric fields, "
     "which is what tests use.", [CART, CYL],
     [("projections", "collapse, collapse_weight, collapse_two, collapse_two_weight"),
      ("cuts", "slice, slice_idx")], "returned arrays",
     "For every axis (or pair) the element at an arbitrary position and the extents of the result are "
     "compared with the definition as sums over the cells.", assumptions=())

prop("C18", "Outlier removal changes only the outliers",
     "Removing outliers leaves every value at or below the threshold as it is and replaces each value "
     "above it by zero, by the threshold, or by the mean of the cells around it (of those that are no "
     "outliers, on a Cartesian grid), depending on the mode. The samples of other cells are untouched "
     "and unknown modes are refused.",
     "all grids, contents and thresholds", "The cells around an outlier at the edge of the grid, or "
     "next to another outlier, need particular fields to matter.", [CART, CYL],
     [("outlier removal", "outlier_removal")], "data and weights after the operation",
     "The value of an arbitrary cell afterwards is compared with the definition; the list of "
     "neighbours is expanded and matched one by one.", assumptions=())

prop("C27", "A new grid is laid out by its cells and limits",
     "A new grid has one entry per cell in data and weights, all zero, the limits and cells it was "
     "given, and lists one position per cell along each axis: the centres of equally wide cells on a "
     "Cartesian grid; on a cylinder the mean radii of rings of equal volume and the upper ends along angle and height. "
     "Limits of fewer than three dimensions and unknown cylinder modes are rejected.",
     "all limits and numbers of cells", "Tests use symmetric limits and equal cell numbers, where "
     "axes can be swapped unnoticed.", [CART, CYL],
     [("construction", f"{CART} new; {CYL} new"), ("layout getters", TRAIT)],
     "get_limits, get_cells, get_xpositions, get_ypositions, get_zpositions, get_data, get_weights",
     "What the getters return on a newly made grid is compared with the definition as functions of "
     "the constructor's inputs; the radii are a recurrence, solved and checked by induction.",
     assumptions=())

prop("C28", "Cylindrical cells and velocities are taken around the grid's own axis",
     "A position is inside a cylindrical grid exactly when it is within the radius of the grid's axis "
     "and the height limits, and then belongs to the ring, sector and layer that contain it. On a cylinder a "
     "velocity is split into the speed along the radius, the angular speed around that axis and the "
     "speed along the height; on a Cartesian grid it is left as it is.",
     "all positions, velocities, limits and numbers of cells", "Tests centre the cylinder on the "
     "origin, where a forgotten axis does not show.", [CYL, VEC],
     [("cells", f"{CYL} cell_id, is_inside, to_cylindrical"),
      ("velocity components", f"{VEC} velocity_calculation")],
     "is_inside, cell_id, to_cylindrical, components of a vector field",
     "Answers are computed as functions of position and limits and compared with the definition in "
     "cylindrical coordinates.", assumptions=())

MATHS = "src/utilities/maths.rs"
UTIL = "src/utilities.rs"
DMU = "src/datamanager/utilities.rs"
COMP = "src/comparison.rs"

prop("C19", "Statistics leave missing values out",
     "The mean and the standard deviation of a field are those of the values that are numbers: missing "
     "values (NaN) count neither in the sum nor in the number of values. The smallest and largest "
     "value of a list are found whatever the sign of the values, and missing values are skipped.",
     "all fields and lists of values", "A count that includes missing values, or a search that starts at zero, only "
     "shows on particular fields.", [UTIL, MATHS],
     [("statistics", f"{UTIL} nan_mean, nan_std"), ("extremes", f"{MATHS} minmax")],
     "returned numbers",
     "Loops are summarised as guarded sums and extremes over all elements and compared with the "
     "definitions; the start of a search must lie beyond every finite number.", assumptions=())

prop("C20", "Meshes and flattening keep the order of coordinates",
     "A two- or three-dimensional mesh holds at every point the coordinate of its own axis and has one "
     "point per combination of coordinates. Flattening a field lists every value exactly once, row by row, the "
     "last axis running fastest.",
     "all coordinate lists and fields", "Swapped axes and strides vanish on square inputs.", [MATHS],
     [("meshes", f"{MATHS} meshgrid, meshgrid3d"), ("flattening", f"{MATHS} flatten_2d, flatten_3d")],
     "returned arrays",
     "The element at an arbitrary position and the extents are compared with the definition.",
     assumptions=())

prop("C30", "A comparison treats both recordings alike",
     "Starting a comparison keeps the two recordings in order, each with its own copy of the given grid, and "
     "compared velocity fields are computed with the same settings, each recording on its own grid. Comparison grids span the "
     "given dimensions in the requested geometry, and other geometries are refused. Thresholding turns "
     "a field into ones where a value exceeds a common threshold and zeros elsewhere, and refuses "
     "quantiles outside zero to one.",
     "all recordings, grids, dimensions and settings", "Both sides look alike in the code and "
     "a test that compares a recording with itself cannot tell them apart.", [COMP],
     [("start", f"{COMP} Comparison::compare"), ("fields", f"{COMP} Comparer::velocityfield"),
      ("helpers", f"{COMP} make_grid, binary_threshold")],
     "the comparison's recordings and grids, returned fields",
     "Results are value graphs over the inputs; the calls computing the two fields are found as "
     "effects and their arguments compared.")

prop("C36", "Turning a recording keeps distances and speeds",
     "Positions are turned around the anchor by the angle given for x, then y, then z, each a right-handed "
     "rotation, so that the distance to the anchor is kept. Velocities are turned by the same "
     "angles in the same order without the anchor.",
     "all positions, velocities, angles and anchors", "A sign or order slip vanishes for single "
     "axes, small angles or an anchor at the origin.", [DMU],
     [("rotation", f"{DMU} rotate_position, rotate_velocity")], "turned positions and velocities",
     "Each component is compared with the product of the three rotations.", assumptions=())

prop("C21", "Circulation times follow each particle's clock",
     "With one boundary, a reported time is the time from a particle's first crossing to its third, after which "
     "the next crossing starts anew; a crossing is a change of side against the timestep before. With two "
     "boundaries it is the start and end of a loop: from leaving the region a particle left first to "
     "leaving it again, restarted at each leaving, if the other region was entered since. Only a selected particle "
     "that is the same as before moves its own clock, at selected timesteps, and boundaries outside "
     "the system are refused.",
     "all recordings, selectors, axes and boundaries", "A clock's state depends on the whole history "
     "of a particle, so a wrong step needs a particular sequence of crossings to show.", [COND],
     [("circulation times", f"{COND} circulation_time, circulation_time_two_boundary")],
     "the returned list of times",
     "The loop bodies are one particle's step as a function of its clocks and two positions. All "
     "reachable states of the clocks are followed together with the specified machine, for every "
     "side of the boundaries the two positions can be on.")

DM = "src/datamanager.rs"
prop("C15", "A time is looked up as the closest timestep",
     "Looking up a time in a recording gives a recorded timestep to which no other is closer, however "
     "close together or far apart timesteps are. A time before the first or after the last timestep is "
     "refused, every other is found.",
     "all ascending lists of recorded times and all times", "A search that settles for a neighbour is off by one "
     "for some times only and shifts later positions unnoticed.", [DM],
     [("lookup", f"{DM} GlobalStats::timestep_at_seconds_closest")], "the returned timestep or refusal",
     "The search is summarised as the first recorded time not before the one looked for; the chosen "
     "index must be that one or the one before it, under a condition that implies it is the closer.",
     assumptions=("Recorded times ascend and are kept in one block of memory.",))

prop("C29", "A later position is that of the same particle",
     "Displacement analyses (mean squared displacement, dispersion, occupancy) compare two positions "
     "only if both are of the same particle: recordings may lose or reorder particles between two "
     "timesteps. The later position is the one recorded for that particle in the later timestep the "
     "analysis looks for; where there is none, the sample does not count.",
     "all recordings, in particular those whose particles come and go", "Recordings made for a test "
     "hold the same particles in the same order throughout; there any index works.", [FN, MIX],
     [("occupancy", f"{FN} occupancyfield"), ("displacements", f"{MIX} dispersion, msd_field")],
     "returned numbers and grids",
     "Every deposit and reported term that reads a later position must lie under a path condition "
     "that implies equal particle numbers at the index read in both timesteps.")

prop("C31", "Analyses ask only for timesteps a recording has",
     "Every timestep an analysis requests lies within the recording, for every selector window, look-ahead and "
     "recording of at least one timestep. A second reading position is set up before it is first used.",
     "all recordings (also of a single timestep), windows and look-ahead times",
     "A request past the end needs the last timestep to be selected together with a look-ahead; "
     "it ends the program or reads foreign data.", [FN, MIX, COND],
     [("requests", f"every analysis in {FN}, {MIX}, {COND}")], "requests the data source receives",
     "The requested index is a term of the value graph; its path condition must imply that it is at "
     "least zero and less than the number of timesteps. Reads through an extra buffer must come "
     "after its set-up, under a condition that implies it.")

prop("C37", "The same question has the same answer",
     "What an analysis, grid or comparison returns depends only on its arguments and the recording: "
     "not on earlier calls, the clock, the environment, random numbers, threads, addresses or the "
     "order of a hash table. Asking twice gives the same answer, and an analysis leaves the recording's "
     "coordinate settings as they were.",
     "all functions of the library core, all histories of calls", "Dependence on "
     "history or environment shows only in a second call, another process or another day.",
     [FN, MIX, COND, CART, CYL, VEC, GRID, COMP, UTIL, SELF],
     [("effects", "every call and every global variable of the compiled library core")],
     "results of repeated calls",
     "Effect analysis: every callee that the type-checked program names, in every function, must "
     "be of the own crate or of a library known to compute with its arguments, and be none of the "
     "known sources of other influences; no global variable that can change may be touched.",
     over=["histories", "inputs"], technique="effect analysis over resolved callees and statics of "
     "type-checked MIR", note="Every call site of the core is looked at, none is executed. A callee "
     "of a crate not known to be pure is reported. Foreign code reached through the Python interpreter "
     "(asking whether the user interrupted) is assumed to return no data.",
     assumptions=("The data source itself answers the same request the same way.",))

prop("C38", "A plot shows the plane it was asked for",
     "A plot of a grid across an axis (one layer of it, or the mean along it) has the positions of the two "
     "other axes along its sides and shows, for each pair of positions, the value found there: of vectors the "
     "components that lie in the plane, their direction or their length. Coloured points carry the position and "
     "the value of the same cell.",
     "all grids, axes and layers, every kind of plot",
     "Tests use a cube with the same positions along each axis, where exchanged axes cannot be seen.",
     PLOTS, [("constructors", f"{P2D} from_vector_grid_*, from_grid_*, from_vector_grids_*, from_grids_*"),
             ("traces", f"{P2D} create_scalar_map, create_scalar_contour, create_parity_map, "
              "create_parity_contour, create_unit_vector_background")],
     "contents of the plot objects and of the traces made of them",
     "Every constructor of every kind of plot is summarised for each axis; its positions and values are "
     "compared with those of the grid at the cells of that plane. Arguments given to the drawing library "
     "are compared point by point.", assumptions=LIBS)

prop("C39", "Scaled arrows keep to their limits without turning",
     "Scaling the arrows of a plot multiplies both components of each arrow by the documented factor: given, "
     "per cell, or such that its length is brought to a limit it violates and left alone otherwise. The length "
     "kept with an arrow is that of its components; its place and its original length do not change. Each arrow is drawn from its "
     "cell's position to that position plus its components.",
     "all plots of vectors, all factors and limits",
     "Whether a limit holds depends on each arrow; a factor applied to one component only turns arrows.",
     PLOTS[:2], [("scaling", f"{P2D} quiver, unit_vector: scale_global, scale_elementwise, bound_*"),
                 ("arrows", f"{P2D} create_arrows, create_quiver_traces")],
     "components and lengths of the arrows, ends of the lines drawn",
     "The value of each component after scaling is compared with the product of component and factor "
     "under the path conditions that choose the factor, for arrows that are not of length zero.",
     assumptions=LIBS)

prop("C40", "Comparing plots pair values of the same cell",
     "A plot that compares two grids takes both values of each pair from the same cell and the same component; "
     "differences are those of the pair (plain, in percent of the reference, or absolute). The line of equal values "
     "is drawn where both are equal.",
     "all pairs of grids with the same cells, all axes and layers",
     "A pairing that slips by a component or an axis needs two different grids to be seen.",
     PLOTS[4:] + [f"{P2D}/parity_plot.rs"],
     [("pairs", f"{P2D} parity_plot: from_*, create_parity_scatter"),
      ("differences", f"{P2D} parity_map, parity_contour: delta_as_*")],
     "contents of the plot objects", "Each run of values of one side is compared with the cells of the "
     "grid it must come from, component by component, and the differences with those of the pair.",
     assumptions=LIBS)

READ = [f"src/datamanager/{n}.rs" for n in ("tdata", "pdata")]

prop("C41", "A reader hands out the timestep it is asked for",
     "Whatever was asked for before, asking a reader of a data file for a timestep of the file returns that "
     "timestep as it is recorded: its time and, per particle, position, velocity, radius, number (that of its group in particle files), clouds, type and "
     "density (with the documented stand-in where a file lacks one). This holds for the main buffer, for extra "
     "buffers and for unbuffered reading, in timestep files and in particle files. Buffers never claim "
     "timesteps they do not hold, and reading from one leaves the others as they were.",
     "all files, all histories of requests, all timesteps of a file",
     "Buffers hold 20000 timesteps, so errors at their edges and in refilling them need files and histories larger "
     "than any test has.",
     READ, [("requests", f"{READ[0]}, {READ[1]}: get_timestep, get_timestep_buffer, get_timestep_unbuffered"),
            ("buffers", f"{READ[0]}, {READ[1]}: new, update, update_extra, setup_buffer, read_single")],
     "timesteps returned by a reader",
     "By induction over requests: from every state in which a buffer holds the records of its range, each "
     "request returns the record asked for and leaves such a state; the values are compared with the "
     "record's datasets, elements and group under the path conditions of the request, with linear arithmetic "
     "over the bounds of the ranges.",
     assumptions=LIBS + ("A file holds the datasets its format documents, with one row per timestep or particle.",
                         "Up to two extra buffers are set up; more behave as the second does."))

prop("C42", "A reader reports the totals written in its file",
     "Extents, number of particles, number of timesteps, first and last time, sample rate, velocity extremes, speed "
     "extremes and the list of times that a reader reports are those recorded in the file it has opened, each "
     "under its own name, in timestep files and particle files.",
     "all files", "Totals that are mixed up have the same types, and agree in small samples.",
     READ, [("totals", f"{READ[0]}, {READ[1]}: global_stats, new")],
     "totals returned by a reader",
     "Each total is traced to the attribute or dataset of the file, and the element of it, that it is read from.",
     assumptions=LIBS)

PYLIB, PYGRID, PYPLOT, PYCONV = ("src/pylib.rs", "src/pylib/libgrid.rs", "src/pylib/libplot.rs",
                                 "src/pylib/libconv.rs")
PYNOTE = NOTE + " Methods are analysed as Python calls them, from the extraction of the arguments on."
PY = LIBS + ("Python passes a method the arguments its signature names.",)

prop("C43", "Python gets the analysis it names, with its own recording, selection and arguments",
     "Each analysis method of the Python class Data returns the result of the analysis it is named after, applied "
     "to the recording and the selection the object holds and to the arguments under their names, with several "
     "results in the documented order. Calling one changes neither recording nor selection. set_time narrows the "
     "selection to the window given, and refuses a window that starts after the recording ends. Opening a file "
     "makes a reader of the type the file is of.",
     "all recordings, selections, grids and arguments",
     "The methods are not called by any test of the library, and two arguments of the same type that are swapped "
     "fit every signature.",
     [PYLIB], [("analyses", f"{PYLIB} PyData"), ("selection", f"{PYLIB} set_time"),
               ("files", f"{PYLIB} constructor, from_tdata, from_pdata")],
     "values returned to Python",
     "The value each method returns is compared with the call of the named analysis on the object's own "
     "recording and selection and on the extracted arguments; the object afterwards is compared with the one "
     "before.", note=PYNOTE, assumptions=PY)

prop("C44", "Indexing Data in Python gives the rows asked for",
     "Indexing a Data object by a number, a list or a slice returns one row per timestep meant, in order, as Python "
     "does for its own sequences (also with steps other than one and backwards); each row holds that timestep's "
     "values in their documented columns. Extracting a particle, dimensions and totals give what the recording says.",
     "all recordings, numbers, lists and slices",
     "No test indexes a recording; slices that step or run backwards are rarely tried.",
     [PYLIB], [("indexing", f"{PYLIB} __getitem__"), ("totals", f"{PYLIB} PyData")],
     "arrays returned to Python",
     "The number of rows and every element are compared, under the path conditions of each kind of index, with "
     "those of the timestep meant.", note=PYNOTE, assumptions=PY)

prop("C45", "Grids made and read from Python are the ones asked for",
     "A Python Grid is made of the kind, cells, limits and axis order named, or with the limits of the recording "
     "given. Its readings (values, cell counts, limits, positions, slices, projections, norms, components) are those "
     "of the grid it holds, of the axis and index given, and reading changes nothing; removing outliers changes "
     "that grid by the mode and threshold given. The quick plot shows values against the two remaining axes.",
     "all grids, axes, indices and settings",
     "Swapped cells, limits or axes fit every signature and cancel out in the symmetric grids of tests.",
     [PYGRID], [("making", f"{PYGRID} PyGrid constructors"), ("reading", f"{PYGRID} PyGrid, PyVecGrid methods")],
     "grids, arrays and figures returned to Python",
     "The value each method returns is compared with the construction or reading it is named after, of the "
     "object's own grid and the extracted arguments.", note=PYNOTE, assumptions=PY)

prop("C46", "Figures asked for from Python show the grid, plane and style asked for",
     "A plotting method of the Python class Plotter2D draws the grid the object holds, along the axis given: the "
     "depth average, or the plane of the index given. Arrow scaling and sizes, colour maps, numbers of contours and "
     "the grid compared with are those given; an explicit size of contours spans the values shown. Each colour map "
     "is found under its own name, what is drawn is kept to be shown, and drawing leaves the grid as it is.",
     "all grids, axes, selections, indices and styles",
     "Figures are looked at, not asserted on; options of the same type that are swapped draw plausible figures.",
     [PYPLOT], [("figures", f"{PYPLOT} PyPlotter2D"), ("colours", f"{PYPLOT} get_gradient")],
     "figures kept to be shown",
     "The traces of the kept figure are compared, for each selection, with the plot of the named kind made from "
     "the object's grid and the extracted arguments.", note=PYNOTE, assumptions=PY)

prop("C47", "Converting from Python converts the files asked for, as asked",
     "Each method of the Python class Converter runs the conversion it is named after on the files, output, columns, "
     "times and settings given. Files for visualisation are read as legacy text, unstructured grids or polygons by "
     "the extension in the filter, each quantity from the field named for it, and a diameter field is used instead "
     "of the radius field when named. A folder is converted as its files of such an extension, without bounding "
     "boxes, in natural order of their names. An even number of sampling steps is refused, nothing else is.",
     "all arguments, folders and file names",
     "Conversions write files no test reads back, and text arguments that are swapped fit every signature.",
     [PYCONV, "src/converter.rs"],
     [("choice of the conversion", f"{PYCONV} PyConverter"),
      ("folders", "src/converter.rs write_hdf5_from_folder")],
     "conversions started",
     "Every conversion a method can start is found with its path condition; for each kind of file exactly one "
     "must be reached, with the extracted arguments in their places.", note=PYNOTE, assumptions=PY)

prop("C48", "Arguments left out have their documented values",
     "An argument of a Python method that the documentation calls optional may be left out, and is then what the "
     "documentation says: for conversions, granular temperature, circulation times, cylindrical grids and the quick "
     "plot of a grid.",
     "all calls that leave arguments out",
     "Tests pass what they need; a default that differs from the documentation gives plausible results.",
     [PYLIB, PYGRID, PYCONV], [("defaults", f"{PYLIB}, {PYGRID}, {PYCONV}: signatures")],
     "values used for arguments left out",
     "The value each signature supplies for an argument left out is computed and compared with the documented "
     "one.", note=PYNOTE, assumptions=PY)


# ---------------------------------------------------------------- converting files
CONV = "src/converter.rs"
TOOLS = "src/converter/convertertools.rs"
FILES = "src/converter/csv_modes/csv_multi_file_time_step.rs"
VTKS = ["src/converter/legacytools.rs", "src/converter/xmltools.rs"]
FORMAT = LIBS + ("Files can be read and written; refusals the format libraries make are not modelled.",)

prop("C49", "Converting VTK files keeps every particle of every file, with its own values",
     "Each VTK file given becomes the timestep of its place in the list, at the number the filter finds in its name "
     "times the timestep. Every particle of it is recorded once, in the order of identifiers, with the position, "
     "velocity, radius (or half its diameter) and type that belong to that identifier. A folder is converted as its "
     "VTK files in natural order of names. Lists without files, times that go back and missing field names are "
     "refused, and naming a field affects no other.",
     "all lists and folders of files, field names and orders of particles",
     "Tests convert one small data set whose identifiers are already in order; a quantity that is not reordered with "
     "them differs only elsewhere.",
     [CONV, TOOLS], [("records", f"{CONV} LegacyVTKConverter, XMLVTKConverter: write_hdf5"),
                     ("folders", f"{CONV} write_hdf5_from_folder"),
                     ("order", f"{TOOLS} make_sortlist, sort_by_array")],
     "what is written to the output file for each input file",
     "Every dataset written is traced to the loop, the file and the reordering its values come from; each value of a "
     "particle is compared with the field's value at the place its identifier takes.", assumptions=FORMAT)

prop("C50", "A field read from a VTK file is the one of that name, complete",
     "Reading a field of a VTK file gives the values of the point data of exactly the name asked for, of every piece "
     "of a modern file and of the only piece of a legacy file, in the order of the file; reading positions gives the "
     "points. Files of another kind than asked for are refused, and so are legacy files without the field.",
     "all files, field names and kinds of data",
     "The sample files have one piece and fields whose names do not resemble each other.",
     VTKS, [("legacy files", f"{VTKS[0]} get_field, get_positions"), ("modern files", f"{VTKS[1]} get_field, get_positions")],
     "values read from a file",
     "The list each reader returns is traced to the pieces and attributes of the file model, with the condition "
     "under which an attribute is taken.", assumptions=FORMAT)

prop("C51", "Totals recorded for converted VTK files are those of all their particles",
     "The extents, velocity extremes, speed extremes and means recorded for converted VTK files are gathered from "
     "every particle of every file; times, number of timesteps and list of times are those of the files, and the "
     "number of particles recorded is at least that of every file.",
     "all lists of files", "Extremes of one file, or of all but the last, agree in a small sample.",
     [CONV], [("totals", f"{CONV} LegacyVTKConverter, XMLVTKConverter: write_hdf5")],
     "attributes written to the output file",
     "Each total is resolved to the nested loops that gather it; start, ranges and the step of one particle are "
     "compared with those of an extreme or sum.", assumptions=FORMAT)

prop("C52", "Converting a trajectory keeps its rows, in order of time",
     "A csv file of one trajectory is read with the columns, delimiter, header and comment given and put in order of "
     "time if it is not. Every row later than the last row kept is recorded, its time, position and velocity at the "
     "same next place; other rows leave no trace. Every array has one value per row kept; extents, velocity and speed "
     "extremes, means and times are those of the rows kept. Files without velocities are refused unless they are to "
     "be derived.",
     "all files, columns and settings, with and without derived velocities and interpolation",
     "Tests convert files without duplicate or early times, where an index that is off after a dropped row is right.",
     [CONV, TOOLS], [("rows and totals", f"{CONV} csv_converter"), ("order of rows", f"{TOOLS} sort_by_column, is_sorted")],
     "what is written to the output file",
     "Arrays written are resolved to the loop over rows; its keep condition, the place of a row (one more than the "
     "rows kept before, by induction over the loop) and the step of each total are compared with those stated.",
     assumptions=FORMAT)

prop("C53", "Derived velocities are slopes of a curve through the surrounding positions",
     "Each derived velocity component is the slope, at the time of its row, of the polynomial of the degree asked for "
     "through that coordinate of the rows around it, as many on either side; times and positions of the row stay as "
     "they are. There is one row for every row with enough neighbours, and even numbers of rows are refused.",
     "all trajectories, numbers of steps and degrees",
     "Uniform motion, which samples use, has the same slope everywhere, whichever rows are taken.",
     [TOOLS], [("derivation", f"{TOOLS} velocity_polynom")], "rows returned",
     "The value of every column is compared with the slope of the fit found in it; the fit's inputs are compared "
     "with the rows around.",
     assumptions=("polyfit returns the coefficients of a polynomial through the points, constant first.",))

prop("C54", "Interpolated rows are evenly spaced and lie between measured ones",
     "Interpolation returns as many rows as asked for, the first and last as measured, the others a constant time "
     "apart; each interpolated position lies, in all three coordinates, on the line through the same two measured "
     "rows of different times, or is unknown. Rows that are not in order of time are refused.",
     "all trajectories and numbers of rows",
     "Evenly sampled input, which tests use, hides wrong spacing and mixed rows.",
     [TOOLS], [("interpolation", f"{TOOLS} interpolate, interpolate_step")], "rows returned",
     "The places a round of the loop writes and their values are compared with the line through the two rows they "
     "refer to.", assumptions=())

prop("C55", "A list of csv files becomes one timestep per file",
     "Each csv file of a list becomes the timestep of its place, at the time given for it, with every row's identifier, "
     "position and velocity from the columns named and the radius given. Extents, extremes, means, times and number "
     "of timesteps are those of all rows of all files, and the number of particles recorded is at least that of every "
     "file. Other numbers of columns than four or seven are refused.",
     "all lists of files, times, columns and settings",
     "Files of a test have equal numbers of rows and columns in the standard order.",
     [FILES], [("conversion", f"{FILES} csv_multi_file_time_step")], "what is written to the output file",
     "Every dataset and total written is resolved to the loops over files and rows and compared, for four and for "
     "seven columns, with the column it is named after.", assumptions=FORMAT)

SEVERAL = "src/converter/csv_modes/csv_multi_idline.rs"
CHAIN = "src/converter/csv_modes/csv_multi_chain.rs"
prop("C56", "Trajectories of several particles are recorded whole, particle by particle",
     "Converting one csv file with the trajectories of several particles records each particle as one of its own, "
     "numbered from zero, with an identifier of its own and the radius given: the time, position and velocity of each "
     "of its rows, one after the other, leaving out (without a gap) rows no later than the one kept before. Extents, "
     "times, extremes and means are those of the rows kept of all particles, the number of particles is how many were "
     "recorded, and the number of timesteps is the most rows of any of them.",
     "all csv files, columns and settings, interpolated or not, with velocities given or derived, particles told apart "
     "by identifier or by time starting anew",
     "A test has a few particles with equal numbers of rows and distinct times.",
     [SEVERAL, CHAIN], [("by identifier", f"{SEVERAL} csv_multi_idline"), ("one after the other", f"{CHAIN} csv_multi_chain")],
     "what is written to the output file",
     "Every dataset and total written is resolved to the loops over particles and their rows: arrays are followed by "
     "induction over the rows kept, totals over both loops, whatever the rows of a particle are (C57 says which).",
     assumptions=FORMAT)
prop("C57", "Rows of a csv file go to the particle they belong to",
     "Where a csv file of several particles names them in its identifier column, the rows with one identifier are those "
     "of one particle, in order of time and particles in order of identifiers. Where particles follow one another, each "
     "goes from where time starts anew to where it does again, and those with ten rows or more are kept. Rows are read "
     "from the columns asked for; interpolated, all particles are spread over the time of the one that lasts longest, in as many rows; derived "
     "velocities are those of the rows so prepared. The mode named decides which way a file is read.",
     "all csv files, columns and settings", "A test has two particles in a convenient order.",
     [SEVERAL, CHAIN, CONV], [("modes", f"{CONV} csv_multi_converter"),
                        ("by identifier", f"{SEVERAL} csv_multi_idline, sort_by_id, remove_columns"),
                        ("one after the other", f"{CHAIN} csv_multi_chain")],
     "the rows recorded for each particle",
     "The rows of a particle are traced back through derivation, interpolation and ordering to the rows read; the loops "
     "that hand out rows by identifier, count them and make room for them are decided by induction over one round each, "
     "the places where time starts anew as the list of rows earlier than the row before.", assumptions=FORMAT)

PYTHON_FLOW = ("value flow through the syntax tree of the Python source, one walk for every way undecided conditions can "
               "come out, for every combination of arguments given and left out; quotients compared as rational functions")
prop("C58", "A Grid asked for in Python covers what it is asked to, in as many cells",
     "Grid(...) makes a grid of the style named, with the limits given, or those given for single axes and the extents of the "
     "recording along the others; where a recording alone is given, the grid is of that recording. It has the number of "
     "cells given or, for a cell size, along each axis the number of whole cells of that size between its limits. A grid "
     "without a recording is refused when axes are left without limits or limits are given twice, and so is an unknown style.",
     "all combinations of arguments, all limits, sizes and recordings",
     "There are 64 combinations of arguments for each style, each with its own path; tests use the recording alone.",
     ["up4/grid.py"], [("limits", "up4/grid.py Grid.__new__"), ("cells of a size", "up4/grid.py calc_num_cells")],
     "the grid returned: its limits and numbers of cells",
     "Every path through Grid.__new__ is followed for each combination of arguments given and left out; the call that makes "
     "the grid has to receive the limits, cells and recording that follow from the statement.",
     technique=PYTHON_FLOW, note="Rounding of the quotient of extent and cell size is outside the comparison.",
     assumptions=["A recording answers min_position() and max_position() the same way every time; numpy keeps values it is "
                  "handed as they are, or cuts them to whole numbers."])
prop("C59", "Figures asked for in Python are the ones drawn",
     "A method of Plotter2D draws the figure of its name, of the grid the plotter was made of, with the axis, selection, "
     "index, scaling, sizes and colours asked for, and returns it in the style and layout given. A request that names an "
     "axis, selection, scaling mode or colour map that does not exist, leaves out the index or size its mode needs, or asks "
     "for arrows of a scalar grid, is refused before anything is drawn; no other is. A saved figure is as wide as the text "
     "between the borders of the paper at the resolution asked for.",
     "all requests", "Every method repeats the same arguments by hand, in calls that accept any of them.",
     ["up4/plotting.py"], [("methods", "up4/plotting.py Plotter2D"), ("validation", "up4/plotting.py Plotter2D._validate_input"),
                           ("saving", "up4/plotting.py save_fig")],
     "the drawing call made, the figure returned, the refusal raised",
     "Every method is followed for each kind of grid and each class of arguments (each mode, with and without sizes, each "
     "colour map of the Rust side, unknown names): what reaches the drawing operation is compared with the names of its "
     "arguments on the Rust side.", technique=PYTHON_FLOW,
     assumptions=["plotly_update takes the style of traces first and the layout second, as plotly documents."])
TD, PD = "src/datamanager/tdata.rs", "src/datamanager/pdata.rs"
prop("C60", "What a recording says of itself is what it holds",
     "The summary of a recording, and its text in Python, gives for every axis the least and greatest position and their "
     "difference, and the latest time, the numbers of particles and timesteps, and the least, mean and greatest speed it "
     "records, each under its name. An angle set for an axis is remembered for that axis alone, and the anchor as set; both "
     "are part of the summary exactly while some angle is not zero.",
     "all recordings, angles, axes and anchors, in any order of setting them",
     "Tests print summaries without reading them; no test sets an angle.",
     [TD, PD, PYLIB], [("summaries", f"{TD} info, {PD} info"), ("turns", f"{TD} set_rotation_angle, set_rotation_anker, {PD} likewise"),
                       ("Python", f"{PYLIB} Data.__str__, __repr__")],
     "the text returned, and the angles and anchor afterwards",
     "The text is taken apart into lines; the values that flow into a line are compared with the totals its words name. "
     "What is held after setting an angle or the anchor is compared with what was held before.",
     note="Which words and how many digits are used is left open.", assumptions=LIBS)

prop("C61", "What a grid says of itself is what it holds",
     "The text of a grid, in Python and in Rust, gives its numbers of cells and the lower and upper limit of each axis, and the "
     "mean, standard deviation, least and greatest of its values, each under its name; cells that hold no number count for "
     "nothing. The text of a field of vectors gives the cells and limits all its components share, and "
     "in Rust the mean of each component under its own number. Asking for the text of a grid of numbers never fails.",
     "all grids of any shape, limits and values, of both coordinate systems",
     "No test looks at the text of a grid.",
     ["src/pylib/libgrid.rs", CART, CYL, VEC],
     [("Python", "src/pylib/libgrid.rs Grid and VectorGrid __str__, __repr__"), ("Rust", f"{CART}, {CYL}, {VEC} Display, Debug")],
     "the text returned or written",
     "The text is taken apart into lines; the values that flow into a line are compared with what the grid holds of what its "
     "words name, and the statistics with the operations decided by C19.",
     note="Which words are used, and whether the statistics of a vector field in Python leave cells out, is left open.",
     assumptions=LIBS)
