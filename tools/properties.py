"""Text of the properties."""
P = {}
NA = {
    "P34": "Bounds a rounding error that depends on the cell's shape and the iteration history; the analysis treats floating point as real algebra (P10 and P11 decide the two formulas exactly in that algebra), and no static error bound in reach covers arbitrary quadrilaterals.",
    "P35": "A statement about the geometry of arbitrary folded or holed boundaries (whether the first halving segment found splits the interior so that both halves contain what belongs to them); P12 decides which segment is taken and what is built from it, but whether that choice is geometrically right for every boundary is a theorem about planar curves that no dataflow argument over the source yields.",
    "P36": "Termination and running time quantify over runtime quantities (tree depth after arbitrary insertion orders, geometry of boundaries, line counts); the analysis compares loops for their exit conditions and effects, not for progress.",
}


def prop(id, title, statement, quant, why, files, mech, over=("inputs",)):
    P[id] = dict(title=title, statement=" ".join(statement.split()), quant=" ".join(quant.split()), why=" ".join(why.split()), files=["gridutils/" + f for f in files], mech=mech, over=list(over))


T = "The 12 shell tests compare a few whole-file outputs on two small demo grids; "

prop("P01", "Validation keeps exactly the grid nodes that belong to a complete cell",
     """Validating a corner array turns a node into a missing node (both coordinates NaN) exactly when none of the up to four cells
     around it has its other three corners present; in a double-density array the same is done for cell corners, then edge nodes
     whose two end corners are not both present and centre nodes whose four corners are not all present become missing.
     Every surviving node keeps its coordinates bit for bit, and arrays of other kinds are only marked as validated.""",
     "every array size and every pattern of missing nodes, including 1-wide arrays and patterns at the borders",
     T + "none has an isolated node, a node hanging on one edge, or a one-cell-wide grid. The rule quantifies over all 2^(nx*ny) patterns.",
     ["gridnodes.c"], [("validation of double-density and corner arrays", "gridutils/gridnodes.c: _gridnodes_validate, gridnodes_validate")])
prop("P02", "Double density to corner/centre conversion picks the right nodes",
     """Converting a double-density array gives, for corners, the nodes with both indices even, and for centres, the nodes with both indices odd,
     with array sizes (nx+1)/2 x (ny+1)/2 and (nx-1)/2 x (ny-1)/2; the source is validated first and otherwise left unchanged.
     Copying an array, converting it to the kind it already has, or converting it to no particular kind returns a new array of the same size, kind and
     map type holding the same coordinates.""",
     "every array size, coordinate values and missing-node pattern, every pair of source and target kinds",
     T + "they use fixed odd sizes and never look at a copy's independence or at the untouched source.",
     ["gridnodes.c"], [("conversion", "gridutils/gridnodes.c: gridnodes_transform, gridnodes_copy")])
prop("P03", "Corner to centre and double-density conversion averages neighbouring corners",
     """Converting a corner array to centres gives each cell the image of its middle under the index-to-position map of that grid (the mean of four corners);
     converting it to double density gives node (i,j) the image of index position (i/2, j/2): the corner, the mean of two or the mean of four.
     The result has (nx-1) x (ny-1) or (2nx-1) x (2ny-1) nodes and the requested kind; the source is validated first and otherwise left unchanged.""",
     "every corner array size, coordinates and missing-node pattern",
     T + "they run no corner input with holes through a conversion.",
     ["gridnodes.c"], [("conversion of corner arrays", "gridutils/gridnodes.c: gridnodes_transform")])
prop("P04", "Centre to corner/double-density conversion extrapolates from the nearest cell",
     """Converting a centre array to corners ((nx+1) x (ny+1)) or double density ((2nx+1) x (2ny+1)) gives each node the bilinear map of the complete cell of four present centres whose middle is nearest in index space, evaluated at the node's index position, so that a node that coincides with a centre gets its exact coordinates. A node whose nearest complete cell is not closer than 1.5 index units is missing, and the result is then validated as nodes of its kind. The result does not depend on anything but the input array: the order in which cells enter the search is fixed.""",
     "every centre array size, coordinates and missing-node pattern, including border and corner cells",
     T + "they do not convert centre input with holes or at concave borders, where the branches of the extrapolation are taken.",
     ["gridnodes.c"], [("conversion of centre arrays", "gridutils/gridnodes.c: gridnodes_transform, cen2cor, cen2dd")])
prop("P05", "Applying a mask removes exactly the masked cells",
     """Applying a cell mask to a double-density array makes every node missing that belongs to masked cells only as a validated array would
     have it: the centre nodes of masked cells vanish and then the corner and edge nodes that support no remaining cell vanish; on a centre array the masked
     centres vanish. No other node changes, and for corner or untyped arrays the request is refused with an error.""",
     "every mask, array size and missing-node pattern",
     T + "one mask case exists and it does not exercise masks at borders or masked cells next to holes.",
     ["gridnodes.c"], [("mask", "gridutils/gridnodes.c: gridnodes_applymask")])
prop("P06", "A subgrid is exactly the requested index window",
     """Extracting index ranges i1..i2 and j1..j2 gives an array whose node (i,j) is node (i1+i, j1+j) of the source, with size (i2-i1+1) x (j2-j1+1)
     and the source's kind, after clipping the ranges to the array; a window that covers the whole array gives a copy.
     An empty window is refused with an error; the source is not modified.""",
     "every pair of index ranges, in or out of bounds, for every array size",
     T + "the subgrid case uses one in-range window.",
     ["gridnodes.c"], [("subgrid", "gridutils/gridnodes.c: gridnodes_subgrid")])
prop("P07", "Inserting a grid overlays it at the given offset, merging where asked",
     """Inserting a slave grid into a master grid at offset (i0, j0) writes a validated grid just large enough for both: node (i,j) is the slave's
     node (i-i0, j-j0) where the slave covers it, otherwise the master's node (i,j) where the master covers it, otherwise missing. In merge mode
     a missing slave node leaves the master's node under it in place. No node outside of either array is ever read, and all three grids are released. (What the library operations themselves do is the subject of the other properties.)""",
     "every pair of grid sizes, offsets (not negative), missing-node patterns and both modes",
     T + "insertgrid is run once, with one slave grid at one offset inside of the master and without checking what lies past the covered range.",
     ["insertgrid.c"], [("combination", "gridutils/insertgrid.c: main")])
prop("P08", "Reading a grid file places every line at its node",
     """Reading a grid file requires the header with the two sizes, both at least 1, of product not above INT_MAX and odd for double density, and then
     puts the k-th following line at node (k mod nx, k div nx). A line that does not carry two numbers, or carries a NaN, gives a missing node with both coordinates NaN;
     a missing header, an invalid size or a file with too few lines is refused with an error, whether the source is a file, "-" or "stdin".""",
     "every input text and array kind",
     T + "they read well-formed files only.",
     ["gridnodes.c", "gucommon.c"], [("grid file reader", "gridutils/gridnodes.c: gridnodes_read")])
prop("P09", "Writing a grid emits every node once, in row order, re-readably",
     """Writing an array emits the header with its sizes and then one line per node in row order: both coordinates, x only or y only, with 15 significant digits,
     or NaN in each column for a missing node. The output goes to the named file (closed afterwards) or to standard output when so named, and nothing else is written there.""",
     "every array, coordinate choice and destination",
     T + "they compare a few complete outputs, all from one writer mode with few missing nodes.",
     ["gridnodes.c"], [("grid writer", "gridutils/gridnodes.c: gridnodes_write")])
prop("P10", "Index-to-position mapping is the bilinear image of the cell",
     """Mapping fractional indices (i,j) of a grid map to a position succeeds exactly when both are numbers and lie within [0,nce1] x [0,nce2], and gives the bilinear
     interpolation of the four corners of the cell at the fractional offset within it; an integer index uses the nodes of that row or column only, so that two integer indices give
     the node itself. An index below or above its range is first moved to 0 or to 1e-8 below the upper end, and the position there is given although failure is reported. An index that is
     not a number gives NaN coordinates and failure. This holds for both kinds of map.""",
     "every map of either kind and every pair of doubles, including NaN, infinities, integers and borders",
     T + "they sample a few points per grid in the interior.",
     ["gridmap.c"], [("index to position", "gridutils/gridmap.c: gridmap_fij2xy")], ("inputs", "numeric"))
prop("P11", "Position-to-index mapping returns the inverse bilinear image of the found cell",
     """Mapping a position to a cell answers with the cell found by the map's search structure; a position with a coordinate that is not finite is in no cell. Fractional indices are that cell's
     integer indices plus the offsets (u,v) that solve the bilinear equations of the cell for the position: u is the (first order) linear root when the quadratic coefficient is below 1e-5, and
     otherwise the root of the branch that was chosen, by the smaller distance of its (u,v) from the unit square, for the first position of that map that needed it; v comes from the coordinate whose
     denominator is larger. Both are clamped to [0, 1 - 1e-8]. A position outside every cell reports failure with NaN indices. This holds for both kinds of map.""",
     "every cell geometry, every position, both map kinds",
     T + "round trips are run on well-shaped cells only; degenerate, sheared and mirrored cells take other branches.",
     ["gridmap.c"], [("position to index", "gridutils/gridmap.c: gridmap_xy2ij, gridmap_xy2fij")], ("inputs", "numeric"))
prop("P13", "Point-in-polygon agrees with the crossing rule, edges and vertices inside",
     """A point is inside a polygon of two or more vertices (implicitly closed) exactly when it lies within the bounding extent and either lies on an edge or vertex, or the horizontal ray to its right crosses
     the boundary an odd number of times, where a vertex on the ray counts half with the sign of the edge's vertical direction. Closedness and vertex search are exact comparisons as documented.""",
     "every polygon (any number of vertices, self-touching, with edges on the ray) and every point",
     T + "only points in general position of two demo boundaries are ever tested.",
     ["poly.c"], [("point in polygon", "gridutils/poly.c: poly_containspoint, poly_isclosed, poly_findindex")])
prop("P14", "The kd-tree returns the true nearest point and all points in range",
     """A point inserted into a kd-tree descends from the root, left when smaller in the splitting direction of a node and right otherwise, directions
     alternating with depth, and becomes a leaf with the next number; the bounding box follows. Bulk insertion takes the points in order, or in a
     shuffled order that depends only on their number, and keeps their original positions. The search for the nearest point skips a subtree only
     if the box of that subtree is not closer than the best point found so far, and leaves its working box as it found it; an empty tree has no
     nearest point. The range search visits every subtree whose half-space meets the ball and reports each point within the given distance once, with its
     squared distance, in order of distance if asked for. Growing and releasing the tree lose nothing.""",
     "every tree shape, dimension count, number of points, growth history and query position",
     T + "only one grid is searched through a kd-tree; ties, growth beyond the first allocation, empty trees and pruning errors that need a particular layout never occur.",
     ["kdtree.c"], [("insertion", "gridutils/kdtree.c: kd_insertnode, kd_insertnodes"), ("searches", "gridutils/kdtree.c: kd_findnearestnode, kd_findnodeswithinrange")], ("inputs", "histories"))
prop("P15", "The kd-tree grid map finds the cell around the nearest grid node",
     """Building the map inserts all nodes of the corner array, shuffled, into a two-dimensional tree and remembers the arrays and the number of cells
     (nodes minus one). Looking up a position outside the bounding box of the present nodes finds nothing; otherwise the up to four cells that share the nearest
     node are tried in row order, cells with a corner that is not finite are skipped, and the first one whose closed outline contains the position by the
     crossing rule is returned. The index outputs are written only on success, no other state changes, and destroying the map releases its tree and itself.""",
     "every grid size, coordinate set, missing-node pattern and query position, including nodes on the grid border",
     T + "only two runs use this map, on one grid.",
     ["gridkmap.c"], [("lookup", "gridutils/gridkmap.c: gridkmap_build, gridkmap_xy2ij")])
prop("P16", "The grid boundary is traced along present nodes, leftmost turn first",
     """The boundary of a corner array starts at its first present node in row order, heading for the next row; at every node it turns as far left as a
     present neighbouring node allows, then straight, then right, and stops at the start node or in a dead end. Every visited node is added, in
     coordinates or as its indices, no missing or out-of-array node ever is, and the result is closed. An array without present nodes gives an empty boundary.""",
     "every array size and missing-node pattern, including single nodes, one-wide strips and holes",
     T + "getbound runs on one grid, whose boundary never dead-ends.",
     ["poly.c"], [("boundary tracing", "gridutils/poly.c: poly_formbound, poly_formboundij")])
prop("P17", "Polyline operations keep vertices, size, capacity and extent consistent",
     """Creating, adding, inserting, appending, deleting, copying, closing, reversing, resampling, despiking, compacting, reading and writing a polyline produce exactly the vertex sequence each one documents,
     never write outside the allocated storage, keep the vertex count and capacity in step with it, and leave the extent equal to the bounding box of the vertices whenever the operation maintains it;
     NaN vertices are refused with an error, area is positive for counterclockwise polygons, and a written polyline is a header line followed by its vertices with 15 digits.""",
     "every polyline, index and tolerance",
     T + "no test calls the polyline library directly, and several of its operations are used by no tool.",
     ["poly.c"], [("polyline operations", "gridutils/poly.c")])
prop("P30", "A grid map holds the node arrays it was built from and releases what it owns",
     """Building a map over corner arrays records the numbers of cells (nodes minus one), the arrays themselves, no sign yet, and the search structure selected by the requested kind (the binary tree by default, no other value accepted);
     the reported cell counts are those of that structure; destroying the map destroys its search structure and the map once, and never the caller's arrays.""",
     "every array size and map kind",
     T + "they never build both kinds over one array nor observe ownership.",
     ["gridmap.c"], [("construction and destruction", "gridutils/gridmap.c: gridmap_build, gridmap_build2, gridmap_destroy, gridmap_getnce1, gridmap_getnce2")])

prop("P28", "Grid statistics and reported cell counts cover exactly the complete cells",
     """For corner nodes the statistics run over the cells whose four nodes are all present: the deviation from orthogonality is the absolute difference from 90 degrees of the angle between
     the two sides meeting at each of the four corners, and its maximum (with the first cell, in row order, that attains it) and its mean are kept; the aspect ratio of a cell is the ratio, at
     least one, of the lengths of its two mid-lines, kept likewise; the mean cell size averages opposite side lengths. Unvalidated nodes are validated first, double density nodes are
     measured on their corner nodes, other types get no statistics, earlier results are replaced. In verbose mode these values, and after validation of corner nodes the number and share of
     complete cells, are what is reported.""",
     "every array size, node content and verbosity",
     T + "no test looks at statistics.",
     ["gridnodes.c"], [("statistics", "gridutils/gridnodes.c: gridnodes_calcstats, gridnodes_calcstats_cor, gridnodes_validate")])
prop("P29", "A mask file gives each cell the 0 or 1 of its line, or is refused",
     """Reading a mask of nx by ny cells (from standard input for "stdin" or "-", otherwise from the named file, which is closed again) takes one line per cell in row order: "0" masks the
     cell and "1" keeps it, whether or not the line is ended by a newline; a missing line or any other text is an error exit. In verbose mode the number and share of kept and masked cells
     are reported.""",
     "every file content and mask size",
     T + "they read a single well-formed mask.",
     ["gucommon.c"], [("mask reader", "gridutils/gucommon.c: gu_readmask")])
prop("P24", "In the library, verbose mode changes nothing but the text on standard error",
     """In the library, verbosity only adds text to standard error: no result, stored value, text written to a file or standard output, error exit, or memory taken or released depends on
     gu_verbose, and the library never changes it.""",
     "every library function, every input, every value of gu_verbose",
     T + "they never run the same case in both modes and compare.",
     ["gucommon.c", "gridnodes.c", "poly.c", "gridmap.c", "kdtree.c"], [("verbose mode", "gridutils/*.c: every use of gu_verbose")])
prop("P25", "Results depend on the inputs only: no hidden state, clock or unseeded chance",
     """The library keeps no state of its own between calls: no function writes static storage (other than the setter of the error handler its handler) or hands out its address. Neither the library
     nor the programs ask the clock, the environment, the process or the locale, and pseudo-random numbers are drawn only after seeding with a constant on every path. Hence equal calls on equal
     inputs give equal results, in any order and any number of maps at a time.""",
     "every sequence of library calls, every run of a program",
     T + "they run each program once, in one environment.",
     ["gucommon.c", "gridnodes.c", "poly.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c"], [("hidden state", "gridutils/*.c: static storage, calls of the C library, srand48() and drand48()")])
prop("P26", "Errors end through one replaceable handler that reports and exits with 1",
     """No library function ends the process other than through gu_quit. That handler is the function last given to gu_setquitfn, which nobody else changes, and before that a function which lets
     out what was written to standard output, writes the error message with its arguments to standard error, marked as an error of gridutils, and exits with status 1. Every error message, and every
     formatted line read or written by the library and the programs, asks for exactly the types of the values handed to it.""",
     "every error exit of every library function and program, on any input",
     T + "they provoke no error at all.",
     ["gucommon.c", "guquit.h"], [("error exit", "gridutils/gucommon.c: gu_quit, gu_quit_def, gu_setquitfn"), ("reports", "every call of gu_quit in gridutils/*.c")])
prop("P31", "A matrix is one zeroed block whose rows are packed and do not overlap",
     """Allocating an nj by ni matrix of unit-sized elements takes one block holding nj row pointers and nj*ni elements, all zero; row j starts ni units after row j-1 and the first row right
     after the pointers, so element (i,j) is [j][i]; an empty size or failed request is an error exit; releasing it releases the block once. Opening a file returns the open file or is an
     error exit.""",
     "every size and element size",
     T + "they use a few sizes of doubles only.",
     ["gucommon.c"], [("matrices and files", "gridutils/gucommon.c: gu_alloc2d, gu_free2d, gu_fopen")])
prop("P18", "A cell average is the mean of exactly the points added to that cell",
     """Adding points adds each point's value once to the sum, and one to the count, of the cell the point maps to, in order, and ignores points that map to
     no cell. Asking for a value gives the sum divided by the count of the cell of the asked position, and missing (NaN) when the position is in no cell or
     its cell got no points. A new averager starts with zero sums and counts for every cell of the map, and destroying it releases its own
     storage but not the map. (What the library operations themselves do is the subject of the other properties.)""",
     "every map, every number and sequence of points, every position asked for",
     T + "no test builds or calls the averager at all.",
     ["gridaverager.c"], [("averager", "gridutils/gridaverager.c: ga_create, ga_addpoints, ga_getvalue, ga_destroy")])
prop("P19", "setbathy replaces exactly the lines of the chosen index range",
     """setbathy copies the skipped leading lines, takes the size from -d or else from the header line (which is not copied), and then copies one line per node in row order, replacing by the given value exactly the lines whose (i, j) lies within both ranges (ends included, open where not given), and copies the rest of the input. It is refused with an error when a line is lacking, the header is not a size, or the size is not positive or too large.""",
     "every input text, size, offset, index range and value, from a file or standard input",
     T + "setbathy is not run by any test.",
     ["setbathy.c"], [("filter", "gridutils/setbathy.c: main")])
prop("P20", "xy2ij answers every input line in order with the mapped point or NaN",
     """xy2ij reads corner nodes (converting validated double-density nodes to corners first), builds the chosen kind of map over the cells of that grid, and
     for every input line, in order, prints: the two mapped numbers and the rest of the line when the point maps; NaN NaN and the rest
     when the mapping gives missing coordinates or when it fails and -f was given; the line itself when it does not begin with two numbers. Without -f a point that cannot be mapped
     ends the program with an error. -r maps indices to positions instead. The map and nodes are released. (What the library operations themselves do is the subject of the other properties.)""",
     "every grid and points text, every combination of options",
     T + "they map two points with two option settings and look at nothing but the numbers.",
     ["xy2ij.c"], [("conversion", "gridutils/xy2ij.c: main")])
prop("P21", "getnodes reads, validates, converts, masks and writes in that order",
     """getnodes writes what results from reading the nodes as the input kind, validating them, converting them when the output kind differs, then applying the mask (of
     the size of the converted grid in cells) if there is one, then unfolding longitudes if asked, in the requested coordinates. Unfolding goes up each column adding 360 degrees to
     a longitude that differs by more than 180 from the one below it, then makes missing every node whose right-hand neighbour is still more than 180 degrees away in longitude, or more than
     90 in latitude. Everything read or made is released. (What the library operations themselves do is the subject of the other properties.)""",
     "every grid, mask and option combination; every pattern of coordinates for unfolding",
     T + "four conversions are run on one grid, none with a mask or with -p.",
     ["getnodes.c"], [("pipeline", "gridutils/getnodes.c: main"), ("unfolding", "gridutils/getnodes.c: gridnodes_tweaknpolar")])
prop("P22", "getbound writes the boundary of the validated corner grid",
     """getbound reads corner nodes, or double-density nodes that it validates and converts to corners, traces the boundary of all its cells in coordinates or, with -r,
     in indices, compacts it with tolerance 1e-10 only when asked, writes it and releases everything. (What the library operations themselves do is the subject of the other properties.)""",
     "every grid and option combination",
     T + "one boundary of one grid is compared, without -r and -c together.",
     ["getbound.c"], [("pipeline", "gridutils/getbound.c: main")])
prop("P23", "The subgrid program writes the requested window of the file's nodes",
     """The subgrid program reads the nodes as they are (without validating them), cuts the requested index window, with open ends where no range was given, and writes it in the
     requested coordinates, releasing both grids. (What the library operations themselves do is the subject of the other properties.)""",
     "every grid, range and option combination",
     T + "one window of one grid is compared.",
     ["subgrid.c"], [("pipeline", "gridutils/subgrid.c: main")])
prop("P27", "Command lines: each option sets its own setting, bad ones are refused",
     """In all six programs each option changes only its own setting and consumes exactly its own argument, a later option overrides an earlier one, operands go where the usage says (and "-" names standard input where a file is expected), settings not mentioned keep their documented defaults, an option without its argument ends with an error or the usage, an unknown node type ends with an error, and an unknown option or a missing mandatory one prints the usage and does nothing else; -v alone prints the version.""",
     "every argument vector",
     T + "a dozen well-formed command lines; no malformed one, no repeated option.",
     ["insertgrid.c", "setbathy.c", "xy2ij.c", "getnodes.c", "getbound.c", "subgrid.c"], [("command lines", "gridutils/*.c: parse_commandline")])
prop("P33", "Node objects hold the given arrays, fill row by row, and report their sizes",
     """Creating a node object gives it the requested size and type, fresh zeroed (or the given) coordinate arrays, no statistics, not validated, and the default map kind; filling it point by
     point stores the k-th point in row k / nx, column k % nx and starts over after the last node; the accessors return the stored sizes, arrays and map kind; the number of cells each way is
     the node count for centre nodes, one less for corner nodes, half of one less for double density nodes, and an error exit for untyped ones; destroying it releases statistics, both arrays
     and the object once.""",
     "every size, type and fill position",
     T + "point-by-point filling and several accessors are used by no tool.",
     ["gridnodes.c"], [("node objects", "gridutils/gridnodes.c: gridnodes_create, gridnodes_create2, gridnodes_readnextpoint, gridnodes_destroy and accessors")])

prop("P12", "The subgrid tree halves boundaries and finds the leaf cell of a point",
     """Building the tree roots it at the boundary of the grid and halves every subgrid wider or higher than one cell along the middle grid line across its longer side, at the first boundary
     node of that line from which the line runs through the interior and the next boundary node on the line; each half carries its part of the boundary and the nodes of the cut, in order, and knows the index
     window of its vertices. A boundary vertex that is no grid node, or a cut that cannot be made, is an error. Once halved, a boundary is compacted. Searching
     descends from the trunk by testing the half with the shorter boundary and returns the lower corner of the window of the leaf; a point outside the trunk boundary has no cell. Every part of the tree is released
     exactly once; extent, sizes and node arrays are those given.""",
     "every grid, boundary shape, cut position and searched point; no bound on the depth of the tree",
     T + "one simply connected grid is searched, so most cut shapes, closed boundaries and error exits are never exercised.",
     ["gridbmap.c"], [("subgrid tree", "gridutils/gridbmap.c: gridbmap_build, gridbmap_subdivide, gridbmap_xy2ij, gridbmap_destroy")])

prop("P34", "Position and index mappings are inverse to each other up to rounding",
     """Mapping fractional indices inside a convex cell to a position and that position back gives the same indices up to a small multiple of the rounding error, for cells of any shape and position.""",
     "every convex cell geometry and every offset in it",
     T + "they compare mapped positions for two smooth grids only.",
     ["gridmap.c"], [("bilinear map and its inverse", "gridutils/gridmap.c: gridmap_fij2xy, gridmap_xy2fij")])
prop("P35", "A position is assigned exactly the cell that holds it on any valid grid",
     """For every grid whose cells do not overlap, a position is assigned a cell exactly when some present cell contains it, and then that cell, whatever the shape of the boundary (folds, holes, cells touching in a vertex).""",
     "every non-overlapping arrangement of cells",
     T + "the demo grids are smooth.",
     ["gridbmap.c", "gridkmap.c", "poly.c"], [("halving of boundaries", "gridutils/gridbmap.c: gridbmap_subdivide")])
prop("P36", "Every operation ends, in about linear time per grid and logarithmic per lookup",
     """Reading, validating, converting, mapping and writing end for every input, building a map takes time proportional to the grid size up to a logarithm, and a lookup visits a number of subgrids or tree nodes proportional to the depth.""",
     "every grid, insertion order and sequence of lookups",
     T + "they measure nothing.",
     ["gridmap.c", "gridbmap.c", "kdtree.c"], [("search structures", "gridutils/kdtree.c, gridutils/gridbmap.c")])
