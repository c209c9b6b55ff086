#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
G = "gridutils/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": [G + f for f in files],
         "mechanism": [{"name": n, "where": G + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": G + w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TESTS = "The test script maps six hand-picked points of one 98x79 grid and only checks exit codes and that its output files are non-empty"

prop("C01", "Default point location finds the cell containing the point, or reports outside",
 "For every grid of non-folded convex cells whose valid cells form one simply connected region, the default point location reports success for a point exactly when the point lies in the union of the valid cells, and the cell index it then returns is that of a valid cell containing the point. "
 "This holds for left- and right-handed grids, with cells from 1e-3 units across upwards, any coordinate offset and any shape of the valid region; only a point within rounding distance of a cell edge may be attributed to either side of that edge.",
 ["inputs"], "every simply connected valid region (full rectangles, L, U, spiral, comb, single rows, randomly grown), every node geometry with convex unfolded cells, every query point (interior, on nodes, on edges, just outside, far away, NaN, infinite)",
 TESTS + ", so which cell is returned is never compared with the geometry, and no other shape of region is ever mapped.",
 ["gridbmap.c", "gridmap.c", "poly.c"],
 [("recursive cut of the boundary polygon into a binary tree", "gridbmap.c:cut_boundary, subgrid_divide, gridbmap_subdivide"), ("descent by point-in-polygon tests", "gridbmap.c:gridbmap_xy2ij"), ("finite-input guard", "gridmap.c:gridmap_xy2ij")],
 ["gridmap_xy2ij with the binary map", "xy2ij output"])

prop("C02", "kd-tree point location: never a wrong cell, and finds it via the nearest node",
 "With the kd-tree map, on any grid of convex unfolded cells (including regions with holes, several components, or corner contacts), a reported cell is always a valid cell that contains the point, and points outside every valid cell are always reported as outside. "
 "Whenever the grid node nearest to the point is a corner of a valid cell containing the point, that cell (or another valid cell containing the point) is found, in particular at every node of a valid cell; points within rounding distance of a cell edge may be attributed to either side.",
 ["inputs"], "every pattern of valid and missing nodes, every node geometry with convex cells, every query point",
 "No test selects the kd-tree map at all.",
 ["gridkmap.c", "kdtree.c", "gridmap.c", "poly.c"],
 [("nearest node then test of the surrounding cells", "gridkmap.c:gridkmap_xy2ij"), ("shuffled insertion of nodes, node id to (i,j)", "gridkmap.c:gridkmap_build, kdtree.c:kd_insertnodes")],
 ["gridmap_xy2ij with the kd-tree map", "xy2ij -k output"])

prop("C03", "Physical -> index -> physical returns to the same point",
 "For every point that the grid map locates, the fractional indices returned lie inside the cell that contains the point (up to rounding, their integer parts are the indices of that cell, also on its far edges), and converting these fractional indices back to physical space returns the original point to within about 1e-7 of the cell size plus coordinate rounding; symmetrically, index -> physical -> index returns the original indices for interior points. "
 "The accuracy does not depend on the units of the coordinates (degrees, metres, cells from 1e-3 to 1e5 across), on large coordinate offsets beyond their rounding, on handedness, on the cells being parallelograms, trapezoids or general quadrilaterals, or on which map type is used.",
 ["inputs"], "every convex quadrilateral grid, both map types, every located point, all coordinate scales",
 TESTS + ": index values are never converted back and compared.",
 ["gridmap.c"],
 [("closed-form inverse bilinear map with choice of branch", "gridmap.c:gridmap_xy2fij, calc_branch"), ("forward bilinear map", "gridmap.c:gridmap_fij2xy")],
 ["gridmap_xy2fij followed by gridmap_fij2xy", "xy2ij | xy2ij -r"],
 [("branch sign", "which root of the quadratic is used, cached per map", "gridmap.c:struct gridmap.sign")])

prop("C04", "Index -> physical conversion is the bilinear map of the cell's corners",
 "Converting fractional indices within the grid gives the bilinear combination of the four corners of that cell: exactly the stored node at integer indices, the linear combination of two nodes along cell edges, continuous across cells, and finite whenever the nodes it depends on are valid, while a position interior to a cell with a missing corner gives not-a-number. "
 "Indices outside the grid or not-a-number are reported as failure, without reading outside the grid and without crashing; the former then give the nearest position within the grid, the latter not-a-number.",
 ["inputs"], "every grid incl. missing nodes and single-row/column grids, all fractional index pairs (interior, integer, boundary, beyond, huge, infinite, NaN), both map types",
 TESTS + "; only two interior index pairs are ever converted to physical space.",
 ["gridmap.c"], [("range trimming and bilinear evaluation", "gridmap.c:gridmap_fij2xy")],
 ["gridmap_fij2xy", "xy2ij -r"])

prop("C05", "A mapping answer depends only on the grid and the point, never on history",
 "The answer of a grid map to a query is the same whatever queries (successful, failing, on edges, NaN) were made before on that map, whatever other maps exist, were built, queried or destroyed meanwhile, and for a second map built from the same nodes; a failed lookup leaves no trace of an earlier answer in its results. "
 "Building, querying and destroying maps, and deriving copies, subgrids or transformed grids, never changes the coordinates of an already validated source grid, and derived grids do not share storage with their source.",
 ["histories"], "every interleaving of queries, builds, derivations and destructions over several grids and maps",
 "The tools used by the tests build one map and ask a couple of points; no history of more than three operations is ever run.",
 ["gridmap.c", "gridbmap.c", "gridkmap.c", "gridnodes.c"],
 [("cached branch sign", "gridmap.c:gridmap_xy2fij"), ("maps hold references to node arrays", "gridbmap.c:gridbmap_build, gridkmap.c:gridkmap_build"), ("deep copies", "gridnodes.c:gridnodes_copy, gridnodes_subgrid, gridnodes_transform")],
 ["gridmap_xy2ij / gridmap_xy2fij / gridmap_fij2xy answers over event histories"])

prop("C06", "Validation keeps exactly the nodes that belong to valid cells",
 "Validation of corner nodes keeps a node exactly when it is a corner of some cell whose four corner nodes are all present; for double-density nodes the same holds for the corner nodes, a centre node is kept exactly when it was present and its four corners are kept, and an edge node exactly when it was present and both end corners are kept; centre-type grids are left as they are. "
 "Kept nodes keep their coordinates bit for bit, dropped ones have both coordinates missing, and validating twice changes nothing.",
 ["inputs"], "every pattern of missing nodes on every grid size, for every node type",
 "One grid is validated and only the exit status and non-empty output are checked.",
 ["gridnodes.c"], [("validation rules", "gridnodes.c:gridnodes_validate_dd, gridnodes_validate_cor")],
 ["gridnodes_validate", "getnodes output"])

prop("C07", "Conversions from corner/double-density nodes preserve cells and coordinates",
 "Converting double-density nodes to corner (centre) nodes yields exactly the corner (centre) nodes of the validated grid; converting corner nodes to centres or double density gives the bilinear cell centres and edge midpoints, present exactly where the nodes they depend on are present, with original corners unchanged. "
 "Every conversion keeps the number of cells in each direction, converting corner to double density and back is the identity on a validated grid, and the source grid is not modified beyond its own validation.",
 ["inputs"], "every grid size (including single rows and columns of cells), every pattern of missing nodes (corner sources: any pattern with the kd-tree map; with the default map, which is documented to need a simply connected grid, other patterns may be refused), every target type, both library and command line",
 "The test script runs four conversions of one grid and checks only that the output files are non-empty.",
 ["gridnodes.c", "getnodes.c", "gridmap.c"], [("node type transformation", "gridnodes.c:gridnodes_transform")],
 ["gridnodes_transform", "getnodes -i -o"])

prop("C08", "Recovering corners or double density from cell centres",
 "Converting cell centres to corner or double-density nodes gives a grid with the same number of cells in each direction, where each node is obtained by evaluating (or extrapolating) the bilinear map of a nearest complete 2x2 block of valid centres, provided that block's middle is less than 1.5 index units away, and is missing otherwise or if validation drops it. "
 "Thus grids whose centres are an affine function of the index are recovered exactly up to rounding, nodes far from any complete block are missing, and a grid without any complete block gives an all-missing result instead of a failure.",
 ["inputs"], "every size of centre grid (including one row, one column, one cell), every pattern of missing centres, both targets",
 "One conversion of one fully regular case; recovered coordinates are never compared with anything.",
 ["gridnodes.c", "kdtree.c"], [("kd-tree of complete centre blocks in index space, bilinear extrapolation", "gridnodes.c:gridnodes_transform, fij2xy")],
 ["gridnodes_transform from centre nodes", "getnodes -i CE"])

prop("C09", "Applying a mask removes exactly the masked cells",
 "Applying a cell mask to a validated double-density grid makes the centre of every masked cell missing, keeps a corner node exactly if some adjacent cell still has its centre and the four corners rule of validation still holds, keeps the remaining nodes as validation does, and never invents or moves a node; for centre grids exactly the masked centres become missing. Only the value 0 masks a cell. "
 "A mask of all ones leaves a valid grid with all centres present unchanged, applying a mask twice equals applying it once, mask files are read in row order with 0 and 1 lines (the last line may lack its newline), and masks for corner grids, short masks and other values are refused.",
 ["inputs"], "every mask on every grid and pattern of missing nodes, library and command line",
 "No test uses a mask.",
 ["gridnodes.c", "gucommon.c", "getnodes.c"], [("mask application", "gridnodes.c:gridnodes_applymask"), ("mask reading", "gucommon.c:gu_readmask")],
 ["gridnodes_applymask", "gu_readmask", "getnodes -m"])

prop("C10", "The boundary polygon traces the outer boundary of the valid cells exactly once",
 "For a validated corner grid whose valid cells form a simply connected region without corner-only contacts, the boundary polygon is closed, each step joins two nodes adjacent in the grid along an edge with a valid cell on exactly one side, and every such edge is traversed exactly once, so the enclosed area is that of the union of the valid cells. "
 "The index-space boundary visits the same nodes in the same order as the physical one, an empty grid gives an empty boundary, and the printed boundary is this polygon.",
 ["inputs"], "every simply connected region incl. narrow channels, bays whose rims are adjacent nodes, single-row strips; both physical and index space; command line and library",
 "One boundary is extracted and only checked to be non-empty.",
 ["poly.c", "getbound.c"], [("right-hand walk along valid nodes", "poly.c:poly_formbound, poly_formboundij")],
 ["poly_formbound, poly_formboundij", "getbound output"])

prop("C11", "Compacting a polygon keeps its shape and leaves no redundant vertex",
 "Compacting a closed polygon or ring of more than four points returns a subsequence (up to rotation) of its vertices that encloses the same region, where every removed vertex coincides with or lies on the segment between its kept neighbours, and no kept vertex lies on the line through its kept neighbours; along a finely sampled curve the enclosed area changes by no more than about the tolerance per point. "
 "Grid boundaries and their compacted form therefore contain exactly the same points, in physical and in index space, and a compacted polygon can still be extended and queried.",
 ["inputs"], "every simple polygon incl. repeated points, collinear runs at any place including the start/end seam, closed and unclosed, at coordinate scales well above the tolerance",
 "One compaction of one index-space boundary, checked only for non-empty output.",
 ["poly.c", "getbound.c", "gridbmap.c"], [("removal of collinear and repeated vertices", "poly.c:poly_compact")],
 ["poly_compact", "getbound -c"])

prop("C12", "Point-in-polygon agrees with exact geometry",
 "For every simple polygon, closed explicitly or not, the containment test answers yes for every point strictly inside and for every point that coincides with a vertex or lies exactly on a horizontal or vertical edge, and no for every point strictly outside. "
 "The answer does not depend on the orientation, starting vertex, or explicit closure of the polygon; polygons with fewer than two points contain nothing, and one of two points contains its ends and nothing beside the segment. (Coordinates up to about 1e60, and no smaller than 1e-60 unless zero: products of coordinate differences must be representable.)",
 ["inputs"], "every simple polygon and every point, in particular points level with vertices, spikes and horizontal edges",
 "The containment test is only reached through six point conversions.",
 ["poly.c"], [("crossing count with vertex and edge cases", "poly.c:poly_containspoint")], ["poly_containspoint"])

prop("C13", "Polyline edits behave as a list of points with an exact bounding box",
 "After any sequence of polyline operations (append point, insert at position, append polyline, delete, clear, close, copy, reverse, resample, remove spikes, compact, write and read back) the polyline holds the points that a plain list would hold under the documented meaning of these operations, and its extent is exactly the bounding box of these points. "
 "Signed area is positive for counterclockwise and negative for clockwise polygons, closure and point search agree with the list, an insertion at a negative position does nothing, and appending adds all points of the source in order.",
 ["histories"], "every sequence of operations, with sizes crossing every reallocation boundary",
 "Most of these operations are library API that no test or tool calls.",
 ["poly.c", "poly.h"], [("dynamic arrays with extent tracking", "poly.c:poly_addpoint, poly_addpointat, poly_append, poly_deletepoint, poly_recalcextent")],
 ["state of the polyline after each operation"])

prop("C14", "kd-tree queries return exactly the nearest point and the points within range",
 "For any history of single and bulk insertions in any dimension, the nearest-node query returns a node at the minimum distance, and a range query returns exactly the nodes at distance less than or equal to the range, each once, with its true distance, in nondecreasing order of distance when ordered results were asked for, and an empty set for an empty tree. Results stay the same when they are read later, between other queries and insertions. "
 "Size, bounding box, stored coordinates and original identifiers match what was inserted, points whose first coordinate is not finite are ignored, and shuffled insertion changes none of the answers beyond the choice among equidistant nodes.",
 ["histories", "inputs"], "every insertion history (duplicates, collinear and lattice points, sizes across every reallocation threshold, 1 to 5 dimensions), every query",
 "The kd-tree is used by no test except once inside the centre-to-corner conversion; range queries are never run.",
 ["kdtree.c", "kdtree.h"], [("recursive insertion and pruned search", "kdtree.c:_kd_insertnode, _kd_findnearestnode, _kd_findnodeswithinrange"), ("growth of node storage", "kdtree.c:kd_insertnode, kd_insertnodes")],
 ["kd_findnearestnode, kd_findnodeswithinrange, kdset_read"])

prop("C15", "Subgrid extraction copies exactly the requested index window",
 "Extracting a subgrid with inclusive index ranges returns exactly the nodes of the window clipped to the grid, in order and unchanged, with the same node type, and with both ranges omitted returns the whole grid. "
 "A window that is empty after clipping, or reversed, is refused with an error, and never crashes or yields a grid of another size.",
 ["inputs"], "every grid and every window (inside, partly or fully outside, single row/column, reversed), library and command line, including coordinate-only output",
 "No test runs subgrid.",
 ["gridnodes.c", "subgrid.c"], [("window copy", "gridnodes.c:gridnodes_subgrid")], ["gridnodes_subgrid", "subgrid output"])

prop("C16", "Inserting one grid into another is exact overlay in index space",
 "Inserting a grid at a position (i, j) gives the smallest grid that covers both and starts at the master's origin (for a negative index, at the inserted grid): every position inside the inserted grid's window holds the inserted node, missing or not, every other position holds the master's node or is missing outside it; when merging, missing nodes of the inserted grid let the master's node through. "
 "No other node is affected; if a node type is given the result is then validated under that type, and a double-density result of even size is refused.",
 ["inputs"], "all pairs of grids and all positions (overlapping, adjacent, disjoint, larger than the master), insert and merge, with and without node type",
 "No test runs insertgrid.",
 ["insertgrid.c"], [("overlay loops", "insertgrid.c:main")], ["insertgrid output"])

prop("C17", "Setting values in an index window changes exactly those lines",
 "Setting a value in a data file replaces exactly the lines whose grid position lies within the inclusive index ranges (all lines if no range is given) by the given value, and passes every other data line, the skipped leading lines and all trailing lines through unchanged and in order (the header line that announces the size need not be repeated). "
 "It works the same for sizes taken from the header and from the command line, and input that is shorter than the grid, lacks a size, or lacks a value to set is refused with an error.",
 ["inputs", "configurations"], "every file content, grid size, window, offset and option combination",
 "No test runs setbathy.",
 ["setbathy.c"], [("line filter", "setbathy.c:main")], ["setbathy output"])

prop("C18", "Writing and reading grids loses nothing",
 "Reading a grid back after writing it reproduces every coordinate that has at most 15 significant digits exactly, and the position of every missing node; single-coordinate output lists the same values line by line. "
 "On input, a header with the dimensions followed by one line per node in row order is read so that node (i, j) gets line j*nx+i, extra columns are ignored, and a line that is blank, a comment, NaN in either column, or otherwise not two numbers marks the node as missing in both coordinates; filling a created grid point by point gives the same grid as reading the same points.",
 ["inputs"], "every grid size, coordinate values over the whole range of doubles with at most 15 digits, every pattern and spelling of missing nodes, all output modes, lines of up to 10000 characters, file or standard input",
 "The only input file has no comment or blank nodes in interesting places, and output values are never compared with input.",
 ["gridnodes.c"], [("text reader and writer", "gridnodes.c:gridnodes_read, gridnodes_write, gridnodes_readnextpoint")],
 ["gridnodes_read, gridnodes_write", "getnodes, subgrid output"])

prop("C19", "Reported grid statistics are the true ones",
 "The statistics reported in verbose mode equal those computed from the definition over all valid cells: maximum and mean deviation of the four corner angles from 90 degrees with the cell of the maximum, maximum and mean aspect ratio with its cell, mean cell size in both index directions, and the counts of grid nodes, of nodes invalidated in double density grids, and of valid cells. "
 "Statistics never alter the grid that is written.",
 ["inputs"], "every convex grid, every region, corner and double-density input",
 "The statistics are printed once by the tests and never compared.",
 ["gridnodes.c"], [("per-cell statistics", "gridnodes.c:gridnodes_calcstats_cor, dtheta")], ["getnodes -v on standard error"])

prop("C20", "No input makes the tools or the library violate memory safety",
 "For any input files and any command line options, no tool reads or writes outside its objects, uses freed or uninitialised memory, divides or converts with undefined behaviour, overflows signed integers, dies from a signal, or hangs: it either completes or stops with a diagnosed error. "
 "The same holds for library calls on grids of any size and pattern of missing nodes.",
 ["inputs", "configurations"], "arbitrary bytes as grid, point, mask, data and boundary files (valid, truncated, mutated, wrong sizes, huge numbers, NUL bytes, very long lines), arbitrary option combinations",
 "The tests feed one well-formed file; nothing malformed is ever given to any tool, and no sanitizer is used.",
 ["gridnodes.c", "gucommon.c", "poly.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c", "xy2ij.c", "getnodes.c", "getbound.c", "insertgrid.c", "subgrid.c", "setbathy.c"],
 [("input validation and error exits", "gridnodes.c:gridnodes_read, gucommon.c:gu_quit"), ("fixed-size line buffers", "gridnodes.c:gridnodes_read, xy2ij.c:main, gucommon.c:gu_readmask, poly.c:poly_read")],
 ["sanitizer reports and exit status of every tool run"])

prop("C21", "Bad input is refused, and success means complete output was delivered",
 "Input that cannot be processed as asked (missing or unreadable file, missing or malformed header, non-positive, oversized or even double-density dimensions, fewer lines than announced, invalid mask values, unknown node types, unconvertible points without -f) makes the tool exit with non-zero status and a message on standard error. "
 "Whenever a tool exits with status zero after processing input, its complete output has been delivered: if writing fails at any byte (full device, file size limit, closed descriptor) the exit status is non-zero, and the output delivered before the failure is a prefix of the complete output.",
 ["fault_sequences", "inputs"], "every kind of malformed input for every tool and option, and a write failure at every possible byte of the output",
 "Tests never provoke a failure of any kind.",
 ["gridnodes.c", "gucommon.c", "xy2ij.c", "getbound.c", "setbathy.c", "subgrid.c", "insertgrid.c", "getnodes.c", "poly.c"],
 [("error exit", "gucommon.c:gu_quit_def, gu_fopen"), ("output", "gridnodes.c:gridnodes_write, poly.c:poly_write")],
 ["exit status, standard output and standard error under injected faults"])

prop("C22", "Cell averaging conserves the data",
 "After adding any points in any number of batches, the value reported at a location is the arithmetic mean of the values of exactly those added points that the grid map places in the same cell as that location, and not-a-number if there are none or the location is outside the grid. "
 "Points outside the grid or with non-finite coordinates influence nothing, and the result does not depend on the order or batching of the points beyond rounding.",
 ["histories", "inputs"], "every grid, every multiset of points, every split into batches, both map types",
 "The averager is never linked or run by the tests.",
 ["gridaverager.c"], [("per-cell sums and counts", "gridaverager.c:ga_addpoints, ga_getvalue")], ["ga_getvalue"])

prop("C23", "Gridded bathymetry is the clipped cell average of the interpolated data",
 "For every grid, data, mask and options, the bathymetry tool prints one line per cell in row order: NaN for a cell that is masked or lacks a corner, otherwise the mean with two decimals of the n-by-n evenly spaced interpolated values in the cell, each limited to the given depth range, leaving out values that are not available, or NaN if none is. "
 "Evaluation positions are the bilinear images of the evenly spaced index positions (or these themselves in index-space mode, where data are first moved to index space and points outside the grid dropped), selecting one cell prints only that cell, and a cell outside the grid is refused.",
 ["inputs", "configurations"], "every grid, data set, mask, number of points per edge 1..10, depth range, interpolation rule, cell selection, physical and index space",
 "The tool cannot be linked in the test environment and is never run.",
 ["gridbathy.c", "gridaverager.c"], [("main cycle over grid cells", "gridbathy.c:main")], ["gridbathy output"])

prop("C24", "Point conversion is a faithful line-by-line filter",
 "The point conversion tool writes exactly one output line for each input line, in order: for a line starting with two numbers, the converted coordinates (as the library gives them for that point) followed by the rest of the line unchanged; for any other line, that line itself. "
 "With the force option a point that cannot be converted gives NaN NaN followed by the rest of its line, without it the tool stops there with an error after having written all previous lines; for a point file of any length the result for a line does not depend on the other lines. In verbose mode the numbers of points read, converted and not converted are reported as they are.",
 ["inputs", "histories"], "every sequence of point, comment, blank, text and unconvertible lines of up to 10000 characters, trailing columns, forward and reverse, both map types, file or standard input",
 "Six single-line conversions are run, with the result only required to be non-empty.",
 ["xy2ij.c"], [("conversion loop", "xy2ij.c:main")], ["xy2ij output against input"])

prop("C25", "Nothing leaks: memory and files are released over any library history",
 "Any history of creating, reading, copying, transforming, masking, subsetting, mapping, querying, averaging and destroying grids, maps, kd-trees, result sets and polylines, in which every created object is destroyed by its destructor, leaves no allocated memory and no open file behind. "
 "Successful and unsuccessful queries alike retain no memory, so memory use does not grow with the number of queries.",
 ["histories"], "every history of library operations, with success and failure paths of queries",
 "The tests run short-lived programs and never look at memory or descriptors.",
 ["gridmap.c", "gridbmap.c", "gridkmap.c", "gridnodes.c", "kdtree.c", "poly.c", "gridaverager.c", "gucommon.c"],
 [("destructors", "gridmap.c:gridmap_destroy, gridbmap.c:subgrid_destroy, gridkmap.c:gridkmap_destroy, kdtree.c:kd_destroy, kdset_free, poly.c:poly_destroy, gridnodes.c:gridnodes_destroy")],
 ["allocator state and descriptor table after each history"])

prop("C26", "Results are a function of the inputs alone",
 "Running any tool twice on the same inputs and options gives byte-identical output and the same exit status, whatever the previous contents of freshly allocated memory, the environment, the address layout, and whether input comes from a file or from standard input. "
 "Verbose mode changes nothing on standard output.",
 ["inputs", "configurations"], "every tool, option set and input, under differing heap contents and environments",
 "Each tool is run once, in one environment.",
 ["gridnodes.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c", "poly.c", "xy2ij.c"],
 [("fixed shuffle seed", "kdtree.c:shuffle, gridnodes.c:shuffle"), ("zeroed allocation", "gucommon.c:gu_alloc2d")],
 ["byte comparison of outputs of perturbed runs"])

prop("C27", "The polar tweak makes longitudes continuous and removes only seam nodes",
 "With the polar option, every node that survives keeps its latitude and its longitude modulo 360 degrees, no two present neighbours in a row differ by more than 180 degrees in longitude or 90 degrees in latitude, and along columns a westward wrap of more than 180 degrees is continued by adding 360. "
 "A node is removed only if it was missing already or the next node in its row is across such a seam, and a grid without any jump is written unchanged.",
 ["inputs"], "every grid in degrees, with and without date-line crossings, poles and missing nodes",
 "No test uses the option.",
 ["getnodes.c"], [("polar tweak", "getnodes.c:gridnodes_tweaknpolar")], ["getnodes -p output"])

prop("C28", "The kd search program reports the nearest point or all points in range",
 "For every file of points and all admissible options, the search program at the end of the kd-tree source reports the number of points read and, without a radius, a point at minimum distance, with a radius exactly the points at distance less than or equal to it, each once, in nondecreasing order of distance if sorting was asked for: their coordinates and distance to three decimals and their number in the order of the file, whether or not the points were shuffled. "
 "In geographic mode coordinates are longitudes and latitudes in degrees (any sign, any longitude) and distances are straight-line kilometres between points on a sphere of radius 6371 km. Comments and rows without enough numbers are skipped, points without a finite first coordinate are never reported, and missing, too few or too many coordinates, an inadmissible number of dimensions, a missing option value or an unreadable file are refused, without undefined behaviour.",
 ["inputs", "configurations"], "every point file in 1 to 8 dimensions and in geographic coordinates, with any separators, every place (also negative coordinates), every radius and every order of options",
 "The program is never built or run by the tests.",
 ["kdtree.c"], [("input, search and report", "kdtree.c:kd_readfile, parse_commandline, main (STANDALONE)"), ("search", "kdtree.c:kd_findnearestnode, kd_findnodeswithinrange")], ["output of kdtree.c compiled with -DSTANDALONE"])

prop("C29", "Command lines mean what they say or are refused",
 "For every tool, the order in which options are given, an option given twice with the same value, and the place of the file argument among the options change nothing in output or exit status. "
 "A command line with an unknown option letter, a surplus argument, a required argument left out, an option lacking its value, a text that is no range or number where one is expected, or a value outside what its option admits (an empty or reversed range, a size of zero, an unknown node type, a cell or a number out of bounds) never runs on other assumptions than those stated: the tool prints its usage or an error message and produces no data. "
 "Asking for the version or the description gives it with status zero.",
 ["inputs", "configurations"], "every tool, every admissible option set in every order, and every such command line made inadmissible in one place",
 "The tests use one fixed command line for each of a few options.",
 ["getbound.c", "getnodes.c", "insertgrid.c", "subgrid.c", "setbathy.c", "xy2ij.c", "gridbathy.c"], [("command lines", "*.c:parse_commandline, main")], ["output and exit status of variations of a command line"])

prop("C30", "The library keeps no state outside its objects",
 "Threads that work at the same time on grids, maps, averagers, trees and polylines of their own, or that query one map (cells from coordinates, coordinates from index positions), search one kd-tree, ask one polyline or read one grid together, get exactly the results each would get alone, whatever the interleaving, without data races. "
 "No library call disturbs the state the process shares with its caller: random number sequences, string tokenizing, locale, rounding mode, environment, working directory, file creation mask, signal handling, open descriptors, the standard streams, and the library's own two settings are after any history as they were before.",
 ["schedules", "histories"], "every interleaving of any number of threads carrying out library calls on separate objects or on objects shared for reading",
 "All tests run single-threaded tools and look only at their output.",
 ["gridnodes.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c", "poly.c", "gridaverager.c", "gucommon.c"],
 [("shuffling", "kdtree.c:shuffle, gridnodes.c:shuffle"), ("queries", "gridkmap.c:gridkmap_xy2ij, gridbmap.c:gridbmap_xy2ij, kdtree.c:kd_findnearestnode, kd_findnodeswithinrange, poly.c:poly_containspoint")],
 ["memory accesses of concurrent threads, results of library calls, state of the process"])

prop("C31", "Work grows no faster than the structures promise",
 "Reading, writing, validating, copying, converting, masking and subsetting a grid, its statistics, boundary, maps and averager take work proportional to the number of its nodes, up to a logarithmic factor; operations on polylines take work proportional to their length. "
 "Finding the cell of a point takes work at most proportional to the length of the boundary in the binary map and logarithmic on average in the kd-tree map, index positions are converted in constant time, and nearest and range searches of a kd-tree of shuffled or random points take logarithmic work on average plus the number of points found: with 16 times the cells or points, no operation takes more than a small constant factor above that.",
 ["inputs"], "every grid geometry, region and resolution, every polyline, and trees of points in sorted order inserted with shuffling or in random order",
 "The tests use three small grids and do not measure work.",
 ["gridnodes.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c", "poly.c", "gridaverager.c"],
 [("tree insertion and pruning", "kdtree.c:kd_insertnodes, _kd_findnearestnode, _kd_findnodeswithinrange"), ("storage growth", "kdtree.c:kd_changealloc, poly.c:poly_addpoint"), ("halving", "gridbmap.c:subgrid_divide, gridbmap_xy2ij")],
 ["basic blocks executed, allocations and memory moved, by instrumentation"])

prop("C32", "The library refuses misuse once, in words, and without harm",
 "A library call that cannot be carried out (missing, empty, short or malformed file, inadmissible sizes, index range or mask value, unknown map or node kind, NaN vertex, output that cannot be written) calls the quit function set by the caller exactly once, with a message naming what is wrong, writes nothing to standard output or error itself, and leaves the objects passed to it as they were and usable; a call that can be carried out never calls it. "
 "The default quit function ends the process with status 1, with the message on standard error and everything written to standard output before delivered.",
 ["inputs", "histories"], "every library call, every kind of inadmissible argument or file, and every history of such calls mixed with valid ones on the same objects, if the quit function does not return",
 "The tests never pass inadmissible input to the library.",
 ["gucommon.c", "gridnodes.c", "gridmap.c", "poly.c"],
 [("quit function", "gucommon.c:gu_quit_def, gu_setquitfn"), ("checks", "gridnodes.c:gridnodes_read, gridnodes_create, gridnodes_subgrid, gucommon.c:gu_readmask, gu_alloc2d, gu_fopen, gridmap.c:gridmap_build")],
 ["calls of the quit function, standard streams, contents of objects"])

prop("C33", "A grid object carries no hidden state: operations depend on its nodes only",
 "Whatever history a grid has (created and filled point by point, in part, over again or past the end; made from arrays; read; copied; cut; converted; validated; masked; examined; written; mapped; given a map type; refused an operation), every further operation gives exactly the results, reports, files and refusals that it gives for a newly made grid of the same node type, nodes and map type. "
 "No operation changes a grid other than the one it is documented to change; copies, windows and conversions live on after their source is destroyed, do not share nodes with it and inherit its map type. (Nodes changed directly through the arrays need a validation before the next operation.)",
 ["inputs", "histories"], "every history of operations on every set of grids",
 "The tests run each operation on at most one freshly read grid.",
 ["gridnodes.c", "gridmap.c"],
 [("hidden state", "gridnodes.c:struct gridnodes (validated, nextpoint, stats)"), ("operations", "gridnodes.c:gridnodes_copy, gridnodes_subgrid, gridnodes_transform, gridnodes_applymask, gridnodes_calcstats, gridnodes_readnextpoint, gridnodes_validate")],
 ["nodes of all live grids after every operation", "results, reports, files and refusals of twins"])

prop("C34", "The tools agree with each other: every route to a result gives the same",
 "The output of each tool is valid input to the others, and different routes to one thing give the same text: corner and double-density nodes of one grid have the same boundary, converted points and bathymetry, conversions between node types agree by every path, a window of a window is the window, a window put back where it was cut out gives the grid again, an inserted grid can be cut out as it was, inserting or merging twice equals once, and masks applied in turn equal their product and commute with conversion to centres. "
 "The boundary in indices converted to coordinates is the boundary in coordinates; points converted to coordinates and back return to their indices (in a window of the grid with its offset), and points in two files give what they give in one. "
 "Single columns make up the two-column output, the bathymetry of one cell is its line of the whole and that of a masked window the whole with NaN set there, and values set in a window at once, by rows, by columns or in any order of windows give the same data.",
 ["inputs", "programs"], "every grid, point file, data file, mask, window and chain of tools",
 "The tests run a few fixed pipelines on one grid and compare with stored output of the same program.",
 ["getnodes.c", "getbound.c", "subgrid.c", "insertgrid.c", "setbathy.c", "xy2ij.c", "gridbathy.c", "gridnodes.c"],
 [("tools", "getnodes.c:main, getbound.c:main, subgrid.c:main, insertgrid.c:main, setbathy.c:main, xy2ij.c:main, gridbathy.c:main"), ("formats", "gridnodes.c:gridnodes_read, gridnodes_write")],
 ["outputs of pipelines"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
