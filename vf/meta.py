"""Single source of what is said about each property. vf/gen_docs.py writes properties.jsonl and MANIFEST.json from it."""

IN, HI, CO = "inputs", "histories", "configurations"


def P(title, statement, over, text, why, files, mech, rule, technique, note, assumptions=(), **kw):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                technique=technique, note=note, assumptions=list(assumptions), **kw)


M = "malstroem/"
A = "malstroem/algorithms/"
S = "malstroem/scripts/"
FIN = "terrains are finite (nodata substituted), at least 3x3 cells"
ORA = "the independent oracle in vf/oracle.py and the harness's own GDAL/OGR reading are right"
SHORT = "exploration only: shows the property on the generated cases, with an oracle independent of the code under test; " \
        "proves nothing about inputs outside the generated shapes and ranges"

META = {
    "C01": P(
        "Filling gives the lowest depressionless surface",
        "Filling depressions in a terrain returns, for every cell, exactly the lowest level to which water can rise there before "
        "it drains over the edge of the raster: the minimum over all 8-connected paths to the edge of the highest terrain cell "
        "on the path. Edge cells are unchanged, no cell is lowered, filling twice changes nothing, the input is not "
        "modified, and the bluespot depths written are exactly filled minus terrain. This holds for every "
        "numeric type of terrain raster, with and without the compiled routines and through the filled and depths commands.",
        [IN], "every terrain (any shape from 3x3, any relief, flats, nested depressions, long winding channels), every raster "
        "data type, compiled and pure Python",
        "The tests fill one 5x5 array and one stored DEM and compare them with stored output; depth of nesting, scan "
        "order, shapes and data types are never varied.",
        [A + "fill.py", A + "speedups/_fill.pyx", M + "dem.py", S + "dem.py"],
        [("iterated directional sweeps lower a raised surface until nothing changes", A + "fill.py"),
         ("the same in Cython", A + "speedups/_fill.pyx")],
        "terrains drawn cell by cell, edited planes and procedural relief (noise, valleys, spirals, snakes, terraces, pits); "
        "non-trivial: filling raises at least one cell",
        "property-based testing against a priority-flood reference model", SHORT, [FIN, ORA]),
    "C02": P(
        "Conditioned terrain has no flats or pits and is as low as possible",
        "The terrain prepared for flow routing gives every interior cell a strictly lower neighbour, leaves edge cells as they "
        "are and lies nowhere below the original. It is the lowest such surface that rises by at least the given minimum slope "
        "per straight and diagonal step away from the outlets (up to accumulated rounding). The minimum slopes chosen for a "
        "terrain are positive and negligible compared with its heights.",
        [IN], "every terrain and every pair of minimum slopes, compiled and pure Python",
        "The tests look at one small array and one DEM; a surviving flat or pit needs particular plateaus, nesting and magnitudes.",
        [A + "fill.py", A + "speedups/_fill.pyx"],
        [("filling with minimum slopes added per step", A + "fill.py"), ("choice of the minimum slopes", A + "fill.py")],
        "terrains as in C01, minimum slopes chosen by malstroem or given; non-trivial: the terrain has depressions",
        "property-based testing against a shortest-path reference model", SHORT, [FIN, ORA]),
    "C03": P(
        "Flow directions follow the steepest descent and drain every cell",
        "Each flow direction points to the neighbour of steepest descent (diagonals counted with their longer distance); cells "
        "without lower neighbour get no direction, and edge cells point off the raster where that is asked for. On the "
        "directions malstroem derives from any terrain every cell drains off the raster without cycles, the flow is "
        "never uphill on the filled terrain, and outside depressions it follows the steepest descent of the terrain itself.",
        [IN, CO], "every terrain, outward and inward edges, compiled and pure Python, API and flowdir command",
        "The tests compare two stored rasters; ties, flats, spill points and cycles depend on the whole relief.",
        [A + "flow.py", A + "speedups/_flow.pyx", M + "dem.py", S + "dem.py"],
        [("steepest descent over the eight neighbours", A + "flow.py"), ("conditioning before directions", M + "dem.py")],
        "terrains as in C01, arbitrary and conditioned; non-trivial: more than two heights, or a terrain with depressions",
        "property-based testing: slope oracle, acyclicity and drainage invariants", SHORT, [FIN, ORA]),
    "C04": P(
        "Accumulated flow counts the cells draining through each cell",
        "The accumulated flow of a cell is exactly the number of cells whose flow path passes through it, itself included, for any "
        "acyclic flow directions, cells without direction included. Over the cells where flow leaves the "
        "raster the counts of a terrain add up to the number of cells of the raster. The flow directions are not modified.",
        [IN], "every acyclic flow field on every shape from 1x1, with sinks and confluences, compiled and pure Python, API and "
        "accum command", "One stored raster is compared; order of tracing at confluences depends on the topology.",
        [A + "flow.py", A + "speedups/_flow.pyx", M + "dem.py", S + "dem.py"],
        [("tracing downstream from every source cell, stopping at confluences not yet complete", A + "flow.py")],
        "random flow trees independent of any terrain, combs, straight fields, terrain flow; non-trivial: some cell drains more "
        "than three cells",
        "property-based testing against a topological-order reference count", SHORT, [ORA]),
    "C05": P(
        "Bluespots are exactly the connected wet areas, numbered without gaps",
        "Bluespot ids are 1..n without gaps, 0 is used for dry cells only, and two cells share an id exactly when they are "
        "connected through 8-neighbours of nonzero depth. With a filter each bluespot is kept or dropped as "
        "a whole by its own area, depth and volume, and the kept ones are renumbered 1..m. No bluespot reaches the edge of the "
        "raster, each has one spill level, and there is one pour point per bluespot plus one for the background.",
        [IN, CO], "every depth raster or terrain, cell size, filter function or none",
        "The tests label one stored raster; connectivity by diagonals, renumbering after filtering and shapes are sampled once.",
        [A + "label.py", M + "bluespots.py", S + "bluespot.py"],
        [("8-connected labelling and relabelling of kept labels", A + "label.py"), ("filtering by statistics", M + "bluespots.py")],
        "arbitrary wet/dry patterns and depths of generated terrains; non-trivial: at least one bluespot",
        "property-based testing against a flood-fill labelling oracle", SHORT, [ORA]),
    "C06": P(
        "Filter expressions keep exactly the bluespots they describe",
        "A filter of comparisons of area, maxdepth, volume and numbers, joined by and/or with parentheses, keeps exactly "
        "the bluespots for which it is true of the real area, largest depth and volume in units of the raster's "
        "coordinate system. Any text outside that language is refused with a nonzero exit status and no output.",
        [IN], "every expression of the language (all comparison operators, either order, nesting, white space), thresholds at and "
        "around real values, every cell size; and token sequences in and outside the language, judged by a reference parser",
        "Tests try two expressions; operators, exact thresholds and nesting are unbounded.",
        [S + "_utils.py", M + "bluespots.py", S + "bluespot.py"],
        [("whitelist check and translation to a function", S + "_utils.py"), ("area and volume from cell area", M + "bluespots.py")],
        "expression trees with thresholds taken from the statistics of terrains exact in binary; non-trivial: the expression "
        "keeps some and drops some bluespots, or a refused text",
        "grammar-based generation against an expression-evaluation oracle", SHORT, [ORA]),
    "C07": P(
        "Each watershed cell belongs to the first bluespot its water reaches",
        "Every cell of the watershed raster has the id of the first bluespot met when following the flow directions "
        "downstream from it; cells of a bluespot keep its id and cells whose water leaves the raster without meeting one are background. The "
        "flow directions are not modified, and the result holds for every integer type of id raster and every background value.",
        [IN], "every draining flow field with any placement of ids, compiled and pure Python, API and wsheds command",
        "One stored watershed raster is compared; long paths, nested bluespots and id types are not varied.",
        [A + "flow.py", A + "speedups/_flow.pyx", S + "bluespot.py"],
        [("upstream assignment of ids", A + "flow.py")],
        "random draining fields grown from the edge with scattered ids, and terrains; non-trivial: some cell gets an id it did "
        "not have", "property-based testing against a downstream-walk oracle", SHORT, [ORA, "flow fields drain off the raster"]),
    "C08": P(
        "Pour points lie where water leaves each bluespot and carry its true size",
        "There is exactly one pour point per bluespot and one for the background; it lies at the centre of a cell of that bluespot "
        "where the flow leaves it (with accumulated flow: the cell of largest accumulation). Its area, volume, "
        "maximum depth, watershed area and the rain that fills it are those of the bluespot and watershed in units of the "
        "coordinate system, whatever filter, cell size and raster type.",
        [IN, CO], "every terrain, georeference, filter, DEM data type, and both ways of finding pour points",
        "Tests compare attributes of one stored case; bluespots with several exits and filtered ones vary with the relief.",
        [M + "bluespots.py", S + "bluespot.py", A + "label.py"],
        [("minimum of the conditioned terrain or maximum of accumulated flow per label", M + "bluespots.py"),
         ("assembly of attributes", M + "bluespots.py")],
        "terrains with several bluespots; non-trivial: at least one bluespot",
        "property-based testing: recomputation from rasters, flow-exit invariant", SHORT, [FIN, ORA]),
    "C09": P(
        "The stream network links each bluespot to the next one its water reaches",
        "Every bluespot's node leads, possibly through junctions, to the node of the first other bluespot its water reaches, or to no "
        "node when the water leaves the raster; the network has unique ids, no cycle and only existing downstream ids. "
        "Junctions are exactly the cells where streams meet outside bluespots, and each stream runs cell by cell along the flow "
        "from its node to its downstream node. Pour points may come in any order; their attributes arrive on their nodes.",
        [IN, CO], "every flow field and placement of bluespots, any order and feature ids of pour points, any number of junctions, "
        "with and without stream geometry", "The tests trace a few drawn cases; multiplicity and order of merging streams are "
        "combinatorial.",
        [A + "net.py", M + "streams.py", S + "stream.py"],
        [("tracing each pour point downstream and splitting at junctions", A + "net.py"), ("node and stream features", M + "streams.py")],
        "flow trees with scattered bluespots, long combs of junctions, terrains; non-trivial: streams merge, or more than two nodes",
        "property-based testing against a path-tracing reference model", SHORT, [ORA]),
    "C10": P(
        "All rain is assigned to nodes, each its own watershed's share",
        "Each node receives exactly the rain depth times its watershed area, junctions receive nothing, and the sum over all nodes "
        "is the rain on the whole raster. With a precipitation raster each node gets the water of the cells carrying its "
        "id, converted from mm, l or m3 per cell, with cells without data counting as dry. Every node is "
        "passed on once with all its attributes and its place.",
        [IN, CO], "every network, rain depth including zero, precipitation raster, unit, nodata value, attribute and layer name",
        "Tests check one rain depth and one raster; conservation over arbitrary networks and units cannot be sampled.",
        [M + "rain.py", S + "initvolume.py", M + "io.py"],
        [("area times depth", M + "rain.py"), ("sums per label times unit factor", M + "rain.py")],
        "arbitrary networks and whole terrains, rain depths and rasters; non-trivial: more than one node and some rain",
        "property-based testing: conservation and recomputation oracle", SHORT + ". Known finding: with -bluespots pointing at "
        "bluespots the sum is over bluespot cells, not watersheds", [ORA]),
    "C11": P(
        "Final volumes conserve water and spill only from full bluespots",
        "Each node ends with the smaller of its capacity and its own input plus everything spilled into it, and spills exactly "
        "the rest to its downstream node; what comes in equals what is held plus what leaves the network. The fill percentage is "
        "100*v/capacity, or missing where there is no capacity. The result depends only on the nodes and the chosen input attribute: not on "
        "their order, ids or earlier events, and more input never gives less held or spilled anywhere.",
        [IN, HI], "every forest of nodes (chains of thousands, stars, junctions, zero capacities, gaps in ids), any order, any "
        "attribute, several events on one network",
        "Tests run a handful of networks once each; order independence, repeated events and deep chains are unbounded.",
        [M + "network.py", S + "finalstate.py"],
        [("volumes passed downstream in topological order", M + "network.py")],
        "random forests with inputs chosen around the capacities; non-trivial: at least one node has a downstream node",
        "model-based testing against a reference network, metamorphic monotonicity", SHORT, [ORA]),
    "C12": P(
        "Hypsometry histograms describe each bluespot's terrain completely",
        "For every bluespot the histogram counts every terrain cell exactly once, in bins of the requested width "
        "whose bounds are multiples of it and enclose the lowest and highest cell by less than one bin; lowest and highest "
        "height are exact. The written rows keep all pour point attributes and can be read back to the same statistics.",
        [IN, CO], "every terrain (below zero, single cell, flat, any type), ids, bin width, output format",
        "Tests use one bluespot and one width; bins at rounded borders and negative heights are not sampled.",
        [M + "hyps.py", A + "label.py", S + "hyps.py", A + "speedups/_label.pyx"],
        [("bins from floor and ceiling of the height range", M + "hyps.py"), ("collection of heights per label", A + "label.py")],
        "terrains, scattered ids and bin widths including ones without exact binary value; non-trivial: more than one bin",
        "property-based testing against an exact recount with rounding slack, round trip", SHORT, [ORA]),
    "C13": P(
        "Water levels stay between bottom and spill level and fit the volume",
        "The water level of a bluespot lies between its lowest cell and its spill level: at the bottom when empty, at the spill level "
        "when full, and in between within a few bin widths of the level at which its cells hold the given volume. More water "
        "never gives a lower level, and the water depth reported is the level minus the lowest cell. All attributes of the node are kept.",
        [IN, HI], "every bluespot shape, bin width, cell size, and rising sequences of volumes",
        "Tests check one synthetic bluespot; error bounds and monotonicity are over all fill grades.",
        [M + "approx.py", S + "finalstate.py", M + "hyps.py"],
        [("volume-height curve from the histogram, interpolated", M + "approx.py")],
        "bluespots given as lists of heights, and terrains; rising volumes; non-trivial: partly filled bluespots with several "
        "cells, or a terrain with bluespots",
        "property-based testing against the exact water level, metamorphic monotonicity", SHORT, [FIN, ORA]),
    "C14": P(
        "Final extents and depths are exactly the cells below the water level",
        "The final depth raster holds, in every cell of a bluespot below its water level, level minus terrain, and zero everywhere "
        "else; the final bluespot raster holds the id in exactly these cells (those exactly at the level may count either way) and zero elsewhere. Water "
        "never appears outside the bluespot or in the background, and the terrain is not modified.",
        [IN, CO], "every terrain and type, ids, levels at, below and above cells, order of levels, either or both outputs",
        "Tests compare one synthetic case.",
        [M + "approx.py", S + "finalstate.py"],
        [("level per label minus terrain, clipped", M + "approx.py")],
        "terrains with scattered ids and levels; non-trivial: some cells flooded",
        "property-based testing against a cell-by-cell oracle", SHORT, [ORA]),
    "C15": P(
        "Compiled routines and pure Python give the same results",
        "Each accelerated routine returns what its pure Python version returns for the same input, whatever sequence of enabling "
        "and disabling the speedups came before; whether they are on is always reported truthfully, and what runs then is exactly what "
        "runs in a process that was always in that state (disabled: an installation without compiled modules). Between the two only exact ties "
        "of slope and the last digits of accumulated minimum slopes may differ, and the whole program writes the same rasters and layers.",
        [IN, HI, CO], "every input of every accelerated routine, any history of enabling/disabling, whole runs of complete",
        "Tests call each routine on one input per mode and toggle once.",
        [A + "speedups/__init__.py", A + "speedups/_fill.pyx", A + "speedups/_flow.pyx", A + "speedups/_label.pyx", A + "fill.py",
         A + "flow.py", A + "label.py"],
        [("routines replaced in their modules and put back", A + "speedups/__init__.py")],
        "operation sequences of routines and toggles over generated inputs; non-trivial: a routine ran compiled, or a complete run "
        "with bluespots", "differential testing, stateful toggling histories", SHORT, [FIN]),
    "C16": P(
        "Rasters are written and read back exactly; only nodata is substituted",
        "A raster written and read back has identical cell values, shape, geotransform, coordinate system and nodata value, for "
        "every supported array type and size; reading twice gives the same and writing does not modify the array. When a "
        "substitute for nodata is asked for, exactly the nodata cells read as that value, all others unchanged, also for nodata "
        "0, NaN, extreme values and unsigned rasters.",
        [IN, CO], "all array types, sizes up to several file blocks, rotated transforms, nodata values and substitutes",
        "Tests read one file and write one.",
        [M + "io.py"], [("GeoTIFF writing with type mapping, reading with substitution", M + "io.py")],
        "arrays of every type with extreme values; non-trivial: any array written; with substitution, some but not all cells nodata",
        "property-based round-trip testing against plain GDAL", SHORT,
        ["64-bit integers stay within the range of 32-bit ones", ORA]),
    "C17": P(
        "Vector layers are written and read back completely",
        "Every feature written comes back once, in order, with the same geometry, attributes (integers, large integers, decimals, texts, "
        "missing values) and coordinate system, in GeoPackage, GeoJSON, Shapefile and CSV. Writing a layer leaves other layers of "
        "the file and the features passed in untouched; layers are found by name, number or as the default first layer; a layer that does "
        "not exist is refused.",
        [IN, CO, HI], "any attribute names, types, missing values, geometry types, formats, numbers of layers and features including none",
        "Tests write two fixed layers.",
        [M + "io.py"], [("field types from the first values, transactional writing", M + "io.py"), ("features as GeoJSON", M + "io.py")],
        "feature lists with mixed attribute types; every case is non-trivial (distinct cases counted)",
        "property-based round-trip testing against plain OGR", SHORT, [ORA, "attribute types do not change within a layer"]),
    "C18": P(
        "complete gives what the documented chain of commands gives",
        "Running complete on a DEM writes the same rasters and the same layers, feature by feature and attribute by attribute, as the documented "
        "sequence of single commands with the same rain, filter and histogram width. Optional output (accumulated flow, polygons) "
        "is written exactly when asked for.",
        [IN, CO], "every terrain, type, georeference, rain, filter, width and option",
        "No test compares the two; each is tried on one DEM.",
        [S + "complete.py", S + "dem.py", S + "bluespot.py", S + "stream.py", S + "hyps.py", S + "initvolume.py", S + "finalstate.py"],
        [("complete calls the same tools in order", S + "complete.py")],
        "terrains with several bluespots and options; non-trivial: at least one bluespot",
        "differential testing of two ways through the program", SHORT, [FIN]),
    "C19": P(
        "Polygons cover exactly the cells of their id",
        "Polygonizing an id raster gives non-overlapping polygons that cover exactly the cells of each nonzero id and nothing of the "
        "background, one per connected region, with the right id, area and coordinate system. This holds for bluespots, watersheds and final bluespots of a whole "
        "run and every output format, and the raster is not changed.",
        [IN, CO], "every id raster (holes, islands, single cells, diagonal contacts), type, georeference and format",
        "Tests count the features of one raster.",
        [M + "vector.py", S + "bluespot.py", S + "complete.py"],
        [("GDAL polygonize with background masked", M + "vector.py")],
        "scattered, overlapping and perforated ids; non-trivial: at least one id",
        "property-based testing: rasterize back (round trip)", SHORT, [ORA, "regions crossing at a corner may be split either way"]),
    "C20": P(
        "A whole run is consistent from rain to final water, and more rain is wetter",
        "In the output of a complete run the rain on the raster equals the water stored plus the water leaving it; bluespots, "
        "pour points, nodes, hypsometry, levels and final rasters all speak of the same bluespots; and final depths agree with their levels, "
        "volumes and capacities. With more rain no node holds or spills less, no level and no final depth falls. The DEM is not changed.",
        [IN, CO], "every DEM (type, nodata, holes, georeference), pair of rains, filter, width and options",
        "No test runs the whole program and relates its outputs.",
        [S + "complete.py", M + "dem.py", M + "bluespots.py", M + "streams.py", M + "network.py", M + "hyps.py", M + "approx.py", M + "rain.py"],
        [("the chain of tools", S + "complete.py")],
        "full DEM files with two rains each; non-trivial: at least one bluespot",
        "property-based end-to-end invariants and metamorphic rain relation", SHORT, [ORA]),
    "C21": P(
        "Bad requests are refused with nonzero status and leave everything as it was",
        "A command that cannot be carried out as asked (missing or non-empty output directory, unknown layer or attribute, contradictory "
        "or missing options, illegal filter or unit, rasters that do not fit each other, non-square cells in complete, useless bin width, unreadable "
        "input, an output that cannot be created or a layer that exists) exits with a nonzero status. It leaves all existing files and directories as they were and creates no new ones.",
        [IN, CO], "50 kinds of bad requests over generated data", "Tests do not cover refusals except the filter check.",
        [S + "complete.py", S + "_utils.py", S + "initvolume.py", S + "finalstate.py", S + "hyps.py", S + "bluespot.py", M + "hyps.py", M + "io.py"],
        [("checks before writing", S + "complete.py"), ("option checks", S + "initvolume.py")],
        "a valid data set, then one bad request; non-trivial: every kind of refusal",
        "generated bad requests with before/after comparison of the directory tree", SHORT),
    "C22": P(
        "Results do not depend on orientation, datum, units or place",
        "Mirroring or rotating the terrain mirrors or rotates filled terrain, depths and bluespots; raising the terrain raises the filled terrain "
        "and changes nothing else; scaling heights, rain and bin width together scales volumes and keeps "
        "network and extents. Moving the raster, changing its coordinate system or cell size changes only coordinates, and areas and "
        "volumes with the square of the cell size.",
        [IN], "every terrain under these transformations", "Tests never compare two runs.",
        [A + "fill.py", A + "flow.py", A + "label.py", M + "bluespots.py", M + "hyps.py", M + "approx.py", M + "rain.py"],
        [("no dependence on absolute place or height", A + "fill.py")],
        "terrains and a transformation each; non-trivial: at least one bluespot", "metamorphic testing", SHORT, [FIN]),
    "C23": P(
        "All outputs lie on the DEM's grid and in its coordinate system",
        "Every raster written has the shape, geotransform and coordinate system of the DEM, and the background of id rasters is declared as nodata. "
        "Every geometry lies within the DEM, points of nodes are the centres of their cells and the same in every layer, "
        "and consecutive stream vertices are neighbouring cells connected by the flow direction.",
        [IN, CO], "every georeference (origin, cell size, orientation, coordinate system), terrain, complete and single commands",
        "Tests check the transform of a few outputs of one DEM.",
        [M + "io.py", M + "vector.py", M + "bluespots.py", M + "streams.py", S + "complete.py", S + "dem.py", S + "bluespot.py"],
        [("transform and crs passed from reader to writer", S + "complete.py"), ("cell centre to world", M + "vector.py")],
        "terrains with varied georeferences; non-trivial: at least one bluespot", "property-based invariants over all outputs", SHORT),
    "C24": P(
        "Statistics per label are those of exactly its cells",
        "For each label 0..n the count, minimum, maximum and sum, the position of minimum and maximum, and the collected values "
        "are those of exactly the cells with that label, for any data and label types, labels without cells and more labels than "
        "occur. Values of the background are not collected; replacing labels by values works cell by cell; inputs are not modified.",
        [IN], "every data and label raster and type, number of labels, compiled and pure Python",
        "Tests use one small array.", [A + "label.py", A + "speedups/_label.pyx"], [("single pass accumulation per label", A + "label.py")],
        "rasters of every type with scattered labels; non-trivial: at least one label and two data values",
        "property-based testing against numpy masks", SHORT),
    "C25": P(
        "Compiled routines stay inside their arrays",
        "The compiled routines never read or write outside the arrays they are given, for any valid input: any shape, "
        "memory layout, labels, number of labels and flow directions at the edges. Their results stay in the documented ranges.",
        [IN], "every valid input of every compiled routine, contiguous, Fortran, strided and reversed arrays",
        "Stray accesses usually do not change results, so tests pass.",
        [A + "speedups/_fill.pyx", A + "speedups/_flow.pyx", A + "speedups/_label.pyx"],
        [("bounds reasoning with boundscheck off", A + "speedups/_flow.pyx")],
        "operations over generated inputs and memory layouts under AddressSanitizer; every case is non-trivial (distinct cases counted)",
        "fuzzing of an AddressSanitizer build", SHORT + "; AddressSanitizer sees accesses outside of heap blocks only",
        asan=True),
    "C26": P(
        "Output format, creation options and layer names are honoured",
        "Every command that writes vector data writes it in the requested format, passes on every dataset and layer creation option, and uses the "
        "requested or documented default layer names and format. The same rows, attributes, geometries and coordinate system "
        "arrive in every format.",
        [CO, IN], "all vector commands x formats x creation options x layer names over generated data",
        "Tests write default layers in one format.",
        [S + "bluespot.py", S + "stream.py", S + "hyps.py", S + "initvolume.py", S + "finalstate.py", M + "io.py", M + "vector.py"],
        [("options passed to the vector writer", M + "io.py")],
        "one command with one set of options each; non-trivial: at least one row written",
        "property-based testing: differential against GeoPackage output, probes of each option", SHORT),
    "C27": P(
        "Cells without data act as -999 terrain in every command",
        "A DEM with nodata cells gives in every command and in complete the same results as the same DEM with the height -999 in these cells, "
        "whatever the nodata value: below or above the terrain, NaN, or extreme.",
        [IN, CO], "every DEM, placement of nodata, nodata value, type and option, complete and single commands",
        "The test DEM has no nodata cells of consequence.",
        [M + "io.py", S + "dem.py", S + "bluespot.py", S + "hyps.py", S + "finalstate.py", S + "complete.py"],
        [("nodata substituted by the raster reader of each command", M + "io.py")],
        "DEM files with holes and their substituted twins; non-trivial: a hole and at least one bluespot",
        "metamorphic testing over whole runs", SHORT),
    "C28": P(
        "Scenarios side by side and repeated runs do not influence each other",
        "However many rain scenarios, hypsometries and levels are computed in any order into one GeoPackage, each result depends only on its "
        "named inputs, no existing layer or input file changes, nothing but what was asked for is written, and a failed command leaves no trace. "
        "Layers that exist are never added to or replaced, and no temporary files stay behind. "
        "Running complete again, after other runs in the same process, at the same time as others, or where the same names held other "
        "content before, gives the same rasters and layers.",
        [HI, IN], "histories of up to a dozen commands over one data set, repeated runs, runs at the same time, reused names",
        "Tests run each command once in a fresh place.",
        [M + "io.py", S + "initvolume.py", S + "finalstate.py", S + "hyps.py", S + "complete.py", M + "network.py"],
        [("layers added to an existing datasource", M + "io.py")],
        "sequences of commands; non-trivial: more than one final state or a level computed",
        "stateful model-based testing of command histories", SHORT),
    "C29": P(
        "Results depend on the data, not on how, where or under which name it is stored",
        "A command gives the same result whatever the storage of its inputs: rasters in any GDAL format, block layout, compression, byte order, "
        "with further bands or overviews; layers in any typed OGR format (and CSV, where it is a default output format), under any "
        "layer name, with features and attributes in any order and foreign attributes or layers beside them; files in any "
        "directory, under any legal name, given relative or absolute. The chain run entirely in its default formats gives what it gives in a GeoPackage. "
        "Inputs are never changed.",
        [IN, CO], "every raster and layer input of every command, storage format and option, name and place",
        "The tests read two fixed GeoTIFFs and write GeoPackages and GeoJSON.",
        [M + "io.py", S + "dem.py", S + "bluespot.py", S + "stream.py", S + "hyps.py", S + "initvolume.py", S + "finalstate.py", S + "complete.py"],
        [("readers of rasters and layers", M + "io.py"), ("numbers read from untyped formats", M + "approx.py")],
        "inputs of a run stored once plainly and once in a drawn way; a way which does not preserve the raster by GDAL's own account is replaced; "
        "non-trivial: at least one bluespot",
        "metamorphic testing: the same data in two storages", SHORT, [ORA, "GDAL's drivers keep what they report to keep"]),
    "C30": P(
        "Success is reported only for complete layers, and interrupted writing damages nothing",
        "Wherever the writing of a layer fails or is killed - no room left at any point of the file - a command exits with zero only if the "
        "layer (GeoPackage or CSV) is complete. The other layers of the GeoPackage keep their content, and the command run again in the "
        "same GeoPackage under another name gives its usual result.",
        [HI, IN], "every command writing layers, every point of failure, reported by the system or fatal to the process",
        "Tests never let a write fail.",
        [M + "io.py", M + "vector.py", S + "bluespot.py", S + "stream.py", S + "hyps.py", S + "initvolume.py", S + "finalstate.py"],
        [("one transaction per layer, flushed before it is closed", M + "io.py"), ("polygons written to a layer", M + "vector.py")],
        "a data set, a command and a file size at which writes start to fail (RLIMIT_FSIZE in a child process) or kill it (SIGXFSZ); non-trivial: "
        "every such run", "fault injection over generated data and crash points, differential against the undisturbed run",
        SHORT + "; errors GDAL does not report (rasters, some of Shapefiles and GeoJSON) are outside", ["SQLite rolls back as documented"]),
}

# quick runs: this many times the basic number of cases (about half a minute each)
for _k, _v in {"C02": 9, "C03": 10, "C04": 6, "C05": 5, "C07": 5, "C08": 5, "C11": 5, "C12": 5, "C01": 5, "C17": 5, "C18": 1.5, "C20": 1.6,
               "C22": 1.5, "C27": 1.3, "C28": 1.2, "C21": 2, "C09": 2}.items():
    META[_k]["scale"] = _v
