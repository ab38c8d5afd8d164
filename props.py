"""Single source of properties.jsonl and MANIFEST.json (see `vf.py manifest`)."""
NOTES = ("Every check rebuilds its harness from /repo's working tree (object cache keyed by content) and "
         "enumerates executions of the real code; no hooks are needed in /repo. vf.py replay ID CASE reruns one case.")
HOOKS = None
NOT_APPLICABLE = {}
PROPS = {}
UNCLAIMED = {}
TECH = "bounded-exhaustive exploration of the real code against a reference model"
ASAN = "Compiled with AddressSanitizer, so out-of-bounds accesses and use after free on any explored execution are violations too."


def prop(pid, title, statement, over, text, why, files, mechanism, observe, harness, rule, note,
         variant="asan", uses=("lib",), args=(), state=None, assumptions=(), technique=TECH, tvariant=None, more=()):
    PROPS[pid] = dict(
        title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None, **({"state": state} if state else {})),
        runs=[dict(harness=harness, variant=variant, tvariant=tvariant or variant, uses=uses, args=list(args))] +
             [dict(harness=h, variant=v, tvariant=v, uses=uses, args=list(a)) for h, v, *a in more],
        level="model_checking", level_note=note, technique=technique, rule=rule, assumptions=list(assumptions))


GP = ("Domains are simple polygons, possibly with disjoint holes, given as line-segment complexes; generators lie inside "
      "and are further apart than the quantisation of the tessellator (1e-8 of the extent); for nonconvex domains no "
      "boundary vertex is equidistant from two generators and no hole lies within one generator's Voronoi region.")
TESSFILES = ["src/BoostTessellator.cc", "src/QuantizedTessellation2d.cc", "src/clipQuantizedTessellation2d.cc",
             "src/Tessellator.hh", "src/polytope_tessellator_utilities.hh", "src/snapToBoundary.cc"]
TESSTEXT = ("all generator subsets of 3x3 (size <= 9) and, thorough, 4x4 lattices in boxes; all subsets up to 3-4 "
            "(thorough 5-6) of the tilted-lattice candidates of 12 domains (convex, nonconvex, collinear vertices, clockwise, with "
            "1-2 holes) in 8 similarity transforms (1e-6 .. 1e6, offsets, rotations); grids, hexagonal lattices, circles, lines "
            "and close pairs up to 24x24 / 60 generators")
TESSRULE = "distinct: fingerprints of cell shapes per domain; nontrivial: more than one generator"
WHYT = ("The tests tessellate a handful of fixed or random generator sets on a few domains and look at counts or total area; "
        "a rule for every input needs every combination of cell, boundary and degeneracy.")

prop("P01", "2D tessellations are valid polygonal meshes, one closed cell per generator",
     "For every admissible set of generators, bounded or unbounded, the 2D tessellator returns exactly one cell per generator, in generator order, each a "
     "simple closed counterclockwise loop of faces. Every face has two distinct nodes, all referenced nodes and faces exist and are used, no node or face is duplicated, "
     "and the recorded face-to-cell links with their orientation signs are exactly those of the cells: each face separates at most two cells, with opposite orientation.",
     ["inputs"], TESSTEXT, WHYT, TESSFILES,
     [("tessellate -> clip -> assemble faces and cells", "src/BoostTessellator.cc"),
      ("quantised mesh construction", "src/QuantizedTessellation2d.cc")],
     ["nodes, faces, cells and faceCells of the returned mesh"], "tess", TESSRULE,
     "Exhaustive within the stated families; the structural rules are checked on every mesh. " + ASAN,
     assumptions=[GP], tvariant="opt")
prop("P02", "The cells of a bounded 2D tessellation tile the domain exactly",
     "The cells of a bounded 2D tessellation are simple polygons inside the domain that do not overlap and leave no part of the domain uncovered, holes excluded. "
     "Equivalently their areas add up to the domain's area and the faces with a cell on one side only make up exactly the domain's boundary.",
     ["inputs"], TESSTEXT, WHYT, TESSFILES,
     [("clipping cells against the boundary, adopting orphaned pieces", "src/clipQuantizedTessellation2d.cc")],
     ["cell polygons, single-cell faces"], "tess", TESSRULE,
     "Area and boundary identity on every enumerated mesh at tolerance 2e-7 of the squared extent.", assumptions=[GP], tvariant="opt")
prop("P03", "Cells of a bounded 2D tessellation are the generators' Voronoi regions",
     "In a convex domain the cell of each generator is the set of points of the domain nearer to it than to any other generator. In a nonconvex domain (or one with holes) the cell contains its generator and "
     "the whole connected part of its nearest-point region around it, and only pieces cut off from their generator are given to other cells.",
     ["inputs"], TESSTEXT, WHYT, TESSFILES,
     [("Voronoi diagram of quantised generators", "src/BoostTessellator.cc"), ("orphan adoption", "src/clipQuantizedTessellation2d.cc")],
     ["cell polygons versus generators"], "tess", TESSRULE,
     "Each cell is compared with naive half-plane clipping in long double (and Boost.Geometry components for nonconvex domains).",
     assumptions=[GP], tvariant="opt")
prop("P04", "The mesh boundary reproduces the input boundary and its metadata is exact",
     "In a bounded 2D tessellation the listed boundary faces are exactly the faces with one cell and the listed boundary nodes exactly their nodes. "
     "Boundary nodes lie on the input boundary to rounding accuracy, every vertex of the input boundary (holes included) is exactly one boundary node with bitwise the input coordinates, and all other nodes lie strictly inside.",
     ["inputs"], TESSTEXT, WHYT, TESSFILES,
     [("snapping nodes to the boundary", "src/snapToBoundary.cc"), ("boundary node and face lists", "src/findBoundaryElements.hh")],
     ["boundaryNodes, boundaryFaces, node coordinates"], "tess", TESSRULE,
     "Checked on every enumerated mesh.", assumptions=[GP], tvariant="opt")
prop("P05", "Unbounded 2D tessellations are Voronoi diagrams around the generators",
     "Tessellating generators without a boundary gives a valid mesh whose cells, within the neighbourhood of the generators' bounding box, are exactly the nearest-point regions; no cell reaches into a place nearer to another generator. "
     "Boundary faces and nodes are exactly those on the outer rim.",
     ["inputs"], "generator subsets of lattices and tilted lattices in 6 transforms, grids, circles, lines, close pairs", WHYT, TESSFILES,
     [("closing infinite cells", "src/BoostTessellator.cc"), ("outer bounding shape", "src/QuantizedTessellation2d.cc")],
     ["mesh of the unbounded tessellate call"], "tess", TESSRULE, "Compared with naive half-plane clipping inside the bounding box enlarged by a quarter.",
     assumptions=["at least two generators, well separated relative to the quantum"], tvariant="opt")
prop("P06", "Cells do not depend on input order, boundary presentation, entry point or units",
     "Permuting the generators permutes the cells; starting the boundary at another vertex, reversing it, storing its vertices in another order, or using another entry point (box, line-segment complex, reduced complex) gives the same cells. "
     "Scaling, rotating and shifting generators and boundary together scales, rotates and shifts the cells.",
     ["inputs", "configurations"], "subsets of lattices in boxes and of the candidates of 6 domains; all permutations up to 3 generators (representative ones beyond), 5 boundary presentations, 3 entry points, 7 transforms",
     WHYT + " No test compares two runs.", TESSFILES,
     [("quantisation relative to the bounding box", "src/QuantizedTessellation2d.cc"), ("entry points", "src/Tessellator.hh")],
     ["cell polygons of the compared runs"], "tess", TESSRULE, "Metamorphic comparison at the quantisation tolerance.", assumptions=[GP], tvariant="opt")
prop("P07", "Tessellation is deterministic, stateless and leaves its inputs alone",
     "The mesh is a function of the arguments alone: any sequence of earlier calls on the same tessellator object, of any kind, leaves later results bitwise unchanged, and a mesh object that was cleared is as good as new. "
     "The generators and boundary passed in are not modified.",
     ["histories"], "all call histories up to length 3 (thorough 4) over 8 kinds of calls on one serial object and over 6 kinds on both distributed tessellators with 1-2 (3) domains, plus repeated runs and clear-and-reuse on all subsets up to 3 (4) generators of 4 domains",
     "Tests use a fresh object per case; interference between calls needs every order of calls.", TESSFILES,
     [("no state in the tessellator", "src/BoostTessellator.hh"), ("Tessellation::clear", "src/Tessellation.hh")],
     ["mesh after each call"], "tess", "distinct: histories reached; nontrivial: more than one call", "Bitwise comparison with a fresh object after every call of every history.", tvariant="opt", more=[("dist", "opt")])
prop("P08", "Degenerate generators are merged exactly as the tolerance says, and mapped",
     "Tessellating with a degeneracy tolerance returns a map that sends every input point to an existing cell, every cell being hit; coincident points share a cell, and points farther apart than the tolerance in either coordinate never do. "
     "The mesh is the tessellation of one representative per cell, and the input points are not changed.",
     ["inputs"], "base sets of 1-3 (4) points of 3 domains x every pattern of 5 near-duplicates x 3 tolerances x 2 orders x 4 entry points; dense lattices up to 16x16",
     "The tests have one degenerate case; chains, orders and tolerances need enumeration.",
     ["src/Tessellator.hh", "src/polytope_geometric_utilities.hh", "src/polytope_tessellator_utilities.hh"],
     [("position hashing and unique points", "src/polytope_geometric_utilities.hh"), ("tessellateDegenerate", "src/Tessellator.hh")],
     ["returned map, mesh"], "tess", "distinct: (map, cell shapes); nontrivial: some points merged", "Map and mesh checked on every case against the tolerance rule and the Voronoi oracle.",
     assumptions=[GP], tvariant="opt")

MESHES = "2D Voronoi meshes of lattices, hexagonal lattices and nonconvex domains and 3D hexahedral lattices"
prop("P09", "Deleting cells leaves exactly the submesh of the kept cells",
     "Deleting any set of cells leaves the remaining cells in their order with their geometry and orientation, exactly the faces and nodes they use, consistent face-to-cell links, and boundary lists that describe the new boundary. "
     "Lists of nodes and faces shared with other domains keep exactly the surviving entries, in order; deleting in several steps equals deleting at once.",
     ["inputs", "histories"], "every deletion mask of meshes with up to 12 cells (2D and 3D), both interfaces, with and without shared lists; all two-step histories of small meshes",
     "The test deletes one hand-picked set.", ["src/deleteCells.hh", "src/deleteCells.cc", "src/MeshEditor.cc", "src/MeshEditor.hh", "src/findBoundaryElements.hh"],
     [("renumbering", "src/deleteCells.hh"), ("MeshEditor::deleteCells", "src/MeshEditor.cc")], ["the mesh after deletion"], "edit",
     "distinct: topologies; nontrivial: some but not all cells deleted", "Compared with the induced submesh computed independently. " + ASAN, tvariant="opt")
prop("P10", "Removing small edges removes exactly them and keeps the mesh valid",
     "Cleaning edges below a relative length merges their nodes and nothing else: the result is a valid mesh with the same number of cells, every remaining edge of every cell is long enough, long edges stay, and corners of the boundary stay where they were. "
     "A mesh without short edges is left unchanged.",
     ["inputs"], "Voronoi meshes of enumerated generator sets with engineered short edges x tolerances", "Tests clean a couple of random meshes and do not look at the outcome's geometry.",
     ["src/MeshEditor.cc", "src/MeshEditor.hh"], [("flagEdgesForCleaning, cleanMesh", "src/MeshEditor.cc")], ["the mesh after cleaning"], "edit",
     "distinct: topologies; nontrivial: some edge removed", "Checked against the specification on every case whose preconditions hold.",
     assumptions=["every cell keeps at least three long edges; no short edge joins two separate boundary stretches; boundary corners are not ends of border edges that are themselves flagged"], tvariant="opt")
prop("P11", "Connectivity queries agree with the mesh",
     "For any valid mesh the queries for the cells around each node, the nodes of each cell and the boundary faces and nodes return exactly what follows from the faces and cells of the mesh. "
     "Removing elements by index keeps exactly the others in order.",
     ["inputs"], MESHES + "; every index subset of sequences up to length 8", "No test compares the queries with the definition.",
     ["src/Tessellation.hh", "src/findBoundaryElements.hh", "src/removeElements.hh"], [("computeNodeCells, computeCellToNodes", "src/Tessellation.hh")],
     ["results of the queries"], "edit", "distinct: topologies; nontrivial: more than one cell", "Compared with a direct computation from the definition.", tvariant="opt")

DISTFILES = ["src/DistributedTessellator.cc", "src/SerialDistributedTessellator.cc", "src/polytope_parallel_utilities.hh", "src/deleteCells.hh"]
DISTTEXT = ("every assignment of 2-5 (thorough 7) generators of 6 domains to 2-4 domains, of 2x2 and 3x3 lattices, "
            "and 10 structured partitions (up to 16 domains) of regular and tilted lattices up to 6x6 (8x8) at 3 scales, through every entry point of both tessellators")
DGP = GP + " Every domain holds at least one generator (SerialDistributedTessellator also runs with empty domains)."
WHYD = "The tests run one partition of random generators per process count; correctness depends on which domains see each other, for every partition."
DRULE = "distinct: fingerprints of all domains' meshes; nontrivial: every case (at least two domains)"
FM = "MPI is replaced by an in-process implementation that runs the ranks as fibers under a scripted scheduler; its semantics follow the standard for the calls used, which name their source and tag."
prop("P12", "A distributed tessellation is the serial one, domain by domain",
     "For every distribution of the generators over the domains, each domain's mesh is a valid mesh holding exactly one cell per local generator, in order, equal to that generator's cell in the serial tessellation of all generators, "
     "with boundary lists describing its own border. This holds for both distributed tessellators, all entry points, with or without communication info.",
     ["inputs", "configurations"], DISTTEXT, WHYD, DISTFILES,
     [("visible neighbour domains, exchange of generators, culling", "src/DistributedTessellator.cc"), ("global tessellation", "src/SerialDistributedTessellator.cc")],
     ["every domain's mesh"], "dist", DRULE, "Cell-by-cell comparison with the serial tessellator at position tolerance.", variant="opt", more=[("dist", "asan", "--every", "41")],
     assumptions=[DGP, FM])
prop("P13", "Shared node and face lists are complete, symmetric and bit-identical",
     "After a bounded distributed tessellation with communication info, two domains are neighbours exactly if they have a node in common. Their lists of shared nodes and faces name the same nodes and faces in the same order, each once, "
     "leaving none out, and shared nodes have bitwise equal coordinates on all their domains; the library's own consistency check agrees.",
     ["inputs", "configurations"], DISTTEXT, WHYD + " The existing consistency check skips faces and positions.", DISTFILES + ["src/checkDistributedTessellation.hh"],
     [("building and ordering shared lists, synchronising positions", "src/DistributedTessellator.cc")],
     ["neighborDomains, sharedNodes, sharedFaces, nodes of every domain"], "dist", DRULE, "All pairs of domains compared on every case.", variant="opt", more=[("dist", "asan", "--every", "31")],
     assumptions=[DGP, FM])
prop("P14", "Distributed tessellation terminates and is independent of message timing",
     "Whatever the order in which domains make progress and however messages are buffered, the distributed tessellators never deadlock, lose or mismatch a message, truncate one or touch a buffer that is still being sent. "
     "All domains take part in the same collective operations, and the resulting meshes are bitwise the same in every schedule.",
     ["schedules"], "for small inputs (2-4 domains): every start rank x eager/late/synchronous sends, and every schedule deviating from the default one at 1 choice point (thorough: at 2 for the smallest)",
     "A test run sees one schedule of one MPI library, whose buffering hides errors.", DISTFILES + ["src/checkDistributedTessellation.hh"],
     [("nonblocking exchange of generators and node positions", "src/DistributedTessellator.cc"), ("broadcasts of hulls and generators", "src/DistributedTessellator.cc")],
     ["completion of every rank, meshes"], "dist", "distinct: final meshes; nontrivial: each input; schedules and distinct interleavings are counted separately",
     "Stateless exploration under a controlled scheduler; all calls name source and tag, so schedules commute and the bound is a check of that argument.", variant="opt", assumptions=[DGP, FM],
     technique="stateless model checking of the real code under a controlled message-passing scheduler")
prop("P15", "The consistency check accepts exactly the consistent node lists",
     "Checking a distributed tessellation returns the same verdict on every domain: \"ok\" exactly if all pairs of domains agree on being neighbours and list all their common nodes in corresponding order, and a description of the disagreement otherwise. "
     "It never fails or hangs, whatever the lists contain.",
     ["inputs"], "every single corruption (forgotten, invented neighbours; dropped, repeated, swapped, replaced entries) and pairs of corruptions of correctly built meshes on 2-3 (4) domains", 
     "Tests only call it on good meshes, so a check that accepts everything would pass.", ["src/checkDistributedTessellation.hh"],
     [("checkConsistentCommInfo, checkAllSharedElementsFound", "src/checkDistributedTessellation.hh")], ["returned string on every domain"], "dist",
     "distinct: (defect, verdict) pairs; nontrivial: each input", "Verdict compared with a direct definition on every corrupted mesh. " + ASAN, assumptions=[FM, "neighbor lists are sorted, entries are valid node indices"], tvariant="opt")
prop("P16", "Cleaning edges of a distributed mesh keeps the domains consistent",
     "When every domain of a distributed tessellation cleans its small edges, each domain keeps its cells and a valid mesh whose nodes keep their positions, loses only short edges, and the shared node and face lists remain complete, symmetric and in corresponding order. "
     "The exchange never modifies a buffer that is still being sent, and does not depend on message timing.",
     ["inputs", "schedules"], "regular, brick and perturbed lattices up to 4x4 (5x5) with small edges of 3 sizes on and off the interfaces x 7 partitions and all assignments of the small ones x 3 tolerances x 4 send and start modes",
     "Tests clean serial meshes only.", ["src/MeshEditor.cc", "src/MeshEditor.hh"], [("exchange of edge masks", "src/MeshEditor.cc")],
     ["every domain's mesh and shared lists after cleaning"], "dist", DRULE, "All pairs of domains compared on every case.", variant="opt", more=[("dist", "asan", "--every", "17")], assumptions=[DGP, FM])
prop("P17", "Unbounded distributed tessellations agree with the Voronoi diagram and with each other",
     "Distributed tessellation without a boundary gives every domain one valid cell per local generator which, within the neighbourhood of all generators' bounding box, is that generator's nearest-point region among all generators. "
     "Shared node and face lists are complete, symmetric and in corresponding order, with bitwise equal positions.",
     ["inputs", "configurations"], "as for the bounded distributed tessellation, on box candidate sets, lattices and partitions", WHYD, DISTFILES,
     [("visible neighbour domains, exchange of generators", "src/DistributedTessellator.cc")], ["every domain's mesh and lists"], "dist", DRULE,
     "Compared with naive half-plane clipping and between all pairs of domains.", variant="opt", more=[("dist", "asan", "--every", "31")], assumptions=[DGP, FM])
GEOMNOTE = "Exact integer arithmetic is the reference; every input of the bounded grid is run through the real functions. " + ASAN
WHYG = "Tests call these functions on a handful of inputs; degenerate positions (collinear, touching, repeated, on the boundary) and units are what breaks them."
prop("P18", "2D convex hulls are exact up to the tolerance",
     "convexHull_2d returns the counterclockwise loop of exactly the extreme points of any 2D point set, as indices of input points, one facet per hull edge. This is so in any order of the points, with repeated points and points within the tolerance dx of each other, "
     "in any units and rotation (points on a straight side may stay as corners where rounding to dx bends it); collinear points give the single facet between the two end points.",
     ["inputs"], "all subsets up to 6 (7) points of a 4x4 lattice in 6 similarity transforms and several orders; all permutations of 3-4 (5) of 9 points; repeated and jittered points; flat sets up to 10000:1 with 4 tolerances",
     WHYG, ["src/convexHull_2d.hh"], [("Graham/monotone chain on quantised points", "src/convexHull_2d.hh")], ["facets of the returned PLC"], "geom",
     "distinct: hulls; nontrivial: two-dimensional sets", GEOMNOTE, tvariant="opt")
prop("P19", "Point, distance and segment queries on a 2D boundary are exact",
     "For a 2D boundary made of an outer loop and holes: within() is true exactly for points inside the outer loop and outside the holes (points on the boundary are not judged); nearestPoint() returns the smallest distance to any facet and a point of the boundary at that distance; "
     "intersect() returns each point where a segment crosses the boundary exactly once. None of this depends on the orientation or storage order of vertices and facets, unused points, the units or the origin.",
     ["inputs"], "10 boundaries (convex, nonconvex, clockwise, collinear vertices, 1-2 holes) x 9 presentations x all query points of a grid of spacing 1/2 (1/4) and all segments between lattice points",
     WHYG, ["src/within.hh", "src/nearestPoint.hh", "src/intersect.hh", "src/polytope_geometric_utilities.hh"],
     [("winding/crossing test", "src/within.hh"), ("closest point per facet", "src/nearestPoint.hh"), ("facet crossings", "src/intersect.hh"), ("segmentIntersection2D", "src/polytope_geometric_utilities.hh")],
     ["returned values"], "geom", "distinct: answers; nontrivial: query points off the boundary and proper crossings", GEOMNOTE, tvariant="opt")
prop("P20", "Convex set predicates are exact in 2D and 3D",
     "convexIntersect says that two convex polygons or polyhedra meet exactly if they have a point in common, and convexWithin that one is inside the other exactly if all its vertices are, in any position, orientation and units (touching pairs are not judged where rounding decides).",
     ["inputs"], "all convex polygons with vertices on a 3x3 (4x4) lattice, pairwise, all offsets, 5 transforms; 7 convex polyhedra pairwise in all 3 (6) turns and offsets; small polyhedra at all places in and around large ones",
     WHYG, ["src/convexIntersect.hh", "src/convexWithin.hh", "src/polytope_geometric_utilities.hh"], [("separating axes", "src/convexIntersect.hh"), ("all vertices behind all facets", "src/convexWithin.hh")],
     ["returned truth values"], "geom", "distinct: (pair, answer); nontrivial: pairs with overlap", GEOMNOTE, tvariant="opt")
prop("P21", "The robust predicates have exact signs",
     "After exactinit(), orient2d, orient3d, incircle and insphere return a value with the exact sign of the determinant of their arguments, zero exactly for degenerate ones, however close to degenerate the points are.",
     ["inputs"], "all tuples of points on small grids, scaled and shifted by powers of two and perturbed by up to 2 units in the last place in every coordinate, so that determinants cancel in every adaptive stage",
     "Tests do not call them; wrong signs appear only where the floating-point filter fails.", ["src/predicates.cc"], [("adaptive exact arithmetic", "src/predicates.cc")], ["sign of the returned value"], "geom",
     "distinct: (predicate, sign, stage input); nontrivial: determinants below the first filter", "Compared with arbitrary precision integers.", variant="opt")
prop("P22", "Geometric measures and elementary constructions are correct",
     "Centroids, signed areas, volumes and normals of triangles, tetrahedra and mesh cells and faces in 2D and 3D; circumcentres; collinear, between and aboveBelow; closest point on and intersection of segments; rays against planes, boxes, circles and spheres; and cellToReducedPLC "
     "agree with their definitions for all inputs, in any units and whatever the orientation in which faces are stored.",
     ["inputs"], "all tuples of lattice points (3x3 to 5x5, 3x3x3), all convex lattice polygons and 7 polyhedra with all face orientations, all lattice rays against boxes, planes, circles and spheres, in several units and offsets",
     WHYG, ["src/polytope_geometric_utilities.hh", "src/polytope_tessellator_utilities.hh"], [("measures and constructions", "src/polytope_geometric_utilities.hh")], ["returned values"], "geom",
     "distinct: values; nontrivial: nondegenerate inputs", GEOMNOTE, tvariant="opt")
prop("P23", "Boolean operations on polygons and polyhedra give the Boolean combination of the regions",
     "csg_union, csg_intersect and csg_subtract (2D and 3D boundaries without holes, facets oriented outwards), also applied to their own results, return a boundary enclosing exactly the union, intersection or difference of the two regions, every point with winding number one inside and zero outside; an empty region is an empty boundary. "
     "boost_union, boost_intersect, boost_subtract and boost_unionReduce do so for 2D regions with holes, boost_clip returns the piece of the intersection around the given point and all other pieces as orphans, and boost_within and boost_intersects agree with the regions. "
     "This holds in any units and for touching, nested, disjoint and identical regions, but where Boost.Geometry itself is wrong only its result has to be returned faithfully.",
     ["inputs"], "8 polygons (10 with holes) pairwise at all integer offsets -6..6 in 5 transforms x 3 operations; all triples in 9 placements x 9 pairs of operations; 9 solids pairwise in 2 (6) turns, offsets and 3 units, all triples x 9 pairs of operations",
     "The only tests print pictures; collinear edges, touching corners and units other than one are where BSP trees fail.",
     ["src/PLC_CSG_2d.hh", "src/PLC_CSG_3d.hh", "src/PLC_Boost_2d.hh", "src/PLC_CSG.cc"], [("BSP tree clipping", "src/PLC_CSG_2d.hh and PLC_CSG_3d.hh"), ("conversion to and from Boost polygons", "src/PLC_Boost_2d.hh")],
     ["area, winding numbers, volume and first moments of the result"], "csg", "distinct: (operation, measure); nontrivial: overlapping regions",
     "2D results are compared exactly by strip integration of winding numbers, 3D results by volume, first moments and winding numbers on a grid.", variant="opt", more=[("csg", "asan", "--every", "13")])
prop("P24", "Silo output describes the distributed mesh and its fields completely",
     "SiloWriter writes every process's mesh, cell, node, edge and face fields and tags unchanged into its file, so that the multi-block objects of the files together name the blocks of all processes exactly once, for every number of processes and of files. "
     "The master file refers to every block by the path where it is. Node lists, connectivity and field arrays are those of the Tessellation, in 2D and in 3D; the files, directory and cycle are the ones asked for, and the result does not depend on message timing.",
     ["inputs", "configurations", "schedules"], "1-4 (thorough 6) processes x every number of files x 4 directories x 5 histories of up to two writes x 2 prefixes, 2D and 3D; all schedules with one deviation (thorough: two, up to 4 processes); 12 meshes x 4 field sets x 4 tag sets",
     "No test reads the files back, or writes with more processes than files.", ["src/SiloWriter.cc", "src/SiloUtils.hh"],
     [("mesh, fields and tags of one block", "src/SiloWriter.cc"), ("PMPIO baton, multi-block and master file", "src/SiloWriter.cc")],
     ["every object read back from the files with the Silo library"], "silo", "distinct: sets of files written; nontrivial: more than one process or at least one field",
     "The real SiloWriter and PMPIO code writes real files, which are read back with the Silo library; only MPI is simulated, so that the schedule is chosen by the explorer.", variant="opt", more=[("silo", "asan", "--every", "5")],
     assumptions=["The installed Silo library (libsilo 4.11) is trusted to write and read what it is given.", FM])
prop("P25", "The C interface gives the C++ results and manages its memory",
     "Every function of the C interface (tessellators, tessellations, boundaries, output to strings and files) gives the same result as the C++ operation it stands for, in every sequence of calls. Queries report the mesh just computed, "
     "objects can be used again, cleared and freed in any order without leaks, double frees or dangling pointers, and strings are written within the given size and terminated.",
     ["inputs", "histories"], "all generator sets of the small domains (lattice and shapes) through all three calls; all histories of up to 4 (6) of 7 operations on a tessellation; all histories of up to 6 (8) operations on a boundary in 2D and 3D; all handler and error sequences of length 5 (7); all buffer sizes",
     "The C tests make one tessellation each and do not look at it.", ["polytope_c/polytope_tessellator.cc", "polytope_c/polytope_tessellation.cc", "polytope_c/polytope_plc.cc"],
     [("copying results into C structures", "polytope_c/polytope_tessellation.cc"), ("wrappers", "polytope_c/polytope_tessellator.cc")], ["fields of the C structures, strings, heap size after freeing"], "capi",
     "distinct: resulting structures; nontrivial: sequences with at least two operations", "Compared with the C++ interface field by field. " + ASAN, uses=("lib", "capi"), variant="asan")
prop("P26", "Serialization round-trips every object, in any sequence",
     "deserialize after serialize gives back the same object bit by bit (numbers, pairs, vectors nested to any depth, points, segments, boundaries with holes, with empty parts), reads exactly the bytes that were written, and serialize appends those bytes to the buffer without touching what is there. "
     "Hence any sequence of objects of mixed types can be written into one buffer and read back in order, and vectors read into vectors with elements are appended.",
     ["inputs", "histories"], "about 1500 objects of 25 types alone, and all sequences of 2-3 of an alphabet of 38 objects, of 4 of 19 (thorough: 38)",
     "The test serializes one object of a few types into a fresh buffer.", ["src/polytope_serialize.hh", "src/Point.hh", "src/Segment.hh"],
     [("serializers of all types", "src/polytope_serialize.hh"), ("serializers of points", "src/Point.hh")], ["objects read, iterator position, buffer contents"], "util",
     "distinct: buffers; nontrivial: buffers that are not empty", "All sequences up to the bound are run through the real code. " + ASAN, variant="opt", more=[("util", "asan", "--every", "5")])
prop("P27", "Quantised identification of points is consistent",
     "The Hasher's code of a position holds for each coordinate the number of the quantum counted from the low corner of the box, the width being the largest of box/2^bits, the tolerance and machine epsilon; the flag is set exactly outside of the inner box; unhashing gives a point of the same quantum, inside the box. "
     "uniquePoints identifies exactly the points in the same quantum, keeps the first of them and numbers them in order. IntPointMap gives a point the number of the known point within the tolerance in every coordinate, and a new number if and only if there is none.",
     ["inputs", "histories"], "all combinations of critical coordinates (quantum boundaries and their floating-point neighbours, box corners) in 90 frames per dimension; all tuples of up to 3-4 (5) points on sub-tolerance lattices; all histories of 3 (4) points in a map over 4x4 and 3x3x3 lattices",
     "No test covers these functions; they fail at boundaries of quanta and when coordinates coincide with those of different points.", ["src/polytope_geometric_utilities.hh", "src/IntPointMap.hh"],
     [("Hasher, uniquePoints", "src/polytope_geometric_utilities.hh"), ("IntPointMap::index, have", "src/IntPointMap.hh")], ["codes, unhashed points, index maps"], "util",
     "distinct: codes and maps; nontrivial: points that can be unhashed, sets with identified points", "Compared with quadruple precision and direct definitions. " + ASAN, variant="opt", more=[("util", "asan", "--every", "5")],
     assumptions=["Points lie in the box; a point given to an IntPointMap is within the tolerance of at most one known point."])
HULLP = ["src/convexHull_3d.hh"]
prop("P28", "3D convex hulls are closed, convex and complete",
     "convexHull_3d of any set of points that are not coplanar gives triangles, as indices of the input points, that form the closed, outward oriented surface of the convex hull. No point is outside, no triangle is degenerate, each edge joins exactly two triangles, all extreme points are used and the volume is that of the hull. "
     "This holds in any order, with repeated, coplanar and collinear points, and in any units and rotation.",
     ["inputs"], "all subsets of 4-6 of 27 and up to 10 of 14 lattice points, all subsets of 5-12 points of a box lattice, all orders of 7 small sets with repetitions, lattices up to 4x3x3 stretched up to 1000:1; each in 7 similarity transforms (sizes 1e-9 to 1e10)",
     "The test makes pictures of random points; coplanar, repeated and badly scaled points are where hulls fail.", HULLP,
     [("incremental hull", "src/convexHull_3d.hh")], ["facets of the returned PLC"], "plc", "distinct: (point set, number of facets); nontrivial: more than four points",
     "Exact integer geometry is the reference. " + ASAN, variant="opt", more=[("plc", "asan", "--every", "11")])
prop("P29", "Boundaries are built, reduced, simplified and written faithfully",
     "plc_circle, plc_sphere, plc_cylinder, plc_box and makeBoxPLC give closed, outward oriented boundaries with the vertices and the measure of the shape asked for. Reducing a PLC keeps all facets and holes in place and exactly the points they use. "
     "simplifyPLCfacets merges exactly the coplanar (in 2D collinear) facets of one boundary without holes and keeps its shape and orientation. writePLCtoOFF writes exactly the points, facets and facets of holes that its header announces. valid(), empty() and clear() do what they say. All in any units.",
     ["inputs"], "all boxes over 3 corners and 3 widths per dimension; circles of 3-200, spheres of 2-20, cylinders of 3-40 divisions at 3 centres in 5 sizes; structured families of facets and holes over 4-9 points; 4 polygons with all subsets of vertices along the sides; 9 solids cut in 6 ways in 7 transforms",
     "The library uses these only without holes and in one unit; no test looks at the result.", ["src/polytope_plc_canned_geometries.hh", "src/makeBoxPLC.hh", "src/ReducedPLC.hh", "src/PLC.hh", "src/simplifyPLCfacets.hh", "src/polytope_write_OOGL.hh"],
     [("canned shapes", "src/polytope_plc_canned_geometries.hh"), ("reduction", "src/ReducedPLC.hh"), ("merging facets", "src/simplifyPLCfacets.hh"), ("output", "src/polytope_write_OOGL.hh")],
     ["returned boundaries, written files"], "plc", "distinct: results; nontrivial: boundaries with holes, unused points or facets to merge", "Compared with the definition of each operation. " + ASAN, variant="opt", more=[("plc", "asan", "--every", "5")])
prop("P30", "Index bookkeeping utilities do exactly what they say",
     "removeElements keeps the other elements in order and returns the map from old to new indices (-1 for removed ones). bisectSearch gives the index of the lower bracketing entry of an ascending or descending table, -1 below and the last index above. "
     "computeSortedFaceEdges orders and orients the edges of any loop, or of a chain closed by one new edge, so that each starts where the previous one ends. findBoundaryElements lists exactly the faces with one cell and their nodes, sorted. "
     "hashEdge, positiveID, addKeyToMap and CounterMap follow their definition, and Morton keys interleave the bits of the coordinates.",
     ["inputs"], "all subsets of up to 14 (18) elements; all monotone tables of up to 8 (12) entries over 4 values, with ties; all orders and orientations of loops and chains of up to 7 (8) edges in several numberings; all sets of boundary faces of up to 8 (12) faces",
     "The library calls these on typical arguments only; ties, chains and empty or full selections are not tested.", ["src/removeElements.hh", "src/bisectSearch.hh", "src/polytope_internal.hh", "src/findBoundaryElements.hh", "src/mortonOrderIndices.hh"],
     [("removeElements", "src/removeElements.hh"), ("bisectSearch", "src/bisectSearch.hh"), ("computeSortedFaceEdges", "src/polytope_internal.hh")], ["returned values"], "util",
     "distinct: (input, result); nontrivial: nonempty inputs", "Compared with direct definitions. " + ASAN, variant="opt", more=[("util", "asan", "--every", "37")])
