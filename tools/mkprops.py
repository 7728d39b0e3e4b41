#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": ["src/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Grid topology: coordinates, neighbours and element incidence agree",
 "For every grid size, node and element coordinates, the coordinate-to-index table, the four neighbours of each node (with out-of-grid directions marked by the node count), the four corners of each element and the elements around each node all describe one and the same regular grid. Exactly the nodes on the grid's edge are flagged as domain-edge nodes, and every freshly built node is unmasked, outside any narrow band, not a mine and without boundary points.",
 ["configurations"], "every width x height up to the bound (all pairs, chosen symbolically)",
 "MeshTests builds one or two sizes and spot-checks a few indices; an error for non-square, one-wide or odd sizes is not sampled.",
 ["Mesh.cpp", "Mesh.h"], [("node initialisation", "Mesh::initialiseNodes"), ("element initialisation", "Mesh::initialiseElements"), ("neighbour table", "Mesh::initialiseNeighbours")],
 ["Mesh::nodes", "Mesh::elements", "Mesh::xyToIndex"])
prop("C02", "Point location returns the containing cell and the nearest node",
 "For every point inside the domain (edges and corners included) the element lookup returns an element whose closed unit square contains the point, and the closest-node lookup returns a node that no other node is strictly closer to than (up to floating-point ties). The overloads taking a coordinate pair and two numbers agree.",
 ["inputs", "configurations"], "every pair of IEEE doubles (x, y) in [0,w] x [0,h], all small grid sizes",
 "MeshTests queries a few points at comfortable positions; the far edges, half-way points and the last cell need all double inputs.",
 ["Mesh.cpp"], [("lookup arithmetic", "Mesh::getElement, Mesh::getClosestNode")], ["Mesh::getElement", "Mesh::getClosestNode"])
prop("C03", "The marching priority queue always delivers the smallest live value",
 "For every sequence of insertions, removals and value changes the queue reports and removes an entry with the smallest current value, together with the address it was inserted with. A value change through the handle returned on insertion affects exactly that entry, and the reported size and emptiness match the number of live entries.",
 ["histories", "inputs"], "every history of at most N operations with arbitrary real values",
 "HeapTests pushes one fixed list of values and pops it; value changes after removals and the handle bookkeeping need arbitrary histories.",
 ["Heap.cpp", "Heap.h"], [("sift up/down", "Heap::siftUp, Heap::siftDown"), ("back pointers", "Heap::set, Heap::pop")],
 ["Heap::push/pop/set/peek/size/empty"], [("backPointer", "handle -> heap position", "Heap.h")])
prop("C04", "Initial field is the distance to the nearest hole or domain edge",
 "A level set built from circular holes stores at every node the signed distance min(distance to the nearest domain edge, distance to each hole's centre minus its radius), positive in the structure and negative inside a hole. With no holes it stores the distance to the nearest domain edge; the order of the holes does not matter.",
 ["inputs", "configurations"], "every hole centre and radius (reals in a bounded box), small grids, up to 2 holes",
 "LevelSetTests use one or two hand-placed holes and mostly check a handful of nodes.",
 ["LevelSet.cpp", "Hole.cpp"], [("hole initialisation", "LevelSet::initialise(holes)"), ("domain distance", "LevelSet::closestDomainBoundary")], ["LevelSet::signedDistance"])
prop("C05", "Initial field from a polygon: exact distance, sign by inside test",
 "A level set built from a closed piecewise-linear contour stores at every node a value whose magnitude is the smaller of the distance to the domain edge and the Euclidean distance to the nearest contour segment. The value is negative exactly for nodes inside the contour, also when vertices lie at fractional coordinates.",
 ["inputs"], "every triangle/axis-aligned box with real vertex coordinates in a bounded box, small grids",
 "LevelSetTests initialise one square with integer vertices, where truncation and edge cases cannot show.",
 ["LevelSet.cpp"], [("segment distance", "LevelSet::pointToLineDistance"), ("winding number", "LevelSet::isInsidePolygon, isLeftOfLine")], ["LevelSet::signedDistance"])
prop("C06", "Narrow band and mine flags match the field",
 "After construction, masking or reinitialisation, a node is listed (exactly once, with a matching active flag and count) in the narrow band if and only if it is not fixed and its absolute signed distance is below the band width. Mines are exactly the listed nodes whose absolute distance lies within one unit of the band edge, and their list, count and flags agree whatever the earlier history.",
 ["inputs", "histories", "configurations"], "every field on small grids (real values), every band width 3..6, histories of reinitialise/mask calls",
 "LevelSetTests count the band for one or two shapes; stale flags only show after a second rebuild.",
 ["LevelSet.cpp"], [("band construction", "LevelSet::initialiseNarrowBand")], ["LevelSet::narrowBand/mines", "Node::isActive/isMine"])
prop("C07", "Masked regions are frozen exactly where requested",
 "Masking with circles, with a rectangle (given by its lower-left and upper-right corner) or with a polygon marks exactly the nodes strictly inside the region, makes their field value non-positive, and leaves the sign of every other node's field value unchanged. Masked regions add up: a node masked once stays masked when another region is masked. A masked node next to solid structure lies on the front. Masked nodes never belong to the narrow band and keep their field value through velocity extension and updates that do not reinitialise.",
 ["inputs", "histories"], "every circle, rectangle and polygon with real parameters, small grids, several fields",
 "LevelSetTests mask one region on one mesh.",
 ["LevelSet.cpp", "FastMarchingMethod.cpp"], [("masking", "LevelSet::mask"), ("band exclusion", "LevelSet::initialiseNarrowBand")], ["Node::isMasked", "LevelSet::signedDistance"])
prop("C08", "Reinitialisation keeps every sign and the exact distance at the front",
 "Reinitialising a level set never changes the sign of any node and leaves nodes on the front at zero. Next to the front the new magnitude is the distance derived from the linear crossings on the node's grid edges (harmonic combination of the nearest crossing in x and in y), independent of how the field was scaled and of values away from the front.",
 ["inputs"], "every real field on small grids (all sign patterns and values)",
 "FastMarchingMethodTests reinitialise a few shapes and compare with tolerance; the per-edge case analysis needs all sign patterns.",
 ["FastMarchingMethod.cpp", "LevelSet.cpp"], [("frozen initialisation", "FastMarchingMethod::initialiseFrozen"), ("driver", "LevelSet::reinitialise")], ["LevelSet::signedDistance"])
prop("C09", "Reinitialised field solves the discrete distance equation outward",
 "Away from the front each reinitialised magnitude is larger than that of its closest neighbour, by at most one grid spacing. For every straight axis-aligned front, and for two parallel ones at least two grid spacings apart, the result is the exact distance, whatever the scale of the given field; negating the field negates the result. Each value solves the upwind difference equation with the nearer neighbours, second order where a yet nearer node lies behind.",
 ["inputs"], "every real field on small grids and strips; every offset of an axis-aligned plane on larger grids",
 "FastMarchingMethodTests compare selected shapes with an error tolerance that hides ordering and stencil errors.",
 ["FastMarchingMethod.cpp", "Heap.cpp"], [("marching loop", "FastMarchingMethod::solve"), ("local update", "FastMarchingMethod::updateNode, solveQuadratic")], ["LevelSet::signedDistance"])
prop("C10", "Velocity extension stays within the boundary velocities, field untouched",
 "Extending boundary-point velocities over the narrow band never changes the signed distance field and never produces a value outside the range spanned by the boundary velocities and zero. In a free domain, if all boundary points move with the same velocity, so does every active node that is connected to the front through active nodes; a node straight across from a straight front parallel to a grid axis takes the velocity of the front point it faces, and between two such fronts that of the nearer one.",
 ["inputs"], "every real boundary velocity vector on small grids with planar or arbitrary fronts",
 "FastMarchingMethodTests and LevelSetTests extend one constant velocity; averages and division by weights need arbitrary velocities.",
 ["FastMarchingMethod.cpp", "LevelSet.cpp"], [("inverse-distance weighting", "LevelSet::initialiseVelocities"), ("extension", "FastMarchingMethod::finaliseVelocity")], ["LevelSet::velocity", "LevelSet::signedDistance"])
prop("C11", "Upwind gradient magnitude is exact on planes and symmetric",
 "On every field that is linear in the coordinates the computed gradient magnitude at every narrow-band node equals the norm of the slope, whatever the sign of the nodal velocity and wherever the node lies. Gradients are non-negative, zero off the narrow band, and mirror or transpose together with the field; on any field they are the upwind combination of fifth-order WENO one-sided differences, with differences beyond the mesh edge copied from the nearest one inside (first order on meshes narrower than four elements).",
 ["inputs", "configurations"], "every slope/offset (reals) on grids 4..8 wide; every field for the symmetry part at bounded size",
 "LevelSetTests check the gradient for one circle; the many edge-stencil cases are not each reached.",
 ["LevelSet.cpp"], [("stencil selection", "LevelSet::computeGradient"), ("WENO weights", "LevelSet::gradHJWENO")], ["LevelSet::gradient"])
prop("C12", "A time step moves the field by velocity x gradient x step and no more",
 "Updating the level set changes each active node by exactly minus time step times gradient times velocity and leaves all other nodes alone, except that active domain-edge nodes are clamped to be non-positive. It reports and performs a reinitialisation if and only if some mine ended within one unit of the front.",
 ["inputs", "histories"], "every real velocity, gradient, field and time step on small grids",
 "LevelSetTests run one update on one mesh.",
 ["LevelSet.cpp"], [("update loop", "LevelSet::update")], ["LevelSet::update", "LevelSet::signedDistance"])
prop("C13", "Discretised boundary points are exactly the zero crossings",
 "For every field, each boundary point lies where the field interpolated linearly along a grid edge is zero (or on a node whose value is zero), every sign change along an edge that borders the structure yields exactly one point, and no two points coincide. No point appears where the field does not cross zero. For the evolving shape only edges with at least one end in the narrow band or masked are considered; a target shape is considered everywhere.",
 ["inputs"], "every real field on small grids (all sign patterns incl. zeros)",
 "BoundaryTests discretise a few hand-made shapes; there are 3^n sign patterns, with zeros on nodes the delicate ones.",
 ["Boundary.cpp"], [("edge crossing", "Boundary::discretise"), ("deduplication", "Boundary::isAdded"), ("node status", "Boundary::computeMeshStatus")], ["Boundary::points", "Boundary::segments"])
prop("C14", "Boundary segments form a consistent network that separates the phases",
 "Every segment joins two different existing boundary points lying on its element, its length is their Euclidean distance, lengths add up to the total and to half-segment point lengths, and point-to-segment and point-to-neighbour links mirror the segment list exactly. Each boundary point not on the domain edge is shared by an even number of segments, and the segments inside an element separate its inside from its outside corners.",
 ["inputs"], "every real field on small grids (all sign patterns incl. zeros and saddles)",
 "BoundaryTests check segment counts for a few shapes; saddles and touching fronts are not covered exhaustively.",
 ["Boundary.cpp"], [("segment construction", "Boundary::discretise"), ("lengths and neighbours", "Boundary::computePointLengths, segmentLength")], ["Boundary::segments", "Boundary::points", "Element::boundarySegments"])
prop("C15", "Point move limits never allow leaving the domain or entering fixed nodes",
 "Every boundary point's limits have magnitude at most the level set's move limit. The outward limit does not exceed the distance to the nearest domain edge, so a point on the edge cannot move outwards, and points within reach of the edge are flagged as such. No point may move outwards past its nearest node when that node is fixed, and points lying on a fixed node are flagged as fixed. Away from edges and fixed nodes the limits equal the move limit.",
 ["inputs", "configurations"], "every real field on small grids with/without masks, fixed domains and arbitrary move limits",
 "BoundaryTests look at limits for points in one shape.",
 ["Boundary.cpp"], [("limit initialisation", "Boundary::initialisePoint")], ["BoundaryPoint::negativeLimit/positiveLimit/isDomain/isFixed"])
prop("C16", "Area fractions equal the enclosed area of each element",
 "After discretisation, each element's material area fraction lies between 0 and 1 and equals the exact area of the part of its square that the boundary segments enclose on the structure side (1 for inside elements, 0 for outside elements, saddles split consistently with the segments drawn). The returned and stored total is the sum of all fractions, and complementary fields have complementary fractions when no ambiguity arises.",
 ["inputs"], "every real field on small grids (all sign patterns incl. zeros and saddles)",
 "LevelSetTests compute area fractions for few shapes; all cut configurations with arbitrary crossings are not reached.",
 ["LevelSet.cpp", "Boundary.cpp"], [("polygon area", "LevelSet::cutArea, polygonArea, isClockwise"), ("element status", "Boundary::discretise")], ["LevelSet::computeAreaFractions", "Element::area", "LevelSet::area"])
prop("C17", "Boundary normals are unit vectors pointing into the structure",
 "Computed boundary-point normals have unit length, also at the domain edge, and on every planar front (any orientation and offset) they equal the normalised field gradient, pointing towards increasing signed distance. On any field, mirroring, transposing or negating it mirrors, transposes or negates the normals.",
 ["inputs"], "every slope and offset (reals) on small grids; every monotone field for unit length",
 "BoundaryTests check normals for one circle/straight edge.",
 ["Boundary.cpp"], [("nodal gradients", "Boundary::computeNormalVectors")], ["BoundaryPoint::normal"])
prop("C18", "Target shapes are built and discretised independently of the evolving shape",
 "Constructors that accept a target store in the target field the same reinitialised distance that a level set built directly from that shape would have, while the evolving field is the one built from the initial shape. Discretising the target yields the boundary of the target field and leaves both fields unchanged.",
 ["inputs"], "every target/initial hole radius or box (reals) on small grids; every target field for the discretisation",
 "The existing tests build no level set from these constructors with varied parameters.",
 ["LevelSet.cpp", "Boundary.cpp"], [("target constructors", "LevelSet::LevelSet(initial, target)"), ("target discretisation", "Boundary::discretise(levelSet, true)")], ["LevelSet::target", "LevelSet::signedDistance"])
prop("C19", "Local perimeter equals the length of the incident segments",
 "The local perimeter of every boundary point is the sum of distances between the point's current position and its neighbours; unperturbed it equals the sum of the lengths of its incident segments, and moving the point changes nothing else in the boundary.",
 ["inputs"], "every real field on small grids and every displacement of the point",
 "BoundaryTests evaluate the perimeter once.",
 ["Boundary.cpp"], [("perimeter", "Boundary::computePerimeter")], ["Boundary::computePerimeter"])
prop("C20", "Finite-difference sensitivities are exact and leave the point in place",
 "For every boundary point and every objective that is linear or quadratic in the point's position, the computed sensitivity equals the objective's derivative along the inward normal divided by the point's length. The point's coordinates, normal and length are unchanged afterwards and the objective is only evaluated at the two points one perturbation step away on either side.",
 ["inputs"], "every coordinate, unit normal, length > 0, step and objective coefficients (reals)",
 "SensitivityTests use one area objective on one shape with tolerance.",
 ["Sensitivity.cpp"], [("central difference", "Sensitivity::computeSensitivity")], ["Sensitivity::computeSensitivity", "callback arguments"])
prop("C21", "Ito correction adds temperature times local curvature term once",
 "The Ito correction subtracts from each boundary point's first sensitivity exactly the temperature times the local curvature over twice the point's length, where the curvature is the finite-difference sensitivity of the local perimeter. It leaves all other sensitivities and the geometry unchanged, is the identity at zero temperature, and the overload that takes the level set computes the normals first.",
 ["inputs"], "every temperature, sensitivity vector and real field on small grids",
 "No existing test calls it with a reference value.",
 ["Sensitivity.cpp", "Boundary.cpp"], [("correction", "Sensitivity::itoCorrection")], ["BoundaryPoint::sensitivities"])
prop("C22", "Stochastic steps stay within the move limit and keep displacement scale",
 "With thermal noise the time step is divided by the returned scale factor, which is at least one and just large enough that twice the temperature times the step stays within the square of half the move limit. Each boundary point's velocity then receives one standard normal draw of its own times sqrt(2 temperature / step) over the square root of its length, the deterministic part is kept, and the nodal velocities are the extension of the perturbed ones. At zero temperature step and velocities are those of the deterministic extension.",
 ["inputs"], "every temperature, time step, boundary velocity and noise sample (reals) on small grids",
 "LevelSetTests run one seeded stochastic step.",
 ["LevelSet.cpp", "MersenneTwister.h"], [("stochastic velocities", "LevelSet::computeVelocities(..., MersenneTwister&)")], ["time step", "LevelSet::velocity", "BoundaryPoint::velocity"])
prop("C23", "Saved level sets load back unchanged",
 "For every field, saving a level set and loading the file into a level set of the same size restores every node's value - exactly for the binary format, to printed precision for plain and coordinate text - in the same node order, and touches no other state of the saved object. The numbered-data-point overloads read and write the same files as the named ones.",
 ["inputs", "configurations"], "every real field on small grids, all formats, directory and data point forms",
 "InputOutput has no test in the repository.",
 ["InputOutput.cpp"], [("writers", "InputOutput::saveLevelSetTXT/BIN"), ("readers", "InputOutput::loadLevelSetTXT/BIN")], ["files", "LevelSet::signedDistance"])
prop("C24", "Exported files describe the state they were asked to export",
 "Text and VTK exports contain, in the documented order and under the documented file name, one record per node, element, boundary point or segment with the values of the exported object, and the optional velocity and gradient sections appear exactly when requested. Exports never modify the exported object.",
 ["inputs", "configurations"], "every real field/boundary on small grids, every combination of options",
 "InputOutput has no test in the repository.",
 ["InputOutput.cpp"], [("writers", "InputOutput::save*")], ["files"])
prop("C25", "Malformed or missing input files are rejected, never half-trusted",
 "Loading a level-set file that is missing, has the wrong number of records or the wrong layout terminates with an error instead of reading or writing outside the level set or leaving nodes unset. A well-formed file is always accepted.",
 ["fault_sequences", "inputs"], "every file shape up to the bound: record count, columns per record, truncation point, real values",
 "InputOutput has no test in the repository; malformed files are fault inputs.",
 ["InputOutput.cpp"], [("record checks", "InputOutput::loadLevelSetTXT, loadLevelSetBIN")], ["exit status", "LevelSet::signedDistance", "memory"])
prop("C26", "Seeding fixes the random stream",
 "After setting a seed, the reported seed is that seed and every following sequence of uniform, integer and normal draws is a function of the seed alone, whatever was drawn before. Integer draws lie in the inclusive requested range, uniform draws in [0,1), and normal draws with a mean and deviation are the standard draw scaled and shifted.",
 ["histories", "inputs"], "every history of draws before and after seeding up to the bound, arbitrary engine output",
 "MersenneTwisterTests reseed once and compare one stream kind.",
 ["MersenneTwister.h"], [("seeding", "MersenneTwister::setSeed"), ("draws", "MersenneTwister::normal, integer, operator()")], ["drawn values"])
prop("C27", "Optimised displacements respect the limits and the effective time step",
 "Whatever optimum the solver returns, the velocity assigned to every boundary point times the resulting time step is within the allowed maximum displacement and, for points on the domain edge, within the outward limit; fixed points do not move. The time step is the magnitude of the objective multiplier, a round-off failure is retried with smaller constraint targets, and the starting point handed to the solver lies within its bounds.",
 ["inputs", "fault_sequences"], "every side limit, constraint distance and solver outcome within its bounds (reals), sensitivities partly arbitrary, incl. the round-off error exit",
 "Optimise is not built in the baseline, since NLopt is missing.",
 ["Optimise.cpp"], [("displacements", "Optimise::computeDisplacements, rescaleDisplacements"), ("solve", "Optimise::solve")], ["BoundaryPoint::velocity", "time step", "lambdas"])
prop("C28", "Optimiser callbacks give consistent values and gradients",
 "While no displacement limit is active, the objective and constraint values handed to the solver are linear in the multipliers with exactly the gradient handed alongside; displacements are the combination of the reported multipliers with the sensitivities, the reported change is theirs, a constraint measures the change still missing, and each target can be met within the bounds. Maximising differs from minimising only in what is asked of the solver. Only inequality constraints that no move can reach are dropped, their multiplier is zero and the other multipliers keep their place.",
 ["inputs", "configurations"], "every constraint distance and solver outcome (reals), one sensitivity arbitrary, two points and up to two constraints, each subset of active constraints",
 "Optimise is not built in the baseline, since NLopt is missing.",
 ["Optimise.cpp"], [("callbacks", "Optimise::callback, computeFunction, computeGradients"), ("constraint dropping", "Optimise::computeConstraintDistances")], ["callback values", "lambdas"])
prop("C29", "The whole update cycle is memory safe and terminates on any field",
 "For every field with a front, every sequence discretise, area fractions, normals, velocities, gradients, update, reinitialise completes without reading or writing outside its data, without using uninitialised values, without terminating the process and without a non-finite value appearing in the field. A field without a front makes reinitialisation and velocity extension stop with the documented error and nothing worse.",
 ["inputs", "histories"], "every real field on small grids (all sign patterns incl. zeros, touching fronts, no front) and whole cycles from it",
 "The unit tests run single operations on well-shaped fields and are built without memory checking.",
 ["LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "Mesh.cpp"], [("array sizing", "Boundary::discretise, computePointLengths, LevelSet::cutArea"), ("stencils", "LevelSet::computeGradient"), ("marching", "FastMarchingMethod::solve")], ["memory accesses", "exit status", "LevelSet::signedDistance"])
prop("C30", "Invalid construction parameters are rejected and valid ones accepted",
 "Constructing a level set terminates with an error exactly when the move limit is not strictly between 0 and 1 or the band width is not greater than 2, in every constructor form, or when the default structure is asked for on a mesh with a side below 75; every other combination constructs, stores the given move limit and builds a band of the given width. Building an optimiser is refused exactly when its maximum displacement is not strictly between 0 and 1, there are no boundary points, or the numbers of multipliers, constraint distances and equality flags (if given) do not match.",
 ["inputs", "configurations"], "every real move limit, band widths 0..8, all six constructor forms; all small combinations of vector sizes for the optimiser",
 "Tests only construct valid level sets, since failure ends the process.",
 ["LevelSet.cpp", "Optimise.cpp"], [("parameter checks", "LevelSet::LevelSet"), ("default structure", "LevelSet::initialise()"), ("optimiser checks", "Optimise::Optimise")], ["exit status", "LevelSet::moveLimit"])
prop("C31", "Discretisation is independent of orientation and phase",
 "Mirroring or transposing the field mirrors or transposes boundary points, segments, lengths, normals, area fractions and reinitialised values; swapping structure and void keeps the interior boundary and total length and complements the area fractions wherever no saddle tie arises.",
 ["inputs"], "every real field on small grids",
 "No test compares a shape with its mirror image over arbitrary fields.",
 ["Boundary.cpp", "LevelSet.cpp", "FastMarchingMethod.cpp"], [("case tables", "Boundary::discretise"), ("stencils", "FastMarchingMethod::initialiseFrozen")], ["Boundary::length", "Element::area", "LevelSet::signedDistance"])
prop("C32", "A uniformly moving flat front advances by exactly speed times time",
 "For every flat axis-aligned front, speed and time step within the move limit, one full cycle of discretisation, velocity extension, gradient computation and update moves the front by exactly speed times time step everywhere away from the domain edge (to the discretisation's snapping tolerance of 1e-6), repeated cycles accumulate, and the enclosed area changes accordingly.",
 ["inputs", "histories"], "every front offset, speed and step (reals) within the move limit, 1-2 cycles, small grids",
 "The demos show it for particular values; no test runs two cycles with arbitrary values.",
 ["LevelSet.cpp", "Boundary.cpp", "FastMarchingMethod.cpp"], [("cycle", "Boundary::discretise, LevelSet::computeVelocities, computeGradients, update")], ["LevelSet::signedDistance", "Boundary::points", "LevelSet::area"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
