#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Mesh topology is mutually consistent for every mesh size",
 "For every width and height >= 1 the mesh has (w+1)(h+1) nodes and w*h elements; the (x,y) lookup, node coordinates and element centres agree; each element lists its four corners anticlockwise from bottom left; neighbour lists are ordered left, right, down, up, are symmetric, and use the number of nodes as the out-of-domain marker. A node lists exactly the elements that contain it (1, 2 or 4) and is flagged as lying on the domain boundary exactly when it is on the outer edge. A new mesh has no masked nodes.",
 ["inputs", "configurations"], "every mesh width and height, every node and element",
 "The mesh test looks at one 3x3 mesh; degenerate (1xN), non-square and larger meshes are never built.",
 ["src/Mesh.cpp", "src/Mesh.h"], [("index arithmetic", "Mesh::initialiseNodes, initialiseElements, initialiseNeighbours")],
 observe=["Mesh::nodes", "Mesh::elements", "Mesh::xyToIndex"])

prop("C02", "Point location returns the containing element and nearest node",
 "For every point of the domain, including points on element edges, nodes and the domain boundary, the element lookup returns a valid element whose closed unit square contains the point (to within 1e-6), and the closest-node lookup returns a valid node at minimum distance from the point. The coordinate-object and (x, y) forms of each lookup agree.",
 ["inputs", "configurations"], "every mesh size and every point of [0,w]x[0,h]",
 "Tests sample a handful of generic points; edges, corners, the far sides of the domain and non-square meshes are not covered.",
 ["src/Mesh.cpp"], [("floor with small offset, quadrant choice", "Mesh::getElement, Mesh::getClosestNode")],
 observe=["Mesh::getElement", "Mesh::getClosestNode"])

prop("C03", "The heap is a priority queue under every operation history",
 "After any sequence of pushes, pops and value updates, pop and peek return the entry with the smallest current value together with the address it was pushed with, size and emptiness equal the number of entries pushed and not yet popped, and the handle returned by push always refers to the same entry in later updates. No history that keeps at most the constructed capacity of entries at one time corrupts memory or the queue; popping or peeking an empty heap, or pushing beyond capacity, is refused with an error.",
 ["histories", "inputs"], "every sequence of push/pop/set/peek/size/empty, every capacity, ties included",
 "Unit tests replay one fixed sequence per method; order, ties, updates of interior entries and push-after-pop histories are not enumerated.",
 ["src/Heap.cpp", "src/Heap.h"], [("binary heap with back pointers", "Heap::push, pop, set, siftUp, siftDown")],
 state=[("heap", "positions -> entries", "Heap::heap"), ("backPointer", "entries -> positions", "Heap::backPointer")],
 observe=["Heap::push", "Heap::pop", "Heap::set", "Heap::peek", "Heap::size", "Heap::empty"])

prop("C04", "Reinitialisation never moves material across the interface",
 "Reinitialising a level set keeps the side of every node: positive nodes stay positive, negative nodes stay negative and nodes exactly on the contour stay exactly zero, so no region appears, disappears or swaps side, whatever the magnitude of the values (from 1e-30 to 1e30). All values stay finite, and a node that has no opposite-signed or zero neighbour ends strictly further from the contour than at least one of its neighbours on the same side or on the contour.",
 ["inputs", "configurations"], "every finite field with a contour, any mesh, masks, any scale of values",
 "The fast marching test runs one circle; sign changes on unusual fields (thin regions, isolated nodes, zeros on grid lines) are never sampled.",
 ["src/FastMarchingMethod.cpp", "src/LevelSet.cpp"], [("frozen set, root choice by sign", "FastMarchingMethod::initialiseFrozen, solveQuadratic")],
 observe=["LevelSet::reinitialise", "FastMarchingMethod::march"])

prop("C05", "Reinitialisation solves the upwind distance equation in freeze order",
 "After reinitialisation a node next to the contour holds the perpendicular distance 1/sqrt(1/dx^2+1/dy^2) built from the nearest linear-interpolation crossing along each axis. Every other node satisfies the upwind quadratic (second order along an axis where the next node beyond the neighbour is known and no further than it, else first order) with the larger root, using only nodes accepted earlier; where the quadratic has no real root the nearer direction alone decides; the node accepted next is always the one with the least trial distance, and every reachable node is accepted exactly once. Negating, mirroring or transposing the input correspondingly negates, mirrors or transposes the result (up to the order in which exact ties are accepted).",
 ["inputs", "histories"], "every finite field with a contour, any mesh; every acceptance order the queue produces",
 "The single circle test compares to a loose tolerance; stencil, ordering and tie handling are not observed.",
 ["src/FastMarchingMethod.cpp", "src/Heap.cpp"], [("marching loop", "FastMarchingMethod::solve, updateNode, initialiseTrial"), ("priority order", "Heap")],
 state=[("nodeStatus", "far / trial / frozen", "FastMarchingMethod::nodeStatus")],
 observe=["FastMarchingMethod::march", "LevelSet::reinitialise"], hook="order in which nodes leave the trial heap (guarded hook in Heap::pop)")

prop("C06", "Velocity extension is bounded, upwind and leaves the level set alone",
 "Extending boundary-point velocities changes no signed distance value; a node next to the contour gets the inverse-square-distance average of the velocities of the boundary points within one grid spacing along its own grid lines, or exactly the velocity of a point lying on it (within 1e-3); next to a contour without boundary points (a masked region or fixed edge) the velocity is zero. Every other band node gets the average of its upwind neighbours weighted by their differences in distance, so wherever every node next to the contour has such a boundary point a uniform boundary velocity extends to exactly that velocity, and extended velocities never leave the range of the boundary velocities (and zero). The extension is linear in the boundary velocities.",
 ["inputs", "configurations"], "every shape, boundary velocity assignment, masks and fixed-domain setting",
 "The velocity test checks one circle with uniform velocity; non-uniform velocities, masked or fixed domains, and points on nodes are not covered.",
 ["src/LevelSet.cpp", "src/FastMarchingMethod.cpp"], [("inverse-square mapping", "LevelSet::initialiseVelocities"), ("upwind averaging and restore", "FastMarchingMethod::march, finaliseVelocity")],
 observe=["LevelSet::computeVelocities", "LevelSet::velocity", "LevelSet::signedDistance"])

prop("C07", "Narrow band and mines are exactly the nodes the thresholds define",
 "After construction, reinitialisation or masking, the band lists once each exactly the nodes with |distance| < band width that are neither masked nor (with a fixed domain) on the domain boundary, and those nodes are exactly the ones flagged active. The mines are exactly the band nodes with |distance| >= band width - 1 and those are exactly the nodes flagged as mines, after any history of updates; other nodes carry neither flag.",
 ["inputs", "histories", "configurations"], "every band width > 2, field, mask, fixed or free domain, and history of rebuilds",
 "The tests check one shape and never rebuild the band after the contour moved.",
 ["src/LevelSet.cpp"], [("band construction", "LevelSet::initialiseNarrowBand")],
 state=[("narrowBand, nNarrowBand", "indices of band nodes", "LevelSet"), ("mines, nMines", "indices of mines", "LevelSet"), ("isActive, isMine", "node flags", "Mesh::Node")],
 observe=["LevelSet::narrowBand", "LevelSet::mines", "Node::isActive", "Node::isMine"])

prop("C08", "Update advances exactly the band and reinitialises exactly when needed",
 "An update changes each band node by -(time step * gradient * velocity), clips domain-boundary nodes so that they never become positive, and leaves all other nodes untouched. It reports true exactly when some mine then has |distance| < 1; in that case the level set and band equal those of a fresh reinitialisation of the advanced field, otherwise the band, mines and flags are unchanged.",
 ["inputs", "histories"], "every band, velocity, gradient, time step, and sequence of updates",
 "Tests perform a single update on a regular shape and do not examine nodes outside the band, the clip, or the decision to reinitialise.",
 ["src/LevelSet.cpp"], [("update loop and mine check", "LevelSet::update")],
 observe=["LevelSet::update", "LevelSet::signedDistance", "LevelSet::narrowBand"])

prop("C09", "Boundary points are exactly the zero crossings of the active mesh",
 "Discretising places exactly one boundary point at the linear-interpolation zero of every grid edge whose ends have opposite signs, and one on every node of the contour that carries a boundary segment, for edges touching the band or a masked region (all edges for a target); there are no other points and no duplicates. Node and element status agree with the sign of the level set with tolerance 1e-6, and each node lists exactly the boundary points on its own edges or on itself. Discretising the target uses the target field and leaves the current field untouched.",
 ["inputs", "configurations"], "every field, mesh, mask, fixed or free domain, target or current (crossings more than about 1e-6 away from a node)",
 "The boundary tests inspect four hand-made meshes; the case analysis has 3^4 node-sign patterns per element with cross-element sharing.",
 ["src/Boundary.cpp"], [("edge scan and de-duplication", "Boundary::discretise, isAdded"), ("status", "Boundary::computeMeshStatus")],
 observe=["Boundary::points", "Node::status", "Element::status", "Node::boundaryPoints"])

prop("C10", "Boundary segments form the contour and all cross-references agree",
 "Within each element the segments are those of marching squares on the element's node signs (two crossings join; a crossing joins a contour node that has an outside neighbour; two opposite contour nodes join across; a saddle is resolved by the sign of the centre average; an edge with both ends on the contour is a segment), each lies in the element that lists it, and segment lengths are Euclidean. Totals and cross-references agree: boundary length is the sum of segment lengths, each point's segment and neighbour lists hold exactly the segments that end at it, each point's length is half the sum of those segment lengths, and the perimeter query returns the summed distance to its neighbours; every point strictly inside a fully active region has even degree, i.e. contours do not end inside the domain.",
 ["inputs", "configurations"], "every node-sign pattern and magnitude, any mesh, masks and fixed domain",
 "Four hand-made shapes cover few of the 81 sign patterns and no shared-node or touching contours.",
 ["src/Boundary.cpp", "src/Boundary.h"], [("per-element case analysis", "Boundary::discretise"), ("lengths and connectivity", "Boundary::computePointLengths, computePerimeter")],
 observe=["Boundary::segments", "Boundary::points", "Boundary::length", "Element::boundarySegments", "Boundary::computePerimeter"])

prop("C11", "Area fractions equal the material area on the inside of the contour",
 "After discretisation every element's area fraction lies in [0,1]: 1 when no node is outside, 0 when no node is inside, and otherwise the exact area on the material side of the element's boundary segments, including both saddle configurations. The returned total is the sum of the element fractions; area fractions of a shape and of its mirror image agree, and a shape and its complement add up to one in each cut element (except in saddles whose centre value is exactly zero and in elements with a whole edge on the contour).",
 ["inputs", "configurations"], "every node-sign pattern and magnitude, any mesh",
 "The area test uses one shape; the polygon assembly and angular sort depend on the element pattern and on positions along the edges.",
 ["src/LevelSet.cpp"], [("polygon assembly and shoelace", "LevelSet::computeAreaFractions, cutArea, polygonArea, isClockwise"), ("element status", "Boundary::discretise")],
 observe=["LevelSet::computeAreaFractions", "Element::area"])

prop("C12", "Normals are unit inward gradients, never NaN",
 "Every boundary point that touches a band node with non-zero gradient gets a unit normal pointing towards the material: the inverse-square-weighted average of the nodal gradient directions (central differences inside, one-sided at the edges), or exactly the nodal direction for a point lying on a node (within 1e-3). No normal is ever NaN or infinite.",
 ["inputs", "configurations"], "every field, mesh and mask",
 "One test checks normals of a circle to a loose tolerance; edges of the mesh, points on nodes and vanishing gradients are not sampled.",
 ["src/Boundary.cpp"], [("nodal gradient and interpolation", "Boundary::computeNormalVectors")],
 observe=["Boundary::computeNormalVectors", "BoundaryPoint::normal"])

prop("C13", "Move limits keep points in the domain and out of masked regions",
 "Each boundary point's positive limit is the global move limit; its negative limit is minus the move limit, reduced to minus the distance to the domain edge when that is closer than the move limit, and further reduced to minus the distance to its closest node when that node is masked. A point is flagged as domain exactly when it lies on the domain edge, and as fixed exactly when it lies on a masked node.",
 ["inputs", "configurations"], "every point position relative to the domain edges and masked nodes, every move limit in (0,1)",
 "The move-limit test checks a few points on a regular contour; masks combined with edges are not covered.",
 ["src/Boundary.cpp"], [("limits", "Boundary::initialisePoint")],
 observe=["BoundaryPoint::negativeLimit", "BoundaryPoint::positiveLimit", "BoundaryPoint::isDomain", "BoundaryPoint::isFixed"])

prop("C14", "Masked regions stay empty for the whole history",
 "Masking marks exactly the nodes strictly inside the given holes, rectangle or polygon (nodes on the outline of a polygon may count either way), and makes them void; earlier masks are kept and nodes that are not covered keep their side. Whatever sequence of velocity extension, gradients, updates, further masks, reinitialisations and discretisations follows, masked nodes stay outside the material and out of the band.",
 ["histories", "inputs", "configurations"], "every mask shape and every later history of updates",
 "Tests apply one mask and look at flags once; no later update is performed.",
 ["src/LevelSet.cpp", "src/Boundary.cpp"], [("mask tests and void value", "LevelSet::mask"), ("band exclusion", "LevelSet::initialiseNarrowBand")],
 observe=["LevelSet::mask", "Node::isMasked", "LevelSet::signedDistance", "LevelSet::narrowBand"])

prop("C15", "Initial level sets are the exact distance fields of the requested shapes",
 "Construction from holes gives at each node the minimum of the distance to the nearest domain edge and the signed distances to all holes; from a closed polygon it gives the smaller of edge and polyline distance, negated exactly for nodes inside the polygon (not on its outline), in either orientation; without shapes it gives the documented staggered Swiss-cheese of radius-5 holes. Constructors with a target store in the target the reinitialised field of the target shapes and start from the initial shapes, with no influence of one on the other.",
 ["inputs", "configurations"], "every hole list, simple polygon, orientation, mesh size and constructor form",
 "The initialisation test uses one hole list; polygons with short edges, both orientations and the six constructors are not compared with geometry.",
 ["src/LevelSet.cpp", "src/Hole.cpp"], [("distance to shapes", "LevelSet::initialise, pointToLineDistance, isInsidePolygon, closestDomainBoundary")],
 observe=["LevelSet constructors", "LevelSet::signedDistance", "LevelSet::target"])

prop("C16", "Saved data read back is the saved data, and every write form agrees",
 "Loading a level set from a binary file restores the saved field bit for bit, and from a text file to the printed precision, for the same mesh, through the file-name or the numbered form and in or out of a directory; the numbered forms use the documented zero-padded names. Each save reflects the state at the time of the save and only that file changes; point, segment, area and VTK files list every entity once in index order (VTK data run along x first), with coordinates and the optional velocity and gradient blocks exactly when requested.",
 ["histories", "inputs", "configurations"], "every sequence of saves, modifications and loads over several files; all flags",
 "Tests save and load once with default flags; overwriting, optional flags and numbered forms are not examined.",
 ["src/InputOutput.cpp"], [("save and load functions", "InputOutput")],
 observe=["InputOutput::save*", "InputOutput::load*"])

prop("C17", "A seed fixes the whole random stream",
 "Setting a seed makes everything drawn afterwards - uniform, integer, normal and scaled normal, in any interleaving - depend only on that seed and on the calls made since, whatever was drawn before and in whichever generator object. Uniform draws lie in [0,1) and cover it evenly, integer draws lie in the closed range requested and reach both ends, all values being equally frequent; a scaled normal drawn right after a seed is mean + deviation times the standard one drawn right after it, different seeds give different streams, and the reported seed is the one set.",
 ["histories", "inputs"], "every seed and every interleaving of draws and re-seeds over several generators",
 "The tests check only averages of long runs.",
 ["src/MersenneTwister.h"], [("engine and distributions", "MersenneTwister")],
 observe=["MersenneTwister::operator()", "integer", "normal", "setSeed", "getSeed"])

prop("C18", "Thermal noise scales the time step by the stated rule and only that",
 "Velocity extension with noise leaves the time step alone and returns 1 when sqrt(2*T*dt) <= half the move limit; otherwise it returns s = 8*dt*T/limit^2 and divides the time step by s, after which the noise displacement scale is exactly half the move limit. Each boundary velocity (of a point with a length) changes by sqrt(2T/dt')/sqrt(point length) times one independent standard normal draw in point order, at zero temperature velocities are unchanged, and the nodal velocities are those of the ordinary extension of the noisy boundary velocities.",
 ["inputs", "configurations"], "every temperature, positive time step, move limit, boundary and seed",
 "No test calls the stochastic form.",
 ["src/LevelSet.cpp"], [("noise and scaling", "LevelSet::computeVelocities (thermal)")],
 observe=["LevelSet::computeVelocities"])

prop("C19", "Sensitivities are central differences per unit length and restore the point",
 "The sensitivity of a function at a boundary point (with a non-zero length) is (f(x+d*n) - f(x-d*n)) / (2*d*length), with f called exactly at those two displaced points with all other attributes unchanged; afterwards the point is exactly where it was. The Ito correction subtracts T*(perimeter sensitivity)/(2*length) from the objective sensitivity of every point only, evaluating each point against the undisplaced boundary, and does nothing at zero temperature.",
 ["inputs", "histories"], "every boundary point, normal, length, displacement and callback",
 "The sensitivity test uses one shape and one function, compared loosely.",
 ["src/Sensitivity.cpp", "src/Boundary.cpp"], [("central difference", "Sensitivity::computeSensitivity"), ("Ito correction", "Sensitivity::itoCorrection"), ("perimeter", "Boundary::computePerimeter")],
 observe=["Sensitivity::computeSensitivity", "Sensitivity::itoCorrection"])

prop("C20", "The optimiser keeps displacements within limits and reports consistent data",
 "Whatever multipliers the numerical solver returns, after solving no free boundary point moves (velocity times time step) by more than the maximum displacement nor a domain-edge point below its negative limit, fixed points do not move, the time step is the magnitude of the objective multiplier, and velocities equal the multiplier-weighted sum of sensitivities divided by the time step. Inequality constraints that cannot be violated within the limits are left out of the problem and come back with multiplier zero while all others keep their own positions; targets of inequalities beyond reach are moved to 99% of the attainable change; the functions, gradients and bounds handed to the solver are those of the scaled problem, gradients match the functions, and the first guess is the caller's multipliers, scaled and brought within the bounds.",
 ["inputs", "configurations"], "every set of boundary points, sensitivities (each function non-zero at some free point), constraints and solver answers with a non-zero objective multiplier; any number of solves per object, the points changing in between",
 "The optimiser needs an external solver library, so nothing of it is built or tested here.",
 ["src/Optimise.cpp", "src/Optimise.h"], [("scaling, constraint removal, limits", "Optimise::solve, computeConstraintDistances, computeDisplacements, computeGradients, rescaleDisplacements")],
 observe=["Optimise::solve", "BoundaryPoint::velocity", "calls made to the solver"])

prop("C21", "Gradients are upwind fifth-order WENO and symmetric under mirror and transpose",
 "The gradient of each band node is the square root of the summed squares of the upwind one-sided derivatives, each the fifth-order WENO combination of the five nearest differences in its direction, with the outermost known difference repeated outside the domain (or the diagonal rule at a corner of the domain whose two neighbours equal it); nodes outside the band have gradient zero. Mirroring or transposing the level set mirrors or transposes the gradient, and a planar field has the exact gradient everywhere.",
 ["inputs", "configurations"], "every field on every mesh, every node position",
 "The gradient test checks one field in the interior; each of the twelve edge cases per direction has its own hand-written stencil.",
 ["src/LevelSet.cpp"], [("stencils and WENO weights", "LevelSet::computeGradients, computeGradient, gradHJWENO")],
 observe=["LevelSet::computeGradients", "LevelSet::gradient"])

prop("C22", "Results depend only on the level set, not on what was computed before",
 "Discretisation, area fractions, normals, velocity extension, gradients, reinitialisation and the band are functions of the current field, masks and parameters: repeating them, doing them in another legal order, reusing objects, or reaching the same field by another route (load, copy, fresh object) gives identical results. Two level sets used alternately never influence each other, and read-only queries change nothing.",
 ["histories", "inputs"], "every interleaving of operations on several objects that passes through equal fields",
 "Every test uses fresh objects and a single call sequence.",
 ["src/LevelSet.cpp", "src/Boundary.cpp", "src/FastMarchingMethod.cpp", "src/Sensitivity.cpp"],
 [("state reset at the start of each stage", "Boundary::discretise, computeMeshStatus, LevelSet::initialiseNarrowBand, initialiseVelocities, computeGradients, FastMarchingMethod")],
 observe=["all public state after each operation"])

prop("C23", "Invalid requests are refused before any result is produced",
 "Constructing a level set with band width <= 2 or move limit outside (0,1), a Swiss cheese on a mesh too small for it (less than three holes along a side), reinitialising a field without a contour, pushing onto a full heap, popping or peeking an empty one, optimising with no boundary points, a displacement limit outside (0,1) or the wrong number of constraint distances, saving or loading a file that cannot be opened, and loading a text or binary file that does not hold one value per node all end the program with a failure status and an error message. The same requests with valid arguments always succeed, in every constructor form.",
 ["inputs", "configurations", "fault_sequences"], "every constructor form and parameter value, every file fault",
 "Refusal ends the process, so no in-process unit test exercises it.",
 ["src/LevelSet.cpp", "src/Heap.cpp", "src/FastMarchingMethod.cpp", "src/InputOutput.cpp", "src/Optimise.cpp", "src/Debug.h"],
 [("argument checks", "slsm_check call sites")],
 observe=["exit status and standard error of the process"])

prop("C24", "Between reinitialisations the contour stays inside the narrow band",
 "As long as no band node changes by one grid spacing or more in a single update, after every update (reinitialising or not) both ends of every grid edge that the contour crosses belong to the band, masked nodes and the edge of a fixed domain excepted. So an evolving contour is never cut off or left behind by the narrow band, and its boundary is always discretised completely.",
 ["histories", "inputs", "configurations"], "every initial shape, band width, velocity history and number of updates",
 "Tests perform one update; the band is outrun only after several updates without reinitialisation.",
 ["src/LevelSet.cpp"], [("mines and reinitialisation trigger", "LevelSet::update, initialiseNarrowBand")],
 observe=["LevelSet::update", "LevelSet::narrowBand", "Node::isActive"])

prop("C25", "A uniform velocity moves the contour by velocity times time step",
 "When all boundary points of a disc, round void or axis-parallel rectangle get the same velocity (in each iteration: discretise, extend, gradients, update; displacements below the move limit, shapes six cells or more from the edge of the domain), every update moves that contour by velocity x time step against its normals (positive velocities remove material), and neither an update that reinitialises nor an explicit reinitialisation moves it. A circle of radius four cells or more stays a circle about its centre with the expected radius to within 0.15 cell plus 0.1 cell per step, and a straight side keeps its place six cells and more from its corners to within 0.002 cell plus 0.0001 cell per step while the direction of motion is kept and 0.15 cell plus 0.1 cell per step otherwise. No part of the contour is lost, none appears elsewhere near the shape, and the material area changes by displacement x contour length.",
 ["histories", "inputs", "configurations"], "every shape, position, sub-cell offset, band width, sequence of displacements and reinitialisations",
 "Tests check single components on fixed fields; the motion of the contour is the joint effect of discretisation, extension, gradient, update, band and reinitialisation over many iterations.",
 ["src/LevelSet.cpp", "src/FastMarchingMethod.cpp", "src/Boundary.cpp"], [("evolution step", "LevelSet::computeVelocities, computeGradients, update"), ("reinitialisation", "LevelSet::reinitialise")],
 observe=["Boundary::points", "Boundary::length", "LevelSet::computeAreaFractions"])

prop("C26", "Results do not depend on where a shape lies or how it is turned",
 "Mirroring, transposing or (for a shape surrounded by void, with the edge of the domain out of reach) moving a level set onto another place of a larger mesh, together with its masks and the velocities given to its boundary points, gives the mirrored, transposed or moved result of every operation - masking, reinitialisation, discretisation with all points, segments, lengths, normals and limits, area fractions, velocity extension, gradients, updates and what they return - along whole evolutions, up to rounding. (Where exact ties of distance decide, or two boundary points lie within about 1e-3 of the same node, either choice is allowed.)",
 ["histories", "inputs", "configurations"], "every shape, mask, velocity field, image and number of steps",
 "Tests look at one small mesh in one orientation; a coordinate, an index or a direction treated differently from the others shows only in comparison.",
 ["src/LevelSet.cpp", "src/FastMarchingMethod.cpp", "src/Boundary.cpp", "src/Mesh.cpp"], [("whole iteration", "LevelSet::mask, reinitialise, computeVelocities, computeGradients, update; Boundary::discretise, computeNormalVectors")],
 observe=["LevelSet::signedDistance, velocity, gradient, narrowBand", "Boundary::points, segments, length", "Element::area"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
