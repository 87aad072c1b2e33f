#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, state, mechanism, observe, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism], 'observe_at': observe, 'hook_needed': hook}})


prop('C01', 'Conservative weights are the exact overlap fractions',
     'After the weights of the conservative interpolation have been computed, the weight of every pair of source and destination cell is the area of their overlap divided by the area of the destination cell, and pairs that do not overlap have no weight. '
     'The weights of a destination cell therefore add up to the fraction of it that the source grid covers, which is one inside of the source grid. '
     'This holds for any two structured grids with convex cells, whatever their orientation, scale, relative position or coincidence, and whatever was computed with the same object before.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all pairs of structured grids with convex cells (uniform, stretched, perturbed, rotated, mirrored, polar including poles, identical, refined, shifted by rounding errors, disjoint), all call histories of the object and all failures of allocations or output in earlier calls',
     'The tests interpolate between a handful of fixed grids and compare a few sums; which cells touch, coincide or lie within tolerance of each other changes with every grid and every earlier use of the object.',
     ['cpp/SgConserveInterp2D.h', 'cpp/SgQuadIntersect.h', 'cpp/SgTriangulate.h', 'cpp/SgLinearSolve.h'],
     [('weights', 'destination cell -> list of (source cell, weight)', 'SgConserveInterp2D_type::weights')],
     [('cell by cell clipping', 'SgConserveInterp2D_type::computeWeights'), ('intersection points of two quads', 'SgQuadIntersect_type::collectIntersectPoints'), ('area of their hull', 'SgTriangulate_type::getConvexHullArea')],
     ['SgConserveInterp2D_get over the whole cursor', 'SgConserveInterp2D_apply'])
prop('C02', 'Applying conservative weights conserves, keeps constants, spares the rest',
     'Applying the conservative interpolation gives every destination cell that has weights the weighted sum of the source data and leaves every other destination cell as the caller had it. '
     'The integral of the result over the destination equals the integral of the source data over the common area, and a constant field stays constant in every fully covered destination cell. '
     'The result depends on the data of this call only, however often and with whatever data the object was applied before.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all grids as in C01, all source fields, all sequences of applications, recomputations, cursor movements and failed calls on the same object',
     'The tests apply once to one field; they cannot show that nothing is left over from an earlier application or that untouched cells stay untouched for all grids.',
     ['cpp/SgConserveInterp2D.h', 'cpp/SgConserveInterp2D.cpp'],
     [('weights', 'what is applied', 'SgConserveInterp2D_type::weights')],
     [('loop over the weights', 'SgConserveInterp2D_type::apply')], ['SgConserveInterp2D_apply'])
prop('C03', 'The weight cursor delivers every weight once and the end exactly there',
     'A walk of the cursor from its start delivers every weight that the interpolation uses exactly once, says that it is at the end exactly when it is, and can be started over at any time and any number of times. '
     'Reading does not move the cursor and writes nothing but the entry; what is read are valid cell indices of the two grids. '
     'Any interleaving of reading, advancing, restarting, applying and recomputing behaves like an index into the fixed list of weights, also when there are no weights at all.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all interleavings of the cursor operations with the other calls of the object, for all numbers of weights including none',
     'The tests walk a cursor once from start to end on grids that overlap; restarts in the middle, walks past the end, empty sets of weights and reads between recomputations are histories they do not contain.',
     ['cpp/SgConserveInterp2D.h', 'cpp/SgConserveInterp2D.cpp'],
     [('cursor', 'position in the list of weights', 'SgConserveInterp2D_type::weightIt, weightIt2')],
     [('reset, next, get', 'SgConserveInterp2D_type')], ['SgConserveInterp2D_reset/next/get'])
prop('C04', 'Flow through a segment is the difference of the stream function',
     'When the edge data of the source grid are the differences of a stream function given at the nodes, the flow computed for each segment of the target line is the difference of the bilinearly interpolated stream function between the ends of the part of the segment inside the grid. '
     'Parts of a segment that run along grid lines count once, parts outside of the grid count nothing, and a closed line inside the grid has no net flow.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all structured grids with convex cells, all polylines including those along grid lines, along the boundary, through nodes and leaving the grid, all stream functions and all call histories of the object',
     'The tests have a few fixed lines in a few grids; attribution of a segment to cells on shared edges and nodes depends on rounding and on the order of the cells.',
     ['cpp/SgFlowInterp2D.h', 'cpp/SgQuadLineIntersect.h', 'cpp/SgQuadLineFlows.h'],
     [('weights', 'segment -> (cell, four edge weights)', 'SgFlowInterp2D_type::weights')],
     [('attribution of intervals to cells', 'SgFlowInterp2D_type::computeWeights'), ('projection on the edges', 'SgQuadLineFlows_type::computeProjections')], ['SgFlowInterp2D_apply'])
prop('C05', 'Nodal interpolation is bilinear inside, absent outside',
     'A destination node inside of the source grid gets the bilinear interpolation of the nodal data of the source cell it lies in, within the tolerance of the search; constant fields are kept. '
     'A destination node outside of the source grid, beyond the tolerance, is left as the caller had it. '
     'Nodes inside of a grid of moderately distorted cells always get a value, whatever the other destination nodes are.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all source grids with convex cells, all sets and orders of destination nodes including nodes on edges, corners and the boundary, and all call histories',
     'The tests interpolate on one or two grids; the search for each node starts where the previous one ended, so whether it succeeds depends on the whole sequence of nodes.',
     ['cpp/SgNodeInterp2D.h', 'cpp/SgFindPointInCell.h', 'cpp/SgSideIterator.h'],
     [('weights', 'destination node -> (source node, weight)', 'SgNodeInterp2D_type::weights')],
     [('search with restart from the sides', 'SgNodeInterp2D_type::computeWeights')], ['SgNodeInterp2D_apply'])
prop('C06', 'The point search tells the truth whenever it is paused',
     'Between any two steps of the search for a point, the reported index position lies within the index range of the grid, the reported position is the position of the grid there, and the reported error is its distance to the target. '
     'Success is reported only within the tolerance, the step limit only when it is reached, and "outside of the domain" exactly when the target is outside of the bounding box of the grid by more than the tolerance. '
     'The error history has one entry per step made since the start and earlier entries never change.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'for all pause points of all searches on grids of 1, 2 and 3 dimensions, periodic or not, all targets, starts, tolerances and limits, all restarts, and all failures of the linear solver or of allocations in any step',
     'The tests run a search to its end on fixed grids; they do not look between the steps, do not fail a step and do not reuse the object for another grid.',
     ['cpp/SgFindPointInCell.h', 'cpp/SgFindPointInCell.cpp'],
     [('dIndices, errorHistory, iter', 'state of the search', 'SgFindPointInCell_type')],
     [('one Newton step', 'SgFindPointInCell_type::next'), ('index truncation', 'SgFindPointInCell_type::truncateIndices')],
     ['SgFindPointInCell_getIndices/getPosition/getError/getErrorHistory', 'the status of SgFindPointInCell_next'])
prop('C07', 'Every search ends within its limit and finds what is inside',
     'A search for a point ends, with a definite status, after at most the number of steps that its limit allows, whatever the grid, the target, the start and the failures in between. '
     'A search for a point inside of a moderately distorted grid, with a limit of at least 100 steps, ends with an error below the tolerance. '
     'The computation of interpolation weights, which searches for every node, always comes to its end.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all grids including polar ones with poles, all targets and starting points, and all failures of solver and allocations during the search; liveness as a bound on the number of steps',
     'That something always ends cannot be shown by examples that end; the tests have no target near a singular point, no failing solver and no bound.',
     ['cpp/SgFindPointInCell.h', 'cpp/SgNodeInterp2D.h', 'cpp/SgQuadLineFlows.h'],
     [('iter, nitermax', 'progress of the search', 'SgFindPointInCell_type')], [('step limit', 'SgFindPointInCell_type::next')], ['status of SgFindPointInCell_next', 'return of the weight computations'])
prop('C08', 'The overlap finder lists every overlapping cell, once, and only cells',
     'For a convex polygon and a grid whose cells are parallelograms, every cell that the polygon overlaps by a noticeable area is in the list of the finder. '
     'For any grid, the list contains only valid cell numbers and no cell twice. '
     'The list belongs to the polygon and the grid set last, whatever was searched before with the same object.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all grids, all convex polygons inside, across, around and outside of the grid in either orientation, and all call histories',
     'The tests have three polygons in one grid; whether a cell is found depends on where its indices lie relative to the polygon and on what the object was used for before.',
     ['cpp/SgFindOverlappingCells2D.h', 'cpp/SgFindPointInCell.h'],
     [('srcCellInds', 'cells found', 'SgFindOverlappingCells2D_type')], [('index box of the polygon', 'SgFindOverlappingCells2D_type::findSrcCellIndices')], ['SgFindOverlappingCells2D_getSrcCellIndices'])
prop('C09', 'Intersection points of two quads span exactly their overlap',
     'The intersection points collected for two convex quads all lie in both of them, and the hull area computed from these points is the area of the overlap of the quads; it is zero when they only touch or are apart. '
     'This holds for either orientation and any starting vertex, for identical quads, shared edges and vertices, and for every pair in a sequence of pairs given to the same object.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all pairs of convex quads in all degenerate positions, all sequences of pairs on one object, and all solver failures and failed calls in between',
     'The tests have a few pairs with known area; degenerate positions and leftovers of earlier pairs are what goes wrong.',
     ['cpp/SgQuadIntersect.h', 'cpp/SgTriangulate.h'],
     [('intersectionPoints', 'points of the current pair', 'SgQuadIntersect_type')], [('edge/edge and vertex/quad tests', 'SgQuadIntersect_type'), ('hull construction', 'SgTriangulate_type')],
     ['SgQuadIntersect_getIntersectPoints', 'SgTriangulate_getConvexHullArea'])
prop('C10', 'A reused object behaves like a fresh one',
     'Any object of the library that has been used, reconfigured, or hit by a failed call delivers, after a new configuration, the same results as a newly created object that received only the calls that are in effect. '
     'The order in which independent settings are made does not matter, and deleting or using other objects does not change anything.',
     ['histories', 'fault_sequences', 'inputs'],
     'for all histories of calls on up to five live objects of all kinds, with failed allocations and failed solves in earlier calls',
     'The tests use each object once, in one order; stale state shows only in particular sequences.',
     ['cpp/SgConserveInterp2D.h', 'cpp/SgFlowInterp2D.h', 'cpp/SgNodeInterp2D.h', 'cpp/SgFindPointInCell.h', 'cpp/SgFindOverlappingCells2D.h', 'cpp/SgQuadIntersect.h', 'cpp/SgQuadLineIntersect.h', 'cpp/SgQuadLineFlows.h', 'cpp/SgLinearSolve.h'],
     [('all members', 'state kept between calls', 'every Sg*_type')], [('set methods clear what depends on them', 'every Sg*_type')], ['every C function that delivers a result'])
prop('C11', 'Threads with objects of their own do not affect each other',
     'Threads of a caller that use objects of their own at the same time get, bit by bit, the results that each of them gets when it runs alone. '
     'No interleaving of their calls, and no failure in one of them, makes another fail, hang or deliver something else.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all interleavings of 2 to 4 caller threads, switched at calls, at allocations, at solver calls, inside of loops and at accesses to data with static storage, with faults in single threads',
     'The tests have one thread; state shared between objects (static variables, caches, work arrays) gives wrong results only for particular interleavings.',
     ['cpp/'], [('static storage', 'anything shared between objects', 'all translation units')], [('no mutable state outside of the objects', 'all translation units')], ['every C function, from several threads'])
prop('C12', 'Caller data are only read, results go only where they belong',
     'The library never modifies an array that a caller passes as input. '
     'It writes results only into the elements of the output arrays that the call is documented to set, never before or behind them, and after the documented configuration calls of grids it keeps no reference to the arrays of the caller, who may change or free them at once.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all calls with array arguments, with input arrays on write-protected pages or destroyed directly after the call, guarded output arrays, all grids and histories',
     'The tests keep their arrays alive and never look at the inputs again or at the elements around the outputs.',
     ['cpp/SgConserveInterp2D.h', 'cpp/SgFlowInterp2D.h', 'cpp/SgNodeInterp2D.h', 'cpp/SgFindPointInCell.h', 'cpp/SgFindOverlappingCells2D.h', 'cpp/SgLinearSolve.h'],
     [('copies of the coordinates', 'what is kept of the arguments', 'srcGrdCoords, dstGrdCoords, coords')], [('copy on set', 'setSrcGrid, setDstGrid, setGrid, setPolygonPoints, setMatrix')], ['every C function with array arguments'])
prop('C13', 'Deleting an object returns all of its memory; use does not grow it',
     'When all objects have been deleted, all memory that the library allocated for them has been returned, whatever was done with them and whichever call failed for lack of memory. '
     'Repeating the same calls on the same object again and again does not keep more memory each time.',
     ['histories', 'fault_sequences'],
     'for all histories of creation, use, reuse, failure and deletion of objects of all kinds, repeated up to 18 times',
     'The tests end after one use and nobody counts; a leak in a path that only a particular history or failure takes is invisible.',
     ['cpp/'], [('owned pointers', 'memory owned by an object', 'slvr, iterators, pointFinder, indexFinder')], [('destructors', 'every Sg*_type and Sg*_del')], ['the allocator, after Sg*_del'])
prop('C14', 'Running out of memory at any point is reported and does no harm',
     'If any allocation inside of any call fails, the call either succeeds all the same or fails with the out-of-memory exception; the process does not crash, hang or write outside of its arrays. '
     'Other objects are not affected, and the object itself can be deleted, or the call repeated when memory is available again, after which it delivers what a fresh object delivers.',
     ['fault_sequences', 'crash_points', 'histories'],
     'for all allocations of all calls of all histories: the n-th fails once, or all from the n-th on until the end of the call; followed by giving up, using the half-done object, or repeating the call',
     'No test makes an allocation fail; each call makes thousands, each of which leaves other intermediate state.',
     ['cpp/'], [('partly built state', 'what a failed call leaves', 'every Sg*_type')], [('exception safety of constructors and set methods', 'every Sg*_type')], ['every C function'])
prop('C15', 'Results depend on nothing but the calls',
     'The same calls with the same arguments give bit by bit the same results, whatever the memory contained before, wherever blocks are placed and however they are reused, whatever is on the stack, and whatever time it is. '
     'No result depends on uninitialised memory, addresses, clocks or random numbers.',
     ['configurations', 'histories', 'fault_sequences'],
     'for all histories, executed twice with different contents and placement of fresh memory, different stack contents, clocks and random numbers',
     'The tests run in one environment in which fresh memory is mostly zero.',
     ['cpp/'], [('members and work arrays', 'must be set before they are read', 'every Sg*_type')], [('initialisation in constructors', 'every Sg*_type')], ['every C function that delivers a result'])
prop('C16', 'No invalid memory access in any history of valid calls',
     'No sequence of documented calls with valid arguments makes the library read or write outside of its objects and of the caller\'s arrays, use memory after it was returned, or return it twice, also when allocations or solves fail on the way. '
     'Empty results (no overlap, no intersection, no weights) are part of the valid histories.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all histories, grids and faults as in the other properties, observed by address checking of every access of the code under test',
     'The tests cover few histories and do not watch the accesses; reading one element too far is silent.',
     ['cpp/'], [], [('index arithmetic and iterator use', 'all translation units')], ['every memory access of the library'])
prop('C17', 'A failing linear solver is contained',
     'When the external linear solver reports failure, at any of its calls, with any content of its output, the operation ends normally: no crash, no endless loop, no index outside of the grids, no write outside of the output. '
     'Index positions stay finite and within the range of the grid. '
     'Later operations that the failure did not hit give the same results as if it had never happened.',
     ['fault_sequences', 'crash_points', 'histories'],
     'for all solver calls of all operations: failure once, several times or for ever, leaving finite garbage, NaN, huge values, untouched input or an intact result',
     'The solver does not fail in the tests; singular systems arise at poles and for parallel edges and leave arbitrary values in the solution.',
     ['cpp/SgLinearSolve.h', 'cpp/SgFindPointInCell.h', 'cpp/SgQuadIntersect.h', 'cpp/SgQuadLineIntersect.h', 'cpp/SgTriangulate.h'],
     [('solution vector', 'undefined after a failure', 'SgLinearSolve_type::x')], [('checks of the error code', 'users of SgLinearSolve_type::solve')], ['every operation that solves a linear system'])
prop('C18', 'The Python class refines the C interface for any arrays and history',
     'The Python class for conservative interpolation delivers the results of the library for the grids and data given, whatever the memory layout, strides, byte order or number type of the arrays, and whatever the caller or the garbage collector does with these arrays afterwards. '
     'Every result is an array of its own, zero where nothing was interpolated; calls that come too early raise an exception, and a call that raises takes nothing from the object. '
     'Objects of the class do not affect each other and can be used again and again, in any order of calls.',
     ['histories', 'inputs', 'schedules'],
     'for all histories of calls on several objects, all array layouts and types, all moments at which arrays are changed or collected',
     'There is one script with one history; argument lifetime and layout errors show only for particular layouts and collection times.',
     ['py/conserveInterp2D.py', 'py/__init__.py'], [('hasInterpWeights, dstData', 'state of the wrapper', 'py/conserveInterp2D.py')], [('conversion of the arrays', 'py/conserveInterp2D.py')], ['the methods of the class'])
prop('C19', 'The linear solver solves, reports its residual and its failures',
     'For a matrix of full rank the solver delivers the solution of a square system, the least-squares solution of an overdetermined one and the solution of smallest norm of an underdetermined one, and reports success. '
     'The reported residual is the sum of the absolute violations of the equations of the system that was set. '
     'A failure of the underlying factorisation is handed to the caller, and matrix and right-hand side may be set again in any order for the next system.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all shapes up to 6 by 6, all matrices including permuted, scaled and exactly singular ones, all sequences of systems on one object and all solver failures',
     'The tests solve one system of each kind; shape, storage order and reuse interact.',
     ['cpp/SgLinearSolve.h', 'cpp/SgLinearSolve.cpp'], [('mat, matOri, b, x', 'system and solution', 'SgLinearSolve_type')], [('call of LAPACK', 'SgLinearSolve_type::solve')],
     ['SgLinearSolve_solve/getSolution/getResidual'])
prop('C20', 'Line through a quad: intersection points and edge projections are right',
     'The intersection points of a segment and a convex quad lie on the segment and in the quad, in the order of the segment, and include the two ends of the part of the segment inside of the quad. '
     'The projections of a segment inside of a quad are those of its ends in the coordinates of the quad, and an end outside of the quad is reported. '
     'This holds for every pair in a sequence of quads and segments given to the same object.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all convex quads and segments in all relative positions, all sequences on one object and all solver failures',
     'The tests have a few segments; touching positions and leftovers of earlier pairs are what goes wrong.',
     ['cpp/SgQuadLineIntersect.h', 'cpp/SgQuadLineFlows.h'], [('intersectionLambdas', 'points on the segment', 'SgQuadLineIntersect_type'), ('projections', 'edge weights', 'SgQuadLineFlows_type')],
     [('edge/segment intersection', 'SgQuadLineIntersect_type::collectIntersectPoints'), ('point search in the quad', 'SgQuadLineFlows_type::computeProjections')],
     ['SgQuadLineIntersect_collectIntersectPoints', 'SgQuadLineFlows_getProjection'])
prop('C21', 'Tripolar grid nodes have the documented geometry',
     'Below the cap the nodes of a tripolar grid are those of a latitude-longitude grid. From there on they are the image of a grid of confocal lines that continues the columns at the rim of the cap, '
     'with all latitudes between the rim and the pole and all longitudes in range; the last row folds onto itself, node by node, and no cell is turned over. '
     'The coordinates handed out stay in place and unchanged for as long as the grid lives, however often they are asked for and whatever else is created and deleted.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all numbers of latitudes and longitudes, even and odd, all first rows of the cap, several grids alive at the same time, failed allocations',
     'One grid of 11 by 21 nodes is printed in the test and looked at by nobody; where the two halves of the cap meet, rounding decides the branch of the arc tangent.',
     ['cpp/SgTripolarGrid.h', 'cpp/SgTripolarGrid.cpp'], [('lats, lons, coords, capLatIndex', 'coordinates and first row of the cap', 'SgTripolarGrid_type')], [('getGrid', 'SgTripolarGrid_type')], ['SgTripolarGrid_getGrid'])
prop('C22', 'Index iterators enumerate every index exactly once, invertibly',
     'A box iterator counts the index sets of its box; its elements, from the first to the last, are the index sets of the box, each exactly once, the last index varying fastest, and the flat index of an element is the number of that element. '
     'A side iterator delivers every combination of low, middle and high side exactly once from each reset on and reports the end with the step that leaves the last one. '
     'This holds for any number of iterators alive at the same time, whatever the caller does with the arrays it handed over, in any order of the queries, and after failed allocations.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all boxes in up to six dimensions (negative corners, empty boxes, up to 2e9 elements), all walks of the side iterator, all orders of queries on several iterators',
     'The tests list one box and two walks; the strides of unequal extents, offsets of negative corners and restarts in the middle of a walk are not visible there.',
     ['cpp/SgBoxIterator.h', 'cpp/SgBoxIterator.cpp', 'cpp/SgSideIterator.h'], [('lowEnd, dims, dimProd', 'box and strides', 'SgBoxIterator_type'), ('index', 'position of the walk', 'SgSideIterator_type')],
     [('getElement, getIndex', 'SgBoxIterator_type'), ('next, get, reset', 'SgSideIterator_type')], ['SgBoxIterator_getElement/getIndex/getNumberOfElements', 'SgSideIterator_type::get/next/reset'])
prop('C23', 'Points of an octree lie in the box of their cell',
     'At every level of the octree the box that belongs to the key of a point contains the point, the boxes of a level have the size of the domain divided by two to the power of the level, and the key at a level is the beginning of the key at the next one. '
     'This holds for all points handed over and for every other point between their extremes, for as long as the octree lives, whatever happens to the array of the caller.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all point sets in up to four dimensions (also at lattice positions and without extent in one direction), up to nine levels, several octrees alive at the same time, failed allocations during construction',
     'The test has the corners of the unit square; offsets, other dimensions, positions on the boundary between boxes and domains of other sizes are not covered.',
     ['cpp/SgOctreePoints.h', 'cpp/SgOctreePoints.cpp'], [('octree, xmins, xmaxs, prodDims', 'boxes by key, domain, strides', 'SgOctreePoints_type')], [('getKey, computeLoHi, refineOctree', 'SgOctreePoints_type')],
     ['SgOctreePoints_type::getKey/getLo/getHi'])
prop('C24', 'Simplices hand out the points they were made of',
     'Lines, triangles and tetrahedra deliver the coordinates of their points bit by bit as they were given, in that order, from copies of their own: whatever the caller does with its arrays and with other simplices, and through addresses handed out at any time before. '
     'Their edges join every two points exactly once, the faces of a tetrahedron every three.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all coordinates of any magnitude, points that are the same or the same array, any number of simplices alive, all orders of queries, failed allocations during construction',
     'One simplex of each kind is tested, with the arrays alive and unchanged.',
     ['cpp/SgLine.cpp', 'cpp/SgTriangle.cpp', 'cpp/SgTetrahedron.cpp'], [('points, edges, faces', 'copies of the points, corners of edges and faces', 'SgTriangle_type, SgTetrahedron_type, SgLine_type')], [('construction', 'Sg*_new')], ['Sg*_getPoint, Sg*_getEdge, SgTetrahedron_getFace'])
prop('C27', 'The hull of a point set has its area',
     'The area reported for a set of points is that of their convex hull, for any number of points, in any order, with any of them equal or on common lines; it is zero when there is no triangle. '
     'The answer does not depend on what happens to the array of the caller and is the same for each call.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all sets of up to some fifty points: in general position, on lattices, all but a few on one line, all of them corners, at equal distances from the centre, repeated',
     'The tests have ten sets of a few points; the order in which points are inserted, ties of that order and degenerate starts decide the course of the construction.',
     ['cpp/SgTriangulate.h', 'cpp/SgTriangulate.cpp'], [('boundaryEdges, triIndices', 'growing hull', 'SgTriangulate_type')], [('addPoint, makeFirstTriangle, removeDegenerateSegments', 'SgTriangulate_type')], ['SgTriangulate_getConvexHullArea'])
prop('C25', 'Command line options get their values or their defaults',
     'After a command line was parsed, an option that was declared as a number, a whole number or a text has the value that follows its last mention, in its type, and a switch is flipped once for each mention; '
     'options that are not mentioned keep what they had, their default at first. A command line with an option that was not declared is refused and changes nothing, negative numbers are no options. '
     'Text is handed out character by character, as a list it is split at the commas. What was not declared with a type has the neutral value of the type. '
     'This holds for any order of declarations, of command lines and of queries on one parser, with several parsers alive, and after failed allocations.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all sets of options (names that begin alike, one name in several types, declared again), all command lines, all orders of calls and failed allocations',
     'One command line is tested; names that are the beginning of others, repeated options, values in front of and behind them and a second command line are not.',
     ['utils/CmdLineArgParser.h', 'utils/CmdLineArgParser.cpp'], [('doubleArg, intArg, stringArg, boolArg', 'values by type and name', 'CmdLineArgParser')], [('set, parse', 'CmdLineArgParser')], ['CmdLineArgParser::parse', 'CmdLineArgParser::get<T>'])
prop('C26', 'Grid generators produce the grids they are named after',
     'Rectangular grids reach from one corner to the other in equal steps, polar ones lie on equally spaced circles and rays around the center that was given, with the last ray on the first, and rotated pole grids are latitude-longitude grids turned by the two angles, '
     'with every latitude and longitude finite and in range, poles included. Every node is written, in the order of the index with the last direction varying fastest, nothing else is touched, and the answer depends on the arguments alone.',
     ['inputs', 'histories'],
     'for all sizes, corners, centers, radii and angles (also those that put a pole on a node), in any order among other calls and in arrays with guards',
     'One grid of each kind is drawn by a test; centers off the origin, unequal sizes and poles that coincide with nodes are not covered.',
     ['utils/createGrids2D.h', 'utils/createGrids2D.cpp'], [], [('loops over the nodes', 'utils/createGrids2D.cpp')], ['createRectangularGrid, createPolarGrid, createRotatedPoleGrid'])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
