"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
AI = "static analysis: abstract interpretation of LLVM IR (value numbering x linear constraints, widening fixpoints) over driver-composed API calls"
NOTE = ("Every obligation is discharged for all inputs and all loop iteration counts on an over-approximation of the compiled current source; "
        "assumes mathematical integers/reals (no overflow, no rounding), single-threaded use, and the documented contracts of the external helper headers.")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=AI, note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, technique=technique, note=note))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=(), observe=(), reason=reason))


MAPS = ["include/cslibs_path_planning/common/GridMap2d.h", "src/common/GridMap2d.cpp"]
STORED = ["include/cslibs_path_planning/common/SimpleGridMap2d.h", "src/common/SimpleGridMap2d.cpp", "include/cslibs_path_planning/common/RotatedGridMap2d.h"]
NOTEST = "The only test in the suite checks a rounding helper; nothing exercises this."

prop("M01", "A stored map classifies every cell as exactly one of free, occupied, unknown",
     "In a plain or rotated stored map a cell is unknown exactly if it holds the no-information value (when one is set) or a value strictly between the two thresholds; otherwise it is free exactly if its value is at most the lower threshold and occupied exactly if it is at least the upper threshold. "
     "With a lower threshold below the upper one exactly one verdict holds for every cell, asking with an orientation gives the same verdict, and the defaults are 50 and 200. "
     "A cell keeps the value written to it last, writing a cell changes no other cell, and bulk data is taken over row by row.",
     ["inputs", "histories", "configurations"], "every map size, cell, value, threshold pair with lower < upper, no-information value and orientation",
     "Thresholds, values and cells form an unbounded product of inputs. " + NOTEST,
     STORED + MAPS, [("classification and row-major storage", "SimpleGridMap2d.h: isFree/isOccupied/isNoInformation/getValue/setValue/set")])
prop("M02", "Area operations write, read and judge exactly the area cells inside the map",
     "Writing or reading an area of a map (for any map and any area implementation) rewinds the area, walks it to its end, and writes respectively reads every one of its cells that lies in the map, with the right value for the right cell, touching no other cell. "
     "An area is free (unknown) exactly if every one of its cells in the map is free (unknown), and occupied exactly if at least one of its cells in the map is occupied. "
     "Verdicts never change the map.",
     ["inputs", "programs"], "every map and area implementation, every area length, every mix of cells inside and outside of the map",
     "The number of cells of an area is unbounded and areas may lie partly outside. " + NOTEST,
     MAPS, [("area loops", "src/common/GridMap2d.cpp: setAreaValue, getAreaValues, isAreaFree, isAreaNoInformation, isAreaOccupied")])
prop("M03", "Walking a circular or line area is in range, complete, ordered and repeatable",
     "Walking a circular area, a circular buffer or a line area (begin, then next until it reports the end) never accesses anything out of range, visits each cell of the area once, and every further walk visits the same cells in the same order; a buffer returns for each cell the value stored for it. "
     "A circle no larger than a cell consists of the cell of its centre and follows the centre when moved to a point of the map; a circle around a point outside of the map, or with no extent, is empty. "
     "A line is empty if one of its ends is outside of the map; otherwise it starts in the cell of its start, ends in the cell of its end and each step goes to a neighbouring cell, also when the line is set again.",
     ["inputs", "histories"], "every centre, radius, start, end and map, every number of walks and re-initialisations",
     "Area sizes and line slopes are unbounded. " + NOTEST,
     MAPS, [("cell lists and walk counter", "GridMap2d.h / GridMap2d.cpp: CircleArea, CircleBuffer, LineArea")])
prop("M04", "Point and cell conversions of stored maps are inverse and match the inside tests",
     "In a plain or rotated stored map (any positive resolution, origin and rotation) the point a cell is converted to is the middle of that cell and is converted back to the same cell; sub-pixel conversions are exact inverses in both directions, and a point is converted to the cell that contains it. "
     "A point conversion reports success exactly if the point lies in the area covered by the cells, the point, cell and pose variants agree, and so do the inside tests. "
     "Cells are squares of the resolution, laid out from the origin that was set along the map's rotation; the free conversion functions between world and map poses agree with this and preserve the orientation.",
     ["inputs", "configurations"], "every point, cell, origin, resolution > 0, rotation and map size (exact arithmetic)",
     "Points are real valued; negative and boundary coordinates are easy to get wrong. " + NOTEST,
     STORED + ["include/cslibs_path_planning/common/MapMath.h", "src/common/MapMath.cpp"], [("conversions", "SimpleGridMap2d.h, RotatedGridMap2d.h: point2cell*, cell2point*, isInMap; MapMath.cpp: pos2map, map2pos")])

prop("M05", "A line walked over a map goes cell by cell from its start to its end",
     "A line set over a map begins in the cell of its start, every step goes to one of the eight neighbouring cells in the direction of the end, and the walk stops exactly when the cell of the end is reached; lines along an axis or a diagonal are exact. "
     "There is no step if an end is outside of the map or no line was set; a line set again is walked as by a fresh object, and points and their cells describe the same line. "
     "The verdicts and the point of the current cell are those of the map the line was set on, and walking never changes the map.",
     ["inputs", "histories"], "every map, start and end, every slope and length, every number of lines set before",
     "Slopes and lengths are unbounded. " + NOTEST,
     ["include/cslibs_path_planning/common/Bresenham2d.h", "src/common/Bresenham2d.cpp"], [("line stepping", "src/common/Bresenham2d.cpp: set, setGrid, next")])

ASTAR = ["include/cslibs_path_planning/a_star/OpenList.h", "src/a_star/OpenList.cpp", "include/cslibs_path_planning/a_star/Node.h", "src/a_star/Node.cpp"]
SEARCH = ["include/cslibs_path_planning/a_star/AStar.h", "src/a_star/AStar.cpp"]
prop("A01", "The classic open list delivers a cheapest open cell, never loses or reopens one",
     "A cell that is offered to the open list of the classic A* search is open, with the offered position, distance and predecessor, until it is delivered; as long as a cell is open one is delivered, and the delivered one has the smallest ordering value (integer part of distance plus prediction) of all open cells. "
     "Offering an open cell again never makes it more expensive, and an offer that is cheaper by one or more replaces distance and predecessor and reorders the cell. "
     "A delivered cell is closed: offering it again does not reopen it and changes nothing, and operations on other cells never change a cell.",
     ["inputs", "histories"], "every map size, every cell among arbitrarily many others, every order of offers and deliveries, every distance and prediction",
     "The order of an ordered container depends on every key ever inserted or changed; a test sees a handful of histories. " + NOTEST,
     ASTAR, [("ordered set of nodes and node array", "src/a_star/OpenList.cpp: addNode, getFirstNode; src/a_star/Node.cpp: update, getValue")])
prop("A02", "A new classic search starts as if the open list had never been used",
     "After preparing a new search no cell is open or closed any more, whatever the open list was used for before and however many cells that involved. "
     "A cell offered then is recorded, ordered and delivered exactly as in a fresh open list, with the distance, prediction and predecessor of the new offer.",
     ["histories"], "every number and order of operations of earlier searches, every map size and cell",
     "State left behind by an earlier search only shows after a particular history. " + NOTEST,
     ASTAR, [("used node list and reset", "src/a_star/OpenList.cpp: prepareNewSearch; src/a_star/Node.cpp: reset")])
prop("A03", "Classic A* opens all and only free neighbours and returns the found chain",
     "A search begins at the goal with distance zero and opens, for every delivered cell, exactly its free neighbours (of eight) inside the map, as predecessors of that cell, each with the length of the step added and the straight distance to the start as prediction; the map itself is never changed. "
     "It succeeds exactly if the start is delivered, and then the waypoints are the chain of successors from the start to the goal, without anything left of an earlier search; it fails if start or goal are outside of the map or no cell is left, and then there are no waypoints. "
     "The open list always has the size of the map in use, also after changing or resizing the map.",
     ["inputs", "histories"], "every map, start, goal and order of delivered cells, every number of expansions",
     "Maps, searches and path lengths are unbounded. " + NOTEST,
     SEARCH, [("search loop and path reconstruction", "src/a_star/AStar.cpp: search, planPath, setNewMap")])

RS = ["include/cslibs_path_planning/ReedsShepp/", "src/ReedsShepp/"]
prop("R02", "A curve segment over an obstacle is not free, any other one costs what it covers",
     "A straight segment looks at the cells from its start to its end one after the other, each at most one cell away from the one before, and is not free exactly if it starts outside of the map or one of these cells inside the map is not free. "
     "An arc looks at every cell of the rasterised circle around its center cell, and is not free if a cell below its travelled part is not free or outside of the map; one with nothing but free cells of the map below its circle is free. "
     "The weight of a free segment, and of any segment if obstacles are ignored, is its length, or with map cost the sum of the values of its cells (each at least the minimum cell cost) over the resolution, times the cost of its driving direction and the cost of its kind (straight or curve).",
     ["inputs"], "every start, end, center, radius of at least one cell, arc and cost setting, every answer of the map",
     "A wrong cell or a wrong arc shows for particular slopes, radii and angles only. " + NOTEST,
     ["src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/CurveSegment.cpp"], [("collision check and weight of segments", "src/ReedsShepp/LineSegment.cpp: weight; src/ReedsShepp/CircleSegment.cpp: weight, checkCircle, testPixel")])
prop("R04", "Segments of a curve meet without a gap and without a jump of the heading",
     "Two circles that do not overlap are joined by a straight segment that starts where the first circle is left and ends where the second one is entered, runs along the heading of the vehicle there, and is driven ahead when forward and behind when backward; overlapping circles have no crossing tangent. "
     "Three (four) alternating circles are joined by computing the circle(s) in between: consecutive circles touch in the point where one is left and the next is entered, and the heading is the same there; this succeeds if the outer circles are at most four (six) radii and at least two cells apart and one of the two symmetric solutions is free. "
     "Of the two symmetric solutions the cheaper one is used, never one that is not free, and the outer circles stay where they are.",
     ["inputs"], "every position, distance and radius of the circles, every combination of turning side and driving direction, every weight of the symmetric solutions",
     "Circle positions are real valued and every case has its own sign conventions. " + NOTEST,
     ["include/cslibs_path_planning/ReedsShepp/GeometryHelper.h", "src/ReedsShepp/GeometryHelper.cpp", "src/ReedsShepp/CircleSegment.cpp"], [("tangents and tangential circles", "src/ReedsShepp/GeometryHelper.cpp: external_tangent, internal_tangent, calculate_tangential_circle, test_tangential_double_circle, symmetry_helper")])

prop("R01", "Exactly the well-formed curve descriptions are accepted",
     "A description is accepted exactly if it consists of the segments L, R and S and direction changes |, with closed subpatterns in parentheses (one level, of the characters b and p only, b only after a circle). "
     "Any other text is rejected, whatever its length and its characters, without reading or writing outside of the text or the segments parsed so far.",
     ["inputs"], "every text of up to three characters and every three characters after several given beginnings",
     "Errors hide in particular combinations of characters. " + NOTEST,
     ["src/ReedsShepp/CurveGenerator.cpp"], [("description parser", "src/ReedsShepp/CurveGenerator.cpp: parse")])
prop("R05", "The cheapest admissible curve from start to goal is returned, with all settings",
     "Of all parsed descriptions (two circles with a straight segment in between, three or four circles) the cheapest one that is free and whose turning angle stays below the limit is returned as a curve, and none exactly if there is no such description or the poses are closer than two cells; without a limit set none applies. "
     "The curve has the described turning sides and driving directions, its first circle touches the start with the heading of the start and its last circle the goal with the heading of the goal, and start, goal and weight can be asked for. "
     "Radius and waypoint distance (over the resolution), costs, map cost and minimum cell cost, and the request to ignore obstacles reach every segment.",
     ["inputs"], "every start, goal, radius, setting, weight and arc of up to three candidates, every placement of direction changes",
     "Poses, weights and settings are real valued. " + NOTEST,
     RS, [("search for the cheapest curve", "src/ReedsShepp/CurveGenerator.cpp: find_path; src/ReedsShepp/Curve.cpp: check_if_admissible, init_segments, handle_sequence_*")])
prop("R06", "Waypoints of a curve follow it from start to end without too large gaps",
     "The waypoints of an arc lie on its circle, begin at its start, advance in travelling direction by at most the maximum distance along the circle, never leave the arc and reach its end up to the maximum distance; the heading is that of the vehicle; those of a line do the same along the line. "
     "The arc itself leads from its start angle to its end angle in the direction given by turning side and driving direction. "
     "A curve delivers exactly the waypoints of its segments, one segment after the other, as often as it is iterated.",
     ["inputs", "histories"], "every center, radius, start and end angle, line and maximum distance, any number of waypoints",
     "The number of waypoints is unbounded and depends on real valued sizes. " + NOTEST,
     RS, [("iteration", "src/ReedsShepp/CircleSegment.cpp: compute_arc_length, next; src/ReedsShepp/LineSegment.cpp: reset_iteration, next; src/ReedsShepp/Curve.cpp: has_next, next")])

SE = ["include/cslibs_path_planning/generic/SearchAlgorithm.hpp", "include/cslibs_path_planning/generic/Heuristics.hpp", "include/cslibs_path_planning/generic/Common.hpp"]
prop("G02", "A search step takes a cheaper way to a cell, and only a cheaper way",
     "When a search expands a cell and offers a neighbour with a step length, a way cheaper than the known one is taken: the neighbour's predecessor is the expanded cell, its distance is the cell's distance plus the step length in meters, its predicted remaining way is computed for the goal, and it is put into the open list once and marked open, also when it was closed before. "
     "A way that is not cheaper changes neither the neighbour nor the open list.",
     ["inputs"], "every distance, step length, resolution, goal, and open/closed state of the neighbour",
     "Distances are real valued. " + NOTEST,
     SE, [("relaxation", "SearchAlgorithm.hpp: processNeighbor; Heuristics.hpp: HeuristicL2::compute")])
prop("G03", "A found path is a chain of steps from the start to the goal",
     "A path returned by a search leads from the cell of the start pose, with its heading and distance zero, to the cell that the neighbourhood accepted as goal; each cell is followed by one it was the predecessor of, with the distances of those steps, and for neighbourhoods that search backwards it is reversed. "
     "No path is returned if the goal was not accepted, an occupied or outside start is never expanded, an occupied or outside goal is never reached, and a search between free poses in the map does not fail. "
     "A delivered cell is closed, compared with the goal, and then expanded; a search ends with the accepted cell.",
     ["inputs", "histories"], "every pose, resolution, order in which the open list delivers cells, map verdict, acceptance and neighbour relation of up to four cells, searches of up to four (thorough: six) expansions",
     "The order of expansions and the neighbours are arbitrary. " + NOTEST,
     SE, [("search loop", "SearchAlgorithm.hpp: findPathPose, findPathImp, init*, hasPoseBeenReached, backtrack")],
     note=NOTE + " The search is followed for a bounded number of expansions over four cells; std::set and std::priority_queue are replaced by small concrete models.")
prop("G04", "Searching on after the first solution returns the best one and ends in time",
     "With an oversearch distance a search goes on after its first solution, ends with the first cell more expensive than that solution plus the distance, lists all its solutions, and returns one whose end is closest to the goal; a callback of the user sees every solution once and ends the search with the one it approves of. "
     "With a goal test of the user every delivered cell is tested once, with its prediction computed for the goal of the test, and the solution of least cost is returned when the test ends the search or no cells are left. "
     "Nothing of the goal test is used by later searches.",
     ["inputs", "histories"], "every cost, oversearch distance and answer of callback and goal test, searches of up to three expansions over four cells",
     "Costs and answers are arbitrary. " + NOTEST,
     SE, [("goal candidates", "SearchAlgorithm.hpp: findPathImp, addGoalCandidate, hasPoseBeenReached, getPathCandidates, init")],
     note=NOTE + " The search is followed for a bounded number of expansions over four cells; std::set and std::priority_queue are replaced by small concrete models.")
prop("G05", "A curve to the goal is appended to the chain of steps",
     "A search that finds a collision free curve from a delivered cell to a free goal ends with a path that follows the chain of predecessors from the start to that cell, also if it is the start itself, and then all poses of the curve in order; the cell the curve begins in gets the curve's first heading. "
     "For neighbourhoods that search backwards the whole path is reversed. "
     "Curves are asked for from the delivered cell to the goal, in the map of the search, and only a curve that was found is used.",
     ["inputs", "histories"], "every pose, curve pose, order of delivered cells and neighbour relation of four cells, up to three expansions",
     "Costs, poses and the cell a curve begins in are arbitrary. " + NOTEST,
     SE, [("analytic expansion", "SearchAlgorithm.hpp: hasPoseBeenReached, backtrack")],
     note=NOTE + " The search is followed for a bounded number of expansions over four cells; std::set and std::priority_queue are replaced by small concrete models.")

GN = "include/cslibs_path_planning/generic/"
prop("G01", "Direct neighbourhoods offer exactly the free cells next to a cell",
     "A search with a direct neighbourhood is offered each free cell in the map that is one step to the left, right, below or above (for eight neighbours also diagonally) exactly once and no other cell, and nothing outside of the map is looked up. "
     "The step length of a straight step is the size of the step, that of a diagonal one its diagonal. "
     "The goal counts as reached at most one step away in each direction.",
     ["inputs"], "every size of the map and position in it, verdict about the neighbours (one arbitrary, the others by kind), four and eight neighbours, steps of one to three cells",
     "Borders and corners of a map of any size. " + NOTEST,
     [GN + "DirectNeighborhood.hpp"], [("neighbours", "DirectNeighborhood.hpp: iterateFreeNeighbors, dx, dy, delta, isGoal")])
prop("G06", "Predictions of the remaining way and the order of open cells",
     "The prediction is the straight distance, the sum or the larger one of the distances along the axes between cell and goal in meters, or the larger of two given predictions, and making it changes nothing else. "
     "Open cells are ordered by distance plus prediction (without prediction by distance), the least first. "
     "A fresh cell lies where it was placed, is infinitely far from the start, unmarked, without predecessor and without prediction, and its marks are set and removed independently.",
     ["inputs"], "every cell, goal, distance and resolution",
     "Distances are real valued. " + NOTEST,
     [GN + "Heuristics.hpp", GN + "Common.hpp", GN + "Utils.hpp"], [("predictions", "Heuristics.hpp: compute, getTotalCost, init; Common.hpp: Node; Utils.hpp: CompareNode")])
prop("G07", "Moves of a vehicle with steering follow its circles, limits and costs",
     "Each move a neighbourhood with steering offers ends where the vehicle gets by driving one step straight on or along the circle of its steering angle, forwards or backwards, inside the map and without an occupied cell on the way; it costs its length in cells times the penalties for driving backwards and for changing direction, and a state reached by it records pose, steering angle, direction and number of moves. "
     "Steering changes by whole steps within the given number of steps and the limit; the direction changes only without steering and after the demanded number of straight moves, and the first move keeps the direction of the start. "
     "Every move that these rules allow is offered, and with run time parameters the goal is reached exactly within both thresholds.",
     ["inputs"], "every pose, resolution, penalty, (run time) step length and base, verdict of the map and answer of the search; steering angles of -1 to 2 steps, one and two steering steps, several compile time parameters, up to two predecessors",
     "Poses and parameters are real valued. " + NOTEST,
     [GN + "SteeringNeighborhood.hpp", GN + "DynamicSteeringNeighborhood.h", "src/generic/DynamicSteeringNeighborhood.cpp", GN + "NonHolonomicNeighborhood.hpp", GN + "SteeringNode.hpp"],
     [("moves", "SteeringNeighborhood.hpp, DynamicSteeringNeighborhood.h: advance, iterateFreeNeighbors, isGoal")])

prop("G08", "Every position of a map has its own state, and positions outside have none",
     "The manager of the states of a search delivers, for every position in the map (in whole cells, fractions of a cell, or as a pose), the state of the cell it lies in, a different one for every cell, and where states have headings and directions a different one for every direction and for headings more than a slot apart; asking again delivers the same state. "
     "A position outside of the map has no state but is reported as outside, however close to the border it is. "
     "After a map was set, the same, another or a resized one, every state is fresh and lies where it was asked for.",
     ["inputs", "histories"], "every size of the map (with headings: 3 by 2 cells), position, pose and heading",
     "Sizes and positions are arbitrary, and mistakes show at the borders. " + NOTEST,
     [GN + "MapManager.hpp"], [("lookup and initialisation", "MapManager.hpp: GridMapManager, StateSpaceManager, DirectionalStateSpaceManager: initMap, lookup, index, angle2index")])
prop("G09", "States that are created on demand exist once, also in the margin of the map",
     "The manager that creates the states of a search when they are asked for delivers one state for every position in the map and in the margin of 32 cells around it, and direction, a different one for each of them and for headings more than a slot apart, and the same one whenever it is asked for again; positions, fractions of a cell and poses beyond the margin are reported as outside. "
     "A state is fresh and lies where it was asked for when it is delivered first, also after another map was set.",
     ["inputs", "histories"], "every position and heading; that asking again delivers the same state and what is outside also for every size of the map, that positions have different states and that none is missing for maps of several sizes",
     "States are divided into chunks, and mistakes show at the borders of chunks, map and margin. " + NOTEST,
     [GN + "MapManager.hpp"], [("chunks", "MapManager.hpp: DynamicDirectionalStateSpaceManager: lookup, setMap, initMap, clearChunks, Chunk")],
     note=NOTE + " Chunks are created with one heading slot except where headings are compared.")
prop("G10", "A line between two positions is passable exactly if its cells are",
     "A line is reported free (free or unknown, not occupied) exactly if the cells looked at are; these lie on the line between its ends, always include its end, and leave out no part longer than half a metre and a cell, nothing at all in maps as coarse as half a metre and in the managers without a margin. "
     "That holds wherever in the map the line is, whatever its direction. "
     "With a margin, what is outside of the map is neither free nor occupied.",
     ["inputs"], "every position of the line, also within cells, all directions with up to 3 (thorough: 7) cells and several longer ones, every size of the map and verdict about its cells, three resolutions",
     "Mistakes show at borders of the map and for particular directions only. " + NOTEST,
     [GN + "MapManager.hpp", "include/cslibs_path_planning/common/Bresenham2d.h", "src/common/Bresenham2d.cpp"], [("line checks", "MapManager.hpp: isFree, isFreeOrUnknown, isOccupied (four coordinates); Bresenham2d.cpp: setGrid, setLine, next")])

SA = "src/sampling/"
prop("S01", "A goal region delivers the demanded poses around its center",
     "A goal region delivers exactly as many poses as demanded (one, if its angle is zero), and again after it was initialised anew. "
     "Around a center they lie at the given distance from it and are headed towards it, from headings spread evenly over the given angle around the direct approach; the gain is between one and two, one for the direct approach, and grows with the angle to it. "
     "On a ring they are spread evenly around the center, lie within half the width of the radius and are headed along the ring, clockwise for a negative radius, with the same gain.",
     ["inputs", "histories"], "every source, center, radius, angle, width and random number, up to five (thorough: nine) poses, the number of poses for any number",
     "Positions, angles and random numbers are real valued. " + NOTEST,
     [SA + "CentroidRadiusGoalRegion.cpp", SA + "RingGoalRegion.cpp"], [("poses", "src/sampling/*GoalRegion.cpp: init, getNextGoal")])
prop("S02", "Of all curves to a goal region the cheapest one is delivered",
     "The planner initialises a region with the demanded number of poses, looks for a curve from the start to each of its poses that lies in the map, in cells of the map, and delivers a valid one of least weight times gain, or none if there is none or the start is outside of the map. "
     "All other curves are released, each once, and the delivered one is not.",
     ["inputs"], "every map, start, pose, gain, weight (below a million) and outcome of the search for a curve, up to three (thorough: four) poses",
     "Weights and gains are real valued and any combination of valid, invalid and missing curves may occur. " + NOTEST,
     [SA + "SamplingPlanner.cpp", "src/common/MapMath.cpp"], [("choice", "src/sampling/SamplingPlanner.cpp: createPath")],
     note=NOTE + " Curves and the search for them are the driver's.")

GE = "src/geometry/"
prop("P01", "Points and poses of a line follow it, and points beside it have their distance",
     "The points of a line begin at its start, advance by the resolution and end with its end; its poses advance by the resolution and are headed along the line, from its start or, driven backwards, from its end, with or without the first one, and replace what the result contained; a line made from a pose leads along its heading, and a parallel one lies in the given distance on the left. "
     "The signed distance to a line is positive on its left, the side of a point agrees with it, the foot point and the projection lie below the point, and the distance and the nearest point are those of the foot point beside the line and of the nearer end beyond it. "
     "A point of the line can be chosen as its start or end, which keeps the other end, and a point beside it cannot.",
     ["inputs"], "every line of positive length, point, resolution above a nanometre and tolerance; lines of up to three (thorough: seven) steps",
     "Coordinates are real valued. " + NOTEST,
     [GE + "line.cpp", "include/cslibs_path_planning/geometry/line.h", "include/cslibs_path_planning/geometry/shape.h"], [("lines", "src/geometry/line.cpp")])
prop("P02", "An arc keeps to its circle, its ends and its direction",
     "An arc made from (to) a pose begins (ends) there, is tangent to it and covers the given angle in its direction; a new start keeps the end, a new end or angle keeps the start, and the arc covers at most a turn, its length being its angle times the radius; points on the circle can be chosen as its start or end, others cannot. "
     "A point within the tolerance of the circle is on the arc exactly if it is between its ends in its direction, and the distance and the nearest point are those of the circle beside the arc and of the nearer end beyond it. "
     "The points and poses of an arc lie on it, evenly spread, poses headed along it, from its start or, driven backwards, from its end, with or without the first one, and replace what the result contained.",
     ["inputs"], "every center, radius, start angle from -1 to 2 turns, arc up to a turn, direction, pose, point, tolerance and resolution; arcs of up to three (thorough: six) steps",
     "Angles are real valued, and mistakes show in particular quadrants or directions only. " + NOTEST,
     [GE + "circle.cpp", "include/cslibs_path_planning/geometry/circle.h"], [("arcs", "src/geometry/circle.cpp")])
prop("P03", "Common points of lines, circles and arcs are delivered completely",
     "A line and a circle that cross have exactly the crossings within the line in common, in the order of the line, a tangent its foot point, and a line beside the circle none; crossing circles have the two points in common that lie on both, touching ones one, and circles apart, within each other or around the same center none. "
     "Arcs have exactly those common points of their circles that lie on both of them. "
     "The result contains nothing of what it contained before; lines are handed to the intersection of segments with their ends and the tolerance.",
     ["inputs"], "every line, circle and tolerance; within the tolerance of touching only the number of points and exact touching",
     "Coordinates are real valued, and special positions are rarely sampled. " + NOTEST,
     [GE + "intersector.cpp", GE + "circle.cpp"], [("intersections", "src/geometry/intersector.cpp")])
prop("P04", "Tangent circles and arcs touch both shapes in the right direction",
     "The circles of a given radius that are delivered for a line and a circle touch the line and, from outside, the circle, and turn to the other side; those for two circles touch the first from outside and the second from inside and turn like the second, and there are two of them if the widened and the narrowed circle cross and none if the radius is too large. "
     "Arcs from a line to a circle (from a circle to a line) lie on the side of the line to which they turn, begin (end) where they touch the line and end (begin) where they touch the circle. "
     "The result contains nothing of what it contained before.",
     ["inputs"], "every line, circle, radius and tolerance, except circles whose widened circle touches a parallel of the line within the tolerance",
     "Coordinates are real valued. " + NOTEST,
     [GE + "tangentor.cpp", GE + "intersector.cpp"], [("tangents", "src/geometry/tangentor.cpp: tangentCircles, tangentInnerCircles, tangentArc")])

prop("P05", "Paths over a tangent arc are connected and take the shortest arc",
     "A path between a line and a circle, or between two circles, consists of both shapes and between them of the tangent arc of least angle: the first shape is followed from its start to where the arc begins, the last one from where the arc ends, the line to its end, a circle reached from a line once around, and an arc to its end. "
     "Of arcs between circles only one that turns against the first circle, touches both circles on their arcs (with the tolerance given) and, in a path, covers at most half a turn is taken. "
     "Without such an arc the result is empty, and it contains nothing of what it contained before.",
     ["inputs"], "every line, circles, radius and tolerance, and up to two tangent circles or arcs, none of them half a turn and none at exactly pi",
     "The tangent circles and arcs (P04) and the contacts of arcs (P03) are replaced by arbitrary ones. Coordinates are real valued. Releasing shared shapes is not followed. " + NOTEST,
     [GE + "tangentor.cpp", GE + "circle.cpp"], [("paths", "src/geometry/tangentor.cpp: tangentPath, tangentInnerArcs"), ("arc ends", "src/geometry/circle.cpp: selectStartPoint, selectEndPoint, setStartAngle, setEndAngle, setArcAngle, compareArcAngle")])

HOW = {}
HOW["P05"] = """The tangent arcs are stand-ins with arbitrary position and extent; the shapes of the returned path are compared with the
ends of the chosen arc as trigonometric polynomials, with angles reduced by whole turns."""
HOW["P01"] = """A line is given in polar form, points beside it by their position along and across it; the results are compared as
trigonometric polynomials over the reals."""
HOW["P02"] = """As P01; angles are compared through sine and cosine, the loops that bring angles into one turn are unrolled for the
stated ranges, and whole turns are eliminated."""
HOW["P03"] = """The specification is written in coordinates in which the crossings are known (offset and half chord as a trigonometric
parametrisation of the radius); arcs are stand-ins that cover any subset of the common points."""
HOW["P04"] = """The delivered circles are compared with the conditions of tangency as polynomials with square roots."""
HOW["S01"] = """Positions are compared with the specification as trigonometric polynomials over the reals, for the poses one after the
other; the number of poses is decided for any number with an inferred loop invariant."""
HOW["S02"] = """The curve generator and the curves are the driver's: each request, use and release is compared with the ghost state of the
curve, and the result with the minimum over all outcomes."""
HOW["G08"] = """For arbitrary maps the driver's state type sees where the repository's loops initialise one arbitrary cell (an invariant of
the loops over all cells is inferred), and the position it is delivered for is compared; managers with headings are followed for a
map of 3 by 2 cells, all initialisations one by one, with symbolic positions and headings."""
HOW["G09"] = """As G08: a chunk is created by the repository's loops over 32 by 32 cells (with an inferred invariant) for a symbolic position,
and the places of two symbolic positions are compared as linear terms of row, column, heading and direction."""
HOW["G10"] = """The map is an observer that records, relative to the start of the line, which cells are looked at; the verdict is compared
with the conjunction of their (arbitrary) answers and the gaps with the bound. The start is symbolic, the direction enumerated."""
HOW["G01"] = """Map and search are observers in the driver; the neighbourhood is followed for an arbitrary cell of a map of arbitrary size, and
each offer is counted per neighbour."""
HOW["G06"] = """The computed prediction is compared with the distance as a polynomial over the reals (squared for the straight distance);
marks and fresh cells field by field."""
HOW["G07"] = """Map and search are observers (drivers/steer.h). The end of each move is compared with the circle of the steering angle as a
trigonometric polynomial, its cost with the product of the penalties, and the set of offered moves with the allowed ones."""
HOW["G05"] = """As G03, with a curve generator whose answers and poses are arbitrary."""
HOW["G02"] = """Cells, map, open list and neighbourhood are the driver's (drivers/search.h), the search is the repository's; one expansion
offers a neighbour in an arbitrary state and the result is compared with the specification of relaxation."""
HOW["G03"] = """The same stand-ins with four cells: the open list delivers any of its first cells, the neighbourhood offers arbitrary
neighbours and accepts arbitrary cells. The driver keeps its own chain of predecessors and compares the returned path with it."""
HOW["G04"] = """As G03, with oversearch distance, callback or goal test; the driver keeps the solutions and their costs and follows the
limit. A goal released after its search makes every later use of it a violation."""
HOW["M05"] = """The map answers arbitrarily but repeatably; the walk is a driver loop with the previous cell as ghost state, summarised by
invariants; straight and diagonal lines are additionally counted exactly."""
HOW["A01"] = """The open list is driven through one arbitrary cell among arbitrarily many others: the ordered set is replaced by its contract
restricted to that cell (stubs/model/set), which also reports when a stored cell's ordering value changes; every pair of operations from every
state of the cell is analysed."""
HOW["A02"] = """As A01, from an open list in the state an arbitrary number of earlier operations leaves it in (loop invariants over the list of
used cells), followed by the same obligations."""
HOW["A03"] = """The open list is replaced by an observer that delivers arbitrary cells (an over-approximation of A01) and the map by one with
arbitrary repeatable answers; obligations sit on every offer, on every request for the next cell (all eight directions, one analysis each), on every
waypoint appended and on the result. The search and path loops are summarised by inferred invariants."""
HOW["R02"] = """The map is an observer. Lines: it follows the cells looked at and compares verdict and weight (eight slopes). Arcs: for
one arbitrary cell that is the only one blocked (costly, outside) it decides by the exact angle in travelling direction whether the cell lies
on the arc; per octant it follows the midpoint rule and reports the first cell that is left out. The walks are summarised by inferred invariants."""
HOW["R01"] = """The characters are symbolic; the parser is followed through every class of characters it distinguishes and its answer is
compared with a grammar in the driver. Bounds: three symbolic characters after eight given beginnings."""
HOW["R05"] = """Joining and weighing of segments are replaced by observers that answer arbitrarily (R02 and R04 decide them) and check what they
are given; the result is compared with the minimum over the candidates. Settings are followed through real weights and waypoints."""
HOW["R06"] = """Drivers walk the waypoints of segments with symbolic geometry; loops are summarised by inferred invariants, angles are compared
modulo full turns. The order of segments is followed with observers in place of the segments."""
HOW["R04"] = """Circle centres, radius and connecting direction are symbolic reals; the joints computed by the code are compared as
trigonometric polynomials (sum rules, sin/cos of acos/atan2/normalised angles). The weights of the two symmetric solutions come from an observer
that tells them apart by the side the middle circle lies on."""
HOW["M01"] = """Drivers set arbitrary thresholds, no-information value and cell values on a map of arbitrary size and compare the three
verdicts with the specification; storage and bulk assignment are compared through two distinct arbitrary cells."""
HOW["M02"] = """The map and the area are observer implementations with arbitrary answers; ghost state in the driver picks one arbitrary
area cell and follows whether it was read/written; loops are summarised by inferred invariants."""
HOW["M03"] = """The real area classes are walked by a driver loop; bounds obligations on each access, index/visit invariants for an
arbitrary cell of the area, 8-adjacency of consecutive line cells."""
HOW["M04"] = """Conversions are composed in the driver (cell -> point -> cell, point -> cell -> square) and the resulting linear
constraints over the reals are decided; products with resolution and sine/cosine are kept as symbolic monomials with rotation identities."""
