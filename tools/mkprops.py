#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech], observe_at=list(observe), hook_needed=None)))
I = 'include/cslibs_path_planning/'
NOTEST = 'The only test that exists rounds a handful of positive numbers; nothing executes this code, and it quantifies over '

p('A01', 'A* on an occupancy grid returns only valid paths',
  'Whenever the grid A* reports success, the path runs from the requested start to the requested goal inside the map, each cell being one of the eight neighbours of the one before, no cell twice, and every cell before the goal is free. When it reports failure the path is empty, and it never reports a path when start or goal lies outside the map or the map is too small to hold them.',
  ['inputs', 'configurations'], 'all maps (every value of every cell), all starts and goals in and around the map, all thresholds', NOTEST + 'every map and every pair of cells.',
  ['src/a_star/AStar.cpp', 'src/a_star/OpenList.cpp', 'src/a_star/Node.cpp', I + 'a_star/AStar.h'],
  [('predecessor chain from goal to start', 'AStar::planPath / AStar::calculatePath'), ('collision test before opening a node', 'AStar::planPath')], ['return value of planPath', 'getLastPath'])
p('A02', 'A* on an occupancy grid finds a path whenever one exists',
  'For a start and goal inside the map, the grid A* reports failure only if no 8-connected chain of free cells leads from the start to a cell adjacent to the goal, and it always terminates.',
  ['inputs', 'configurations'], 'all maps up to the stated size, all starts and goals', NOTEST + 'every map, including ones where the only way round touches every cell.',
  ['src/a_star/AStar.cpp', 'src/a_star/OpenList.cpp'], [('expansion of the eight neighbours until the open list is empty', 'AStar::planPath'), ('open list with replacement of cheaper entries', 'OpenList')], ['return value of planPath'])
p('A03', 'Replanning does not depend on earlier searches',
  'Planning on a planner object that already served any number of earlier requests, or that was given another map (of the same or another size) or whose map changed its contents in between, gives the same answer as planning with a fresh planner.',
  ['histories', 'inputs'], 'all histories of two or three requests with map edits or map replacement between them', NOTEST + 'sequences of requests on one object.',
  ['src/a_star/AStar.cpp', 'src/a_star/OpenList.cpp', I + 'a_star/OpenList.h'], [('prepareNewSearch resets visited marks by a search counter', 'OpenList::prepareNewSearch'), ('setNewMap rebuilds the node store', 'AStar::setNewMap')], ['planPath', 'getLastPath'])
p('A04', 'The A* open list hands out each cell once, cheapest first',
  'Within one search the open list returns, at each request, a not yet returned cell of least total cost (compared as whole numbers) among those added, each cell at most once even when it was added several times, and nothing once all are exhausted. A cell added again keeps the cheaper of its costs, and starting a new search forgets everything of the previous one.',
  ['histories', 'inputs'], 'all sequences of additions, extractions and restarts up to the stated length, all costs', NOTEST + 'sequences of operations with arbitrary, possibly equal costs.',
  ['src/a_star/OpenList.cpp', 'src/a_star/Node.cpp'], [('multimap ordered by cost', 'OpenList'), ('visited flag per node', 'OpenList::getFirstNode')], ['OpenList::addNode', 'OpenList::getFirstNode'])

p('B01', 'Grid cells have exactly one class and edits touch exactly their cells',
  'For every cell value and every pair of thresholds (lower below upper) a cell is exactly one of free, occupied or unclassified-in-between as its value dictates, the unknown marker is recognised as such, and reading back a cell gives what was last written to it. Writing a cell changes that cell only, setting the whole map to a value or to given data makes every cell hold exactly that (resizing the map as asked), and a cell index is accepted as inside exactly when it lies in the map.',
  ['inputs', 'configurations', 'histories'], 'all cell values, thresholds, coordinates and sizes up to the stated bound', NOTEST + 'all 256 values, all thresholds and all coordinates.',
  [I + 'common/GridMap2d.h', I + 'common/SimpleGridMap2d.h', 'src/common/GridMap2d.cpp', 'src/common/SimpleGridMap2d.cpp'], [('row-major addressing', 'SimpleGridMap2d::getValue/setValue'), ('threshold comparisons', 'GridMap2d::isFree/isOccupied/isNoInformation')], ['getValue', 'isFree', 'isOccupied', 'isNoInformation'])
p('B02', 'World and cell coordinates of a grid map agree with each other',
  'Converting a cell to its world position and back gives the same cell; a world point converts to a cell exactly when it lies within the area the map covers, and then the cell is the one whose square contains the point. This holds for every origin, every positive resolution and every rotation of the map, and the in-map test for points and cells agrees with the conversion.',
  ['inputs', 'configurations'], 'all points, origins, resolutions and rotations (exact arithmetic)', NOTEST + 'continuous coordinates and all map poses.',
  [I + 'common/SimpleGridMap2d.h', I + 'common/RotatedGridMap2d.h', 'src/common/MapMath.cpp'], [('cell2point / point2cell', 'SimpleGridMap2d, RotatedGridMap2d'), ('isInMap', 'SimpleGridMap2d, RotatedGridMap2d')], ['cell2point', 'point2cell', 'isInMap', 'pos2map', 'map2pos'])
p('B03', 'A grid line visits a gap-free chain of cells along the segment',
  'Walking a line between two cells of the map visits an 8-connected chain of cells that begins at the first cell and ends at the last, has exactly as many steps as the larger coordinate difference, and never strays more than half a cell from the ideal straight segment. Every visited cell lies in the map, and scanning the line as an area visits the same cells, each exactly once.',
  ['inputs'], 'all pairs of cells of a map up to the stated size', NOTEST + 'all pairs of end points in all octants.',
  [I + 'common/Bresenham2d.h', 'src/common/Bresenham2d.cpp', I + 'common/GridMap2d.h', 'src/common/GridMap2d.cpp'], [('Bresenham error accumulation', 'Bresenham2d::next'), ('LineArea', 'GridMap2d')], ['Bresenham2d::next', 'Bresenham2d::coordinates', 'LineArea'])
p('B04', 'Scanning a disc visits every cell of the disc exactly once',
  'Scanning a circular area whose centre is in the map visits every cell closer to the centre cell than the radius less one cell, none farther than the radius plus one cell, and no cell twice, however often it is scanned or moved; cells of the disc beyond the border of the map have no effect on the map. A disc centred off the map or without radius has no cells. The buffered variant saves the contents of the disc and restores exactly those cells.',
  ['inputs', 'configurations'], 'all centre cells and all radii up to the stated size, including discs that are cut by the map border', NOTEST + 'discs at every position relative to the map border.',
  [I + 'common/GridMap2d.h', 'src/common/GridMap2d.cpp'], [('midpoint circle and row filling', 'GridMap2d CircleArea'), ('begin/next/getCell protocol', 'GridMap2d Area2d')], ['CircleArea', 'CircleBuffer'])
p('B05', 'Area queries answer for exactly the cells of the area',
  'Asking whether an area is free is answered with yes exactly when every cell of the area that lies in the map is free, asking whether it is occupied with yes exactly when some cell of it in the map is occupied, and setting an area to a value, or writing or reading its values, touches exactly the cells of the area in the map. This holds for every kind of area and leaves the map unchanged unless it was asked to write.',
  ['inputs', 'configurations'], 'all map contents, all areas up to the stated size', NOTEST + 'all contents of all cells of an area.',
  [I + 'common/GridMap2d.h', 'src/common/GridMap2d.cpp'], [('iteration over the area', 'GridMap2d::isAreaFree / isAreaOccupied / setAreaValue')], ['isAreaFree', 'isAreaOccupied', 'setAreaValue'])
p('B06', 'The collision map checks the footprint of the vehicle, not only its centre',
  'A collision grid map reports a pose as occupied whenever its own cell is occupied or an occupied cell lies well under the vehicle footprint (a rectangle from its rear to its front end, turned to the asked orientation, whatever multiple of a turn that is), and never when all cells under and around the footprint are below the occupied threshold; it reports a pose as free whenever all those cells are free and never when its own cell or a cell well under the footprint is not free. Poses outside the map are never free, and a copied map answers for its own cells.',
  ['inputs', 'configurations'], 'all map contents, positions and orientations for the stated footprints', NOTEST + 'every orientation and every obstacle placement.',
  [I + 'common/CollisionGridMap2d.h', 'src/common/CollisionGridMap2d.cpp'], [('rotated footprint areas', 'CollisionGridMap2d'), ('RobotArea', 'CollisionGridMap2d')], ['isOccupiedRotated', 'isFreeRotated'])

p('C01', 'Rounding equals rounding half away from zero',
  'The library rounding function gives, for every number whose nearest integer fits an int, that nearest integer with ties away from zero; in particular it is odd-symmetric, monotone, and never off by more than one half.',
  ['inputs'], 'every double whose nearest integer is an int', 'The one existing test rounds a few positive values; the remaining 2^63 doubles, among them the neighbours of ties, are not sampled.',
  [I + 'common/TmpMath.hpp'], [('rounding of the fraction', 'tmpmath::round')], ['tmpmath::round'])
p('C02', 'Pose and point arithmetic obeys the plane-geometry laws',
  'Point and pose operations (sum, difference, scaling, dot product, length, distance, rotation, equality) agree with their mathematical definition for all operands; distance is symmetric and zero only for coinciding points, rotation preserves length, and angle differences are reported in the normalised range.',
  ['inputs'], 'all real operands (exact arithmetic)', NOTEST + 'continuous operands.',
  [I + 'common/Point2d.h', I + 'common/Pose2d.h', 'src/common/Point2d.cpp', 'src/common/Pose2d.cpp'], [('component-wise arithmetic', 'Point2d / Pose2d')], ['operators of Point2d and Pose2d'])

p('D01', 'Circle arcs and line poses lie on their shape and meet its end points',
  'A circle arc built from a start or end pose, angle and radius, or from a circle by choosing two of its points, passes the poses and points asked for, turns in the requested direction around the centre at that side, and sweeps the angle asked for, between zero and a full turn; its length is radius times angle. Points off the circle are refused as ends and change nothing. The points and poses sampled from it lie on it, equally far apart, from its start (backwards: from its end), and the poses point along it; it contains exactly the points it sweeps over, and its nearest point to a place, and the distance, are the closest of all. A line samples points that lie on it one behind the other and include its end, its poses are at the spacing asked for from start to end, or backwards from its end, cover it and point from start to end. Signed distance, side, foot point, projection, parallel, nearest point and distance of a line agree with plane geometry. Two path poses are identical only if both position and heading agree within their tolerances, and a copied shape is equal to and independent of its original.',
  ['inputs'], 'all centres, radii, angles and directions (exact arithmetic), stated sampling counts', NOTEST + 'continuous geometry.',
  ['src/geometry/circle.cpp', 'src/geometry/line.cpp', 'src/geometry/shape.cpp', I + 'geometry/shape.h'], [('arc angle from start to end point', 'Circle'), ('discretisation', 'Circle::toPoints / Line::toPoses')], ['toPoints', 'toPoses', 'selectStartPoint', 'selectEndPoint', 'getArcLength', 'nearestPointTo'])
p('D02', 'Intersections lie on both shapes and none is missed',
  'Every reported intersection point of a line with a circle, of two circles, of two arcs or of two lines lies on both, between their ends; as many different points are reported as exist, none when the shapes do not meet, one where they touch, and nothing is left over from an earlier request.',
  ['inputs'], 'all circles and lines in general position or exactly touching (exact arithmetic)', NOTEST + 'continuous geometry.',
  ['src/geometry/intersector.cpp', I + 'geometry/intersector.h'], [('closed form intersection', 'Intersector')], ['Intersector'])
p('D03', 'Tangents touch the circles they are drawn to',
  'The tangent circles of a line and a circle have the radius asked for, touch the line between its ends and the circle from outside, turn the other way, and none is missed; those of two circles touch the first from outside and the second from inside and turn like the second. A tangent arc joins the line and the circle, or the two circles, at both ends without a jump in position or heading, in the order asked for; none of those between a line and a circle is missed, and of those between two circles (which must turn opposite ways) the one that sweeps least is given, if there is one on the arcs given. A tangent path consists of line or circle, shortest tangent arc and circle or line, in the order asked for, contiguous and heading forwards; it is empty only if there is no such arc, or, between circles, none of at most half a turn.',
  ['inputs'], 'all scales, places and directions of the stated configurations (exact arithmetic)', NOTEST + 'continuous geometry.',
  ['src/geometry/tangentor.cpp', I + 'geometry/tangentor.h'], [('tangent construction', 'Tangentor'), ('choice among several', 'Tangentor::tangentPath / tangentInnerArcs')], ['Tangentor'])

p('E01', 'Curve patterns are accepted exactly when they follow the grammar',
  'Parsing a Reeds-Shepp pattern reports success exactly when the text is a sequence of arcs (L, R), straights (S), changes of the driving direction (|) and parenthesised groups of the markers b and p, with b only in groups behind an arc and no nesting; whatever text it is given, parsing and planning with it do not crash. A rejected text leaves no trace, an accepted one is one more choice for planning, and neither disturbs patterns added before or after.',
  ['inputs', 'histories'], 'all strings up to the stated length over the pattern alphabet plus foreign characters', NOTEST + 'all strings.',
  ['src/ReedsShepp/CurveGenerator.cpp', 'src/ReedsShepp/Curve.cpp'], [('character-wise automaton', 'CurveGenerator::parse')], ['CurveGenerator::parse'])
p('E02', 'A found curve connects start and goal smoothly and is the cheapest pattern',
  'For the patterns of two arcs with a straight between them and of three or four arcs that turn alternately: a found Reeds-Shepp curve begins at the start pose and ends at the goal pose, its segments join without gaps in position or heading (at a change of the driving direction, too), each arc has the configured radius and turns as its pattern says, at most once around, and its weight adds up from the lengths of its segments with their factors for backward driving, arcs and straights. A curve with a straight exists when the circles at start and goal do not overlap, one of three (four) arcs when their centres are at least two cells and at most four (six) radii apart, and of the two symmetric ones the cheaper is taken; start and goal less than two cells apart have no curve. Among several patterns the returned curve is the cheapest of those whose arcs together stay below the configured limit, and none is returned when no pattern has one.',
  ['inputs', 'configurations'], 'all start and goal headings (exact arithmetic) for the stated patterns and places', NOTEST + 'continuous poses.',
  ['src/ReedsShepp/Curve.cpp', 'src/ReedsShepp/CircleSegment.cpp', 'src/ReedsShepp/LineSegment.cpp', 'src/ReedsShepp/CurveGenerator.cpp', 'src/ReedsShepp/GeometryHelper.cpp'], [('tangent construction and arc angles', 'Curve::find_path / Curve::handle_*'), ('minimum over curves', 'CurveGenerator::find_path')], ['CurveGenerator::find_path', 'Curve::weight'])
p('E03', 'Curves through obstacles are rejected and waypoints follow the curve',
  'Without leave to ignore obstacles, no waypoint of a returned curve lies in the midst of occupied cells, and a pattern whose curve runs through free cells only (its circles being on the map) is not rejected; obstacles never make the answer cheaper, and asked to ignore them it is that of the free map. A straight or an arc over an occupied cell is not free, one over free cells is, and its weight is its length times its factors. The waypoints of a curve begin at the start pose, end at the goal pose, lie on the curve with the heading there, and are no further apart than the configured spacing.',
  ['inputs', 'configurations'], 'all placements of obstacles relative to the stated curves', NOTEST + 'all obstacle placements.',
  ['src/ReedsShepp/CurveSegment.cpp', 'src/ReedsShepp/CircleSegment.cpp', 'src/ReedsShepp/LineSegment.cpp', 'src/ReedsShepp/Curve.cpp'], [('waypoint iteration', 'CurveSegment / CircleSegment / LineSegment iterators'), ('is_free test', 'CurveSegment')], ['Curve waypoints'])

p('F01', 'Generic graph search returns only feasible paths',
  'Whenever a generic search returns a path, the path begins at the start and ends at the goal (within the tolerance of its goal test), each step is a move of the configured neighbourhood, and no waypoint is occupied. When start or goal is occupied, or no path exists, the returned path is empty.',
  ['inputs', 'configurations'], 'all maps up to the stated size, all starts and goals, for each search/neighbourhood/heuristic combination', NOTEST + 'all maps.',
  [I + 'generic/SearchAlgorithm.hpp', I + 'generic/DirectNeighborhood.hpp', I + 'generic/MapManager.hpp', I + 'generic/NodeManager.hpp', I + 'generic/Common.hpp'], [('GenericSearchAlgorithm::findPath expansion loop', I + 'generic/SearchAlgorithm.hpp'), ('DirectNeighborhood::iterateFreeNeighbors', I + 'generic/DirectNeighborhood.hpp')], ['findPath'])
p('F02', 'Generic graph search is complete and cost-optimal on grids',
  'On a grid, a path is returned whenever the goal is reachable through free cells, and with an admissible consistent heuristic no other path to within the tolerance of the goal is cheaper, counting the estimated rest of the way. With a goal test, the path returned is the cheapest to any cell that passes; when the search continues beyond its first solution, the path returned ends nearest to the goal among all within the allowed extra cost.',
  ['inputs', 'configurations'], 'all maps up to the stated size, all starts and goals, each heuristic', NOTEST + 'all maps.',
  [I + 'generic/SearchAlgorithm.hpp', I + 'generic/Heuristics.hpp', I + 'generic/Common.hpp', I + 'generic/Utils.hpp'], [('reopening of cheaper nodes and queue order', 'GenericSearchAlgorithm::processNeighbor')], ['findPath'])
p('F03', 'Repeated generic searches and changed goals are independent',
  'A search object gives the same answer for a request whether it is fresh or has served other requests before, and each request is answered for the map contents set most recently.',
  ['histories', 'inputs'], 'all histories of two requests on one object', NOTEST + 'sequences of requests.',
  [I + 'generic/SearchAlgorithm.hpp', I + 'generic/MapManager.hpp', I + 'generic/NodeManager.hpp'], [('map manager initialisation per search', 'MapManager'), ('node manager', 'NodeManager')], ['findPath'])
p('F04', 'Steering successors follow the vehicle kinematics',
  'Every successor generated for a pose lies on a circular arc or straight of the configured length tangent to the pose, its heading is turned by the matching angle and stays normalised, forward and backward moves are labelled as such, and the charged cost is the travelled length with the configured penalties. No offered successor stands on an occupied cell or is reached by a line through an obstacle (longer than the half metre at which lines are looked at); moves over free cells inside the padded map are all offered.',
  ['inputs', 'configurations'], 'all poses and steering configurations (exact arithmetic)', NOTEST + 'continuous poses.',
  [I + 'generic/SteeringNeighborhood.hpp', I + 'generic/DynamicSteeringNeighborhood.h', I + 'generic/SteeringNode.hpp'], [('advance', 'SteeringNeighborhood / DynamicSteeringNeighborhood')], ['iterateFreeNeighbors'])
p('F05', 'Heuristics never overestimate and behave as metrics',
  'Each distance heuristic (except the one that overestimates on purpose) is non-negative, zero at the goal, and never larger than the true cost of the cheapest path of the moves it is meant for, on any map; the obstacle-aware one equals the true grid distance on free cells.',
  ['inputs', 'configurations'], 'all poses; all maps up to the stated size', NOTEST + 'all poses and maps.',
  [I + 'generic/Heuristics.hpp', 'src/generic/heuristics.cpp', I + 'generic/DistanceTransformation.hpp'], [('closed forms', 'Heuristics.hpp'), ('wavefront expansion', 'HeuristicHolonomicObstacles')], ['heuristic values'])
p('F06', 'Search node storage gives every state its own node',
  'Looking up the same state twice gives the same node and different states give different nodes, at every coordinate (negative ones included), for every heading bucket and driving direction; a state that was never created is not reported as present, and starting anew forgets all marks.',
  ['inputs', 'histories'], 'all coordinates in the supported range, all headings', NOTEST + 'all coordinates.',
  [I + 'generic/MapManager.hpp', I + 'generic/NodeManager.hpp'], [('chunked lookup', 'DynamicDirectionalStateSpaceManager'), ('row-major lookup', 'GridMapManager')], ['lookup', 'contains'])
p('F07', 'Search queues return entries in order and marks are exact',
  'The priority queue interface of the search hands out entries in order of estimated total cost, the first-in-first-out queue in order of insertion; each inserted node is returned exactly once, and open/closed marks reflect exactly the latest transition.',
  ['histories', 'inputs'], 'all operation sequences up to the stated length', NOTEST + 'operation sequences.',
  [I + 'generic/Common.hpp', I + 'generic/NodeManager.hpp', I + 'generic/Utils.hpp'], [('QueueManager / PriorityQueueManager', I + 'generic/Common.hpp')], ['add/remove/next'])

p('G01', 'Goal regions offer poses of their region until exhausted',
  'A ring or centroid goal region offers exactly as many goals as asked for (a centroid region that leaves no choice of direction offers one), then none. Ring goals are spread evenly around the centre, within half the width of the radius, and point along the ring in the direction asked for. Centroid goals lie at the radius from the centre and point at it, spread evenly over the opening angle around the direct approach; the direct one has gain one, and gains fall towards it, rise behind it and stay between one and two. Asking for goals again starts anew.',
  ['inputs', 'histories', 'configurations'], 'all random sequences, centres, radii and counts up to the stated bound', NOTEST + 'random sequences.',
  ['src/sampling/CentroidRadiusGoalRegion.cpp', 'src/sampling/RingGoalRegion.cpp', 'src/sampling/GoalRegion.cpp'], [('getNextGoal', 'src/sampling/*GoalRegion.cpp')], ['getNextGoal'])
p('G02', 'The sampling planner returns the best candidate',
  'The sampling planner returns the candidate curve with the least gain-weighted cost among all goals offered by the region, an empty answer only if no goal has a collision-free curve, and it consults every goal offered.',
  ['inputs', 'configurations'], 'all goals of a region up to the stated count and all start poses of the stated family', NOTEST + 'all combinations of goals.',
  ['src/sampling/SamplingPlanner.cpp', I + 'sampling/SamplingPlanner.h'], [('minimum over goals', 'SamplingPlanner::createPath')], ['createPath'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
