"""What each check compiles, explores and bounds."""
MAP = ['src/common/GridMap2d.cpp', 'src/common/SimpleGridMap2d.cpp', 'src/common/Point2d.cpp', 'src/common/Pose2d.cpp']
ASTAR = ['src/a_star/AStar.cpp', 'src/a_star/Node.cpp', 'src/a_star/OpenList.cpp'] + MAP
COMMON = ['clang 18 code generation and the LLVM -O1 pipeline preserve behaviour', 'Z3 answers are correct',
          'memory model: distinct objects, exact bounds, allocation always succeeds, stream output dropped']
SPECS = {}
def spec(pid, **k):
    k.setdefault('assumptions', []); k['assumptions'] = COMMON + k['assumptions']
    SPECS[pid] = k

spec('A01', units=[dict(harness='astar.cpp', srcs=ASTAR, entries=['h_single'], defs=['COMPLETE=0'], quick=['W=3', 'H=3'], thorough=['W=4', 'H=3'], reach={'h_single': ['no path', 'path found', 'path with several cells']}),
                   dict(harness='astar.cpp', srcs=ASTAR, entries=['h_outside'], defs=['W=2', 'H=2', 'COMPLETE=0'])],
     bounds='maps 3x3 (quick) / 4x3 (thorough) with every cell value in 0..255, every start and goal in the map; 2x2 maps with start and goal in -2..3', outside='larger maps; maps with an origin or rotation')
spec('A02', units=[dict(harness='astar.cpp', srcs=ASTAR, entries=['h_single', 'h_outside'], defs=['VALID=0'], quick=['W=3', 'H=3'], thorough=['W=4', 'H=3'], reach={'h_single': ['no path', 'path found', 'path with several cells']})],
     bounds='maps 3x3 (quick) / 4x3 (thorough) with every cell value in 0..255, every start and goal in the map; termination within 20 million instructions', outside='larger maps')
spec('A03', units=[dict(harness='astar.cpp', srcs=ASTAR, entries=['h_same_size', 'h_other_size', 'h_shrink', 'h_grow', 'h_grow2', 'h_three', 'h_edit'], quick=['W=2', 'H=2'], thorough=['W=3', 'H=2'], time=dict(quick=100, thorough=1200), reach={'h_same_size': ['second search', 'path with several cells'], 'h_three': ['third search']})],
     bounds='two or three requests; maps up to 3x2 whose cells are free or occupied; the map exchanged for one of the same size, smaller, larger, or edited in place', outside='longer histories, larger maps')
spec('A04', units=[dict(harness='astar.cpp', srcs=ASTAR, entries=['h_openlist'], mode='real', quick=['OPS=5'], thorough=['OPS=6'], reach={'h_openlist': ['added again', 'exhausted', 'handed out', 'restarted']})],
     bounds='all sequences of 5 (quick) / 6 (thorough, within its time limit) operations on three cells, all real distances in [0,1.25] and predictions in [0,0.5]', outside='longer sequences, more cells, larger costs; rounding of costs to float')

GRID = MAP + ['src/common/RotatedGridMap2d.cpp', 'src/common/Bresenham2d.cpp', 'src/common/MapMath.cpp']
def maps(entries, **k): return dict(harness='maps.cpp', srcs=GRID, entries=entries, **k)
REAL = 'statements about continuous coordinates are decided in exact real arithmetic: rounding of doubles is not covered'
spec('B01', units=[maps(['h_classes', 'h_bulk', 'h_write'], reach={'h_classes': ['classified']})],
     bounds='maps up to 4x3 with every cell value, every pair of thresholds, every unknown marker in -1..255, two successive writes; isInMap for every pair of ints', outside='larger maps (addressing is uniform in the size), allocation failure')
spec('B02', units=[maps(['h_point', 'h_cell', 'h_rot_point', 'h_rot_cell'], mode='real', reach={'h_point': ['on the map', 'off the map'], 'h_rot_point': ['on the map', 'off the map']})],
     bounds='3x2 maps, every resolution in [0.5,2], every origin in [-3,3]^2, every rotation, every point within several cells around the map', outside='larger maps; rounding errors within one part in 10^9 of a cell border', assumptions=[REAL])
spec('B03', units=[maps(['h_line_grid'], quick=['LEN=9'], thorough=['LEN=24'], reach={'h_line_grid': ['long line']}), maps(['h_line_off'], reach={'h_line_off': ['reused']}), maps(['h_line_points'], mode='real', quick=['LW=4', 'LH=3'], thorough=['LW=6', 'LH=5'])],
     bounds='lines with coordinate differences up to 9 (quick) / 24 (thorough) anywhere in a 200x150 map; end points off a map within 1000 cells; all pairs of points of a 4x3 (6x5) map', outside='longer lines', assumptions=[REAL])
spec('B04', units=[maps(['h_disc'], mode='real', quick=['RMAX=3'], thorough=['RMAX=5']), maps(['h_buffer'])],
     bounds='every centre cell of a 6x5 map, every resolution in [0.1,4], every radius below 3 (quick) / 5 (thorough) cells; buffers on 4x3 maps with every content', outside='larger radii', assumptions=[REAL])
spec('B05', units=[maps(['h_area'], quick=['CELLS=3'], thorough=['CELLS=4']), maps(['h_area_kinds'])],
     bounds='arbitrary areas of up to 3 (quick) / 4 (thorough) cells anywhere (every int coordinate), over a 2x2 map with every content and every pair of thresholds; all lines and small discs on a 3x3 map with every content', outside='larger areas and maps; isAreaNoInformation (its documentation leaves open whether one or all cells must be unknown)')
spec('B06', units=[dict(harness='collision.cpp', srcs=MAP + ['src/common/RotatedGridMap2d.cpp', 'src/common/CollisionGridMap2d.cpp'], mode='mixed', entries=['h_free', 'h_occ', 'h_border_free', 'h_border_occ', 'h_off'], thorough=['TURN_EVERY=1', 'BORDER_EVERY=1'],
                        reach={'h_free': ['free', 'not free'], 'h_occ': ['occupied', 'not occupied'], 'h_border_free': ['free', 'not free'], 'h_border_occ': ['occupied', 'not occupied'], 'h_off': ['on the map', 'off the map']}),
                   dict(harness='collision.cpp', srcs=MAP + ['src/common/RotatedGridMap2d.cpp', 'src/common/CollisionGridMap2d.cpp'], mode='mixed', entries=['h_free', 'h_occ'], defs=['SIZE=21', 'FWD=7.5', 'BWD=-2', 'WID=3.2'], tiers=['thorough'])],
     bounds='13x13 map with every content, a 7x5 cell footprint reaching far ahead, every orientation of the first turn treated in 16 intervals, up to two turns more or less for every fourth (thorough: every) interval, quarter turns up to three turns either way, poses in the middle, in the four corners and off the map; cells within about a cell and the turn of half an interval of the footprint border may count either way', outside='other footprints (thorough adds a long narrow one), map rotation other than zero', assumptions=[REAL])

PT = ['src/common/Point2d.cpp', 'src/common/Pose2d.cpp']
spec('C01', units=[dict(harness='common.cpp', srcs=PT, entries=['h_round', 'h_round_small'], mode='fp', args=['--fresh'], reach={'h_round': ['largest', 'below one half']})],
     bounds='every double (normal, denormal, zero; each sign and exponent, all 2^52 fractions) whose nearest integer is an int: no bound', outside='infinities, NaN and numbers beyond the range of int, for which the function is undefined')
spec('C02', units=[dict(harness='common.cpp', srcs=PT, entries=['h_point_ops', 'h_point_rotate', 'h_point_resize', 'h_point_angle', 'h_pose_ops', 'h_pose_equal'], mode='real', reach={'h_point_ops': ['equal', 'different'], 'h_pose_equal': ['equal', 'different']})],
     bounds='coordinates in [-100,100], factors in [-50,50], all angles; pose comparison along four directions with tolerances in [0,2]', outside='rounding and overflow of doubles', assumptions=[REAL, 'angle helpers of cslibs_navigation_utilities (not installed) follow their documentation'])
SRCH = MAP + ['src/common/Bresenham2d.cpp']
def srch(entries, **k): return dict(harness='search.cpp', srcs=SRCH, entries=entries, **k)
def searches(d):
    R = {'h_single': ['no path', 'path']}
    T = [] if 'VALID=0' in d else ['h_timelimit']
    return [srch(['h_single'], defs=d, quick=['MW=3', 'MH=3'], thorough=['MW=4', 'MH=3'], reach={'h_single': ['no path', 'path', 'path of several steps']}),
            srch(['h_long'], defs=d, quick=['LW=4', 'LH=3'], thorough=['LW=5', 'LH=3'], reach={'h_long': ['no path', 'path of several steps']}),
            srch(['h_outside', 'h_callback', 'h_goaltest', 'h_intermission'] + T, defs=d, reach={'h_outside': ['refused', 'path'], 'h_goaltest': ['no path', 'path'], 'h_callback': ['accepted']}),
            srch(['h_oversearch'], defs=d, quick=['MW=3', 'MH=2'], thorough=['MW=3', 'MH=3'], reach={'h_oversearch': ['several candidates']}),
            srch(['h_fraction'], defs=d, mode='real', reach={'h_fraction': ['path', 'no path']}),
            srch(['h_intermission'], defs=d + ['STEPS=1']),
            srch(['h_single', 'h_goaltest'], defs=d + ['NB=4', 'ALG=AStar2dTaxiSearch', 'HEUR=1'], thorough=['MW=4', 'MH=3'], reach=R),
            srch(['h_long'], defs=d + ['NB=4', 'ALG=AStar2dTaxiSearch', 'HEUR=1'], quick=['LW=4'], thorough=['LW=5']),
            srch(['h_single'], defs=d + ['NB=4'], reach=R), srch(['h_single'], defs=d + ['ALG=AStar2dInfSearch', 'HEUR=0'], reach=R),
            srch(['h_single'], defs=d + ['DIST=2', 'MW=5'], reach=R), srch(['h_long'], defs=d + ['DIST=2', 'LW=8'], reach={'h_long': ['no path', 'path of several steps']}),
            srch(['h_single', 'h_oversearch'], defs=d + ['NB=4', 'DIST=2', 'MW=5', 'MH=2'], reach=R)]
GB = 'grid searches with 4 and 8 neighbours, step lengths 1 and 2, straight-line / Manhattan / maximum estimates, resolutions 1, 0.25, 0.05: maps 3x3 (quick) / 4x3 (thorough) with every cell value and every start and goal, 4x3 (5x3; 8x3 with step length 2) maps end to end with free or occupied cells; goal tests, candidate callbacks, time limit at any step and continued search on maps up to 3x3'
spec('F01', units=searches(['OPT=0']), bounds=GB, outside='larger maps; negative fractional coordinates; searches with headings (see F04)', assumptions=['DynamicPrioritySet (not installed) hands out an element of least cost under the current costs'])
spec('F02', units=searches(['VALID=0']), bounds=GB, outside='larger maps; Manhattan estimate with diagonal moves; costs within 10^-6', assumptions=['DynamicPrioritySet (not installed) hands out an element of least cost under the current costs'])
H3 = ['h_again', 'h_again_set', 'h_edited', 'h_edited_set', 'h_other', 'h_replaced_unused', 'h_after_oversearch', 'h_after_goaltest', 'h_after_refusal', 'h_three']
spec('F03', units=[srch(H3, thorough=['FEW=false'], reach={'h_again': ['first path', 'second request'], 'h_edited': ['first path', 'second request'], 'h_after_refusal': ['refused'], 'h_after_oversearch': ['first path'], 'h_after_goaltest': ['first path']}),
                   srch(['h_again', 'h_edited', 'h_other'], defs=['NB=4', 'ALG=AStar2dTaxiSearch', 'HEUR=1'])],
     bounds='two or three requests on one object; maps up to 3x2 with free or occupied cells; the map kept, set again, edited in place with and without setting it again, exchanged for one of another size or resolution; earlier requests plain, with continued search, with a goal test, or refused', outside='longer histories, larger maps; searches with headings', assumptions=['DynamicPrioritySet (not installed) hands out an element of least cost under the current costs'])
HE = MAP + ['src/common/Bresenham2d.cpp', 'src/generic/heuristics.cpp']
def heur(entries, **k): return dict(harness='heur.cpp', srcs=HE, entries=entries, **k)
spec('F05', units=[heur(['h_l2', 'h_dl2', 'h_l1', 'h_linf', 'h_move_l1', 'h_move_linf', 'h_move_l2', 'h_max'], mode='real'),
                   heur(['h_around'], quick=['HM=4', 'HN=3'], thorough=['HM=5', 'HN=3'], reach={'h_around': ['cut off', 'detour']}),
                   heur(['h_narrow', 'h_border', 'h_dynamic', 'h_twice'], reach={'h_border': ['detour'], 'h_dynamic': ['around'], 'h_twice': ['cut off', 'detour']})],
     bounds='distances: every pair of positions, every step; ways around obstacles: maps 4x3 (quick) / 5x3 (thorough) with free or occupied cells and every goal, padded maps, two estimates in a row', outside='larger maps; rounding of the estimates within 10^-6; the non-holonomic tables read from files', assumptions=[REAL])
NODES = MAP + ['src/common/Bresenham2d.cpp']
def nodes(entries, **k): return dict(harness='nodes.cpp', srcs=NODES, entries=entries, **k)
spec('F06', units=[nodes(['h_dyn', 'h_dyn_nodes', 'h_dyn_reset', 'h_dyn_present', 'h_grid', 'h_dir_nodes'], thorough=['DW=40'], reach={'h_dyn': ['both inside', 'outside'], 'h_dyn_reset': ['anew'], 'h_dyn_present': ['absent'], 'h_grid': ['anew', 'outside']}),
                   nodes(['h_dyn_pose', 'h_dyn_heading', 'h_dyn_turned', 'h_dyn_start', 'h_grid_pose', 'h_dir', 'h_dir_heading', 'h_dir_pose'], mode='real', reach={'h_dyn_heading': ['different', 'same', 'between']})],
     bounds='grid, directed and padded (dynamic) node stores: every pair of cells within one padding around maps of a few cells (thorough: wider than a chunk), every position and heading, every resolution in [0.5,2]; several clearings in a row', outside='larger maps; positions exactly on a cell border within one part in 10^9', assumptions=[REAL])
spec('F07', units=[nodes(['h_fifo', 'h_marks'], reach={'h_fifo': ['handed out', 'cleared']}), nodes(['h_priority', 'h_compare'], mode='real', quick=['OPS=4'], thorough=['OPS=5'], reach={'h_priority': ['handed out', 'cleared', 'removed']})],
     bounds='all sequences of 4 (quick) / 5 (thorough) operations on three nodes with every real cost; every sequence of marks', outside='longer sequences', assumptions=['DynamicPrioritySet (not installed) hands out an element of least cost under the current costs', REAL])
ST = MAP + ['src/common/Bresenham2d.cpp', 'src/generic/DynamicSteeringNeighborhood.cpp']
MOVES = {'h_plain': ['arc', 'straight', 'change of direction', 'refused'], 'h_reversed': ['arc', 'straight', 'refused'], 'h_dynamic': ['arc', 'straight', 'change of direction', 'refused', 'backing out']}
spec('F04', units=[dict(harness='steer.cpp', srcs=ST, mode='mixed', entries=['h_plain', 'h_reversed', 'h_forward', 'h_short', 'h_dynamic', 'h_dynamic_one_way'], thorough=['MORE=1'], reach=MOVES),
                   dict(harness='steer.cpp', srcs=ST, entries=['h_map_plain', 'h_map_forward', 'h_map_dynamic', 'h_map_edge', 'h_map_fine', 'h_lines'], thorough=['MORE=1'], reach={'h_map_plain': ['offered', 'withheld'], 'h_map_dynamic': ['offered', 'withheld'], 'h_lines': ['usable', 'blocked']})],
     bounds='single moves: every pose in [0,100]^2 with every heading, eleven steering angles, both directions, up to three predecessors, all penalties in [1,5], six vehicles; successors on a map: maps up to 3x3 with every content from one position each and eight headings; lines between all cells in and around a 3x2 map with every content', outside='other vehicles and step lengths; map rotation (ignored by the code); larger maps', assumptions=[REAL, 'sines and cosines of constants are those of the C library', 'DynamicPrioritySet (not installed)'])
GOALS = ['src/sampling/RingGoalRegion.cpp', 'src/sampling/CentroidRadiusGoalRegion.cpp', 'src/sampling/GoalRegion.cpp'] + PT
spec('G01', units=[dict(harness='sampling.cpp', srcs=GOALS, mode='real', entries=['h_ring', 'h_ring_again', 'h_centroid', 'h_centroid_again'], quick=['MAXN=4'], thorough=['MAXN=9'],
                        reach={'h_ring': ['goal', 'exhausted'], 'h_ring_again': ['again'], 'h_centroid': ['direct', 'goal', 'exhausted'], 'h_centroid_again': ['again']})],
     bounds='up to 4 (quick) / 9 (thorough) goals; every centre, source, radius and ring width; all positions of the random generator; five opening angles; two rounds on one region', outside='more goals; the goal list region (its header is not part of the repository)', assumptions=[REAL])
RS = ['src/ReedsShepp/' + f + '.cpp' for f in ('CircleSegment', 'Curve', 'CurveGenerator', 'CurveSegment', 'GeometryHelper', 'LineSegment')] + MAP
spec('E01', units=[dict(harness='parse.cpp', srcs=RS, mode='fp', entries=['h_parse'], quick=['CHARS=5'], thorough=['CHARS=6'], reach={'h_parse': ['well-formed', 'malformed']}),
                   dict(harness='parse.cpp', srcs=RS, mode='fp', entries=['h_between'], quick=['PLAN=4'], thorough=['PLAN=5'], reach={'h_between': ['another choice', 'better choice', 'no curve', 'rejected']})],
     bounds='every text of up to 5 (quick) / 6 (thorough) arbitrary bytes; every pattern of up to 4 (5) pattern characters between two others', outside='longer patterns')
LAZY = ['--lazy', '--fms=3000']
spec('E03', units=[dict(harness='follow.cpp', srcs=RS, mode='fp', entries=['h_straight', 'h_arc', 'h_among'], thorough=['SW=6', 'SH=5', 'TURNS=16'], reach={'h_straight': ['free', 'not free'], 'h_arc': ['free', 'not free'], 'h_among': ['curve', 'no curve']}),
                   dict(harness='follow.cpp', srcs=RS, mode='real', defs=['CLAMP_AT_ONCE'], entries=['h_arc_points', 'h_line_points'], args=LAZY, time=dict(quick=90, thorough=600), reach={'h_arc_points': ['few', 'many'], 'h_line_points': ['few', 'many']})],
     bounds='obstacles: every content of the map for all straights between cells in and around a 4x4 (thorough: 6x5) map, all arcs between 8 (16) angles with radii 2..4, and twelve curves of eleven patterns on a 34x27 map; waypoints: every start and end angle of an arc with four spacings, both turning and driving directions, every straight up to 8 long along twelve directions',
     outside='curves are approximated by cells: obstacles within one cell of an arc (2.5 cells of a whole curve) may count or not; circles reaching beyond the map; weights from cell costs', assumptions=[REAL])
def curves(entries, defs, tiers=('quick', 'thorough'), **k): return dict(harness='curves.cpp', srcs=RS, mode='mixed', entries=entries, defs=['CLAMP_AT_ONCE'] + defs, args=['--lazy', '--apart', '--fms=300'], tiers=tiers, **k)
ALLC = ['h_outer', 'h_inner', 'h_three', 'h_four']
spec('E02', units=[curves(ALLC, ['DISTANCES=3.1', 'TOWARD=0.6', 'BEST'], reach={e: ['curve'] for e in ALLC}),
                   curves(['h_lsr', 'h_lrl', 'h_lrlr'], ['DISTANCES=1.2,6.5', 'TOWARD=-2.5']),
                   curves(['h_lsr'], ['DISTANCES=3.4']),
                   curves(['h_lsl'], ['DISTANCES=3.4'], tiers=('thorough',)),
                   curves(['h_cheapest'], ['DISTANCES=3.1', 'TOWARD=0.6'], reach={'h_cheapest': ['curve', 'no curve']}),
                   curves(['h_cheapest'], ['DISTANCES=3.1', 'TOWARD=0.6', 'CHOICES=0,1', 'COST_BACK=6.5'], reach={'h_cheapest': ['curve', 'no curve', 'a cheaper one is beyond the limit']}),
                   curves(['h_cheapest'], ['DISTANCES=1.8', 'TOWARD=2.4', 'CHOICES=3,4,1,0'], tiers=('thorough',)),
                   curves(['h_lrl', 'h_lrlr'], ['DISTANCES=3.1'], tiers=('thorough',)),
                   curves(ALLC, ['DISTANCES=1.2,2.02,5.3,12', 'TOWARD=-2.5,1.5707963267948966', 'BEST'], tiers=('thorough',)),
                   curves(['h_outer', 'h_inner'], ['DISTANCES=2.7'], tiers=('thorough',))],
     bounds='every start and goal heading; all 32 patterns arc-straight-arc, all 16 of three and all 32 of four alternating arcs, with the circle centres 3.1 radii apart along one direction; single patterns at 1.2 and 6.5 radii and, with 3.4 radii, along every direction; thorough: 1.2, 2.02, 5.3 and 12 radii along two more directions, arcs and all patterns with a straight along every direction; the choice among three (thorough: four) patterns with every limit of the arcs',
     outside='other radii, distances and (but for the entries named) directions of the centres; patterns of other shapes (the parser admits them, the code has no geometry for them); obstacles (see E03); the straight of no length between touching circles', assumptions=[REAL, 'constant angles and roots are those of the C library'])
spec('G02', units=[dict(harness='planner.cpp', srcs=RS + ['src/sampling/SamplingPlanner.cpp', 'src/sampling/GoalRegion.cpp', 'src/common/MapMath.cpp'], mode='mixed', entries=['h_best', 'h_best_again', 'h_off_map'], quick=['OFFERS=3'], thorough=['OFFERS=4'],
                        reach={'h_best': ['curve', 'no curve', 'goal 0', 'goal 1', 'goal 2', 'behind the wall'], 'h_best_again': ['again']})],
     bounds='up to 3 (quick) / 4 (thorough) goals, each any of seven (three ordinary ones, one behind a wall, two off the map, one too close to the start) with any gain in [0.25,4]; the map with and without a wall; two requests in a row', outside='other goals, maps and patterns; weighted costs of a million and more', assumptions=[REAL])
GEO = ['src/geometry/' + f + '.cpp' for f in ('circle', 'line', 'shape', 'intersector', 'tangentor')]
def geo(entries, mode='real', **k): return dict(harness='shapes.cpp', srcs=GEO, mode=mode, defs=['CLAMP_AT_ONCE'], entries=entries, args=LAZY, **k)
MIX = 'constant angles and roots are those of the C library'
spec('D01', units=[geo(['h_line_to', 'h_line_from', 'h_line_point', 'h_line_nearest', 'h_arc_from', 'h_arc_to', 'h_arc_between', 'h_arc_refuses', 'h_arc_to_poses', 'h_pose_identical', 'h_copy'], reach={'h_line_to': ['many', 'few', 'one'], 'h_arc_to_poses': ['many', 'few'], 'h_pose_identical': ['identical', 'different']}),
                   geo(['h_arc_point'], reach={'h_arc_point': ['on the arc', 'off the arc']}), geo(['h_arc_nearest'], mode='mixed', reach={'h_arc_nearest': ['on the arc', 'off the arc']})],
     bounds='lines: every place, direction and length up to 6, two spacings; arcs: every centre, radius, start angle and swept angle, both directions; sampled and queried arcs: radius 2, every start angle and centre, seven swept angles, two spacings; the nearest point of an arc: twelve directions at any distance, three start angles', outside='other radii for sampling; rounding; points within 10^-4 of the ends of an arc', assumptions=[REAL, MIX])
spec('D02', units=[geo(['h_line_circle', 'h_line_misses', 'h_circles', 'h_circles_touch', 'h_circles_same', 'h_lines_meet', 'h_arcs_ends'], reach={'h_line_circle': ['crossing', 'entering', 'touching', 'apart'], 'h_line_misses': ['apart'], 'h_circles': ['apart', 'within', 'crossing'], 'h_circles_touch': ['inside', 'outside'], 'h_lines_meet': ['meet', 'apart'], 'h_arcs_ends': ['start', 'end']}),
                   geo(['h_arcs_meet'], mode='mixed', reach={'h_arcs_meet': ['two', 'one', 'none']})],
     bounds='two circles: all radii in [0.2,5], all places, directions and distances; touching circles of six proportions at every scale; a line and a circle: six proportions at every scale, place and direction, a line of every length from everywhere along its straight, lines missing or crossing at every distance; lines crossing at one angle, every place, direction and lengths; arcs: one pair of circles, every start angle, five by five swept angles; arcs touched exactly at either end in the four quarter directions, every radius and place', outside='configurations within 10^-3 of touching, except exactly touching ones; parallel lines', assumptions=[REAL, MIX])
spec('D03', units=[geo(['h_tangent_circles', 'h_arc_to_circle', 'h_arc_to_line', 'h_path_to_circle', 'h_path_to_line', 'h_inner_arcs', 'h_inner_path'], mode='mixed', reach={'h_tangent_circles': ['none', 'some', 'both sides'], 'h_arc_to_circle': ['none', 'one', 'two'], 'h_arc_to_line': ['none', 'one', 'two'], 'h_path_to_circle': ['none', 'path'], 'h_path_to_line': ['none', 'path'], 'h_inner_arcs': ['half', 'arc', 'none'], 'h_inner_path': ['from small', 'to small', 'none']}),
                   geo(['h_inner_circles'], reach={'h_inner_circles': ['two', 'none']})],
     bounds='a line and a circle: six proportions of radii and distance, on both sides, beyond and within, three extents of the line, at every scale in [0.1,3], every place and direction; two circles: eight triangles and two impossible ones of centres, likewise at every scale, place and direction, both turning directions, full circles and half ones; the inner tangent circles: all radii and distances', outside='other proportions for arcs and paths; proportions within 10^-3 of the ones where solutions vanish', assumptions=[REAL, MIX])
NOT_APPLICABLE = {}
