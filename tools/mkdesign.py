#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus, per property, the bounds of specs.py and the planted changes."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from specs import SPECS
P = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
METHOD = {
 'A01': ('The real `AStar` search runs on a map whose cells, start, goal and thresholds are unknown; every branch on a cell forks. The oracle is the definition: the path begins at the start, ends at the goal, each step goes to one of the eight neighbours, no cell on it is blocked, and it has no cell twice.', 50),
 'A02': ('Same runs; the oracle is a reachability fixpoint computed from the same unknown cells on the path reached. "No path" must imply that the goal is not reachable, and the other way round.', 50),
 'A03': ('Histories of two and three requests, with edits of single cells and replacement by a map of equal, larger, smaller or transposed size; the last answer is compared with the answer of a fresh searcher on the same map. Reading memory left over is a fresh unknown, so stale nodes show.', 40),
 'A04': ('The open list is driven by an unknown sequence of add / improve / pop / restart with unknown real costs, and compared with a list of what was added.', 20),
 'B01': ('Classification, writes and bulk operations with unknown values, thresholds, coordinates and sizes against the definition.', 15),
 'B02': ('Real arithmetic with unknown resolution, origin, angle (an angle is a pair cos, sin with cos²+sin²=1) and point; the cell must contain the point, and conversions must invert each other.', 30),
 'B03': ('Line walks between unknown cells: chain of neighbours, ends included, no cell twice, at most half a cell from the ideal line; reuse of the walker; lines whose ends lie off the map.', 25),
 'B04': ('Discs with unknown radius and resolution at every centre cell: no cell twice, every cell nearer than the radius less one cell, none beyond the radius and one cell; buffers write and restore exactly their cells.', 30),
 'B05': ('Area queries on areas made of unknown cells (any int) on unknown map contents against a direct evaluation over the cells.', 30),
 'B06': ('The collision map with unknown contents at unknown orientations; the oracle is the rotated rectangle itself: certain inside cells and certain outside cells. Map cells are bytes, orientation an exact real.', 250),
 'C01': ('IEEE doubles given by sign, exponent and all fractions, as bit vectors; the oracle is integer arithmetic on the fraction. No bound.', 60),
 'C02': ('Polynomial identities with unknown operands; most are decided by the engine\'s normal form (ring with cos²+sin²=1), the rest by Z3.', 10),
 'D01': ('Arcs and lines with unknown centre, radius, direction, ends; sampled points are compared with the defining equations, containment and nearest point with the swept angle.', 60),
 'D02': ('Configurations built so that the meeting points are known (proportions fixed, scale, place and direction unknown); the number and place of reported points must be exact; arcs touched exactly at an end included.', 45),
 'D03': ('As D02 for tangent circles, arcs and paths; joints must agree in place and heading, and every existing solution must be found.', 120),
 'E01': ('Every string up to the length bound, character by character unknown; the oracle is the grammar as a separate automaton. Planning with what was accepted must not crash.', 60),
 'E02': ('`Curve` and `CurveGenerator` (through subclass-free access to the fields) with unknown headings: every segment must begin where and how the one before it ends; weights add up; the cheapest pattern within the limit is returned. Runs with --apart: an assertion is decided from the definitions it depends on; path feasibility may stay unknown, assertions do not.', 380),
 'E03': ('Straights and arcs over maps with unknown cells; blocked cells on the curve must reject it, and cells clear of it must not. Waypoints of unknown curves lie on them at the spacing asked for.', 60),
 'F01': ('`GenericSearchAlgorithm` instances (A*, taxi metric, L-infinity; 4 and 8 neighbours; single, multiple and long steps; goal tests, callbacks, intermission, time limit, oversearch) on unknown maps; the path is checked against the definition.', 120),
 'F02': ('As F01; the oracle is a Bellman-Ford fixpoint over the unknown cells: a path is found iff one exists and its cost is the smallest.', 150),
 'F03': ('Two and three requests on one object with edits, other maps, refusals and interrupted searches between, compared with a fresh object.', 120),
 'F04': ('Steering neighbourhoods with unknown pose; each successor must be the circle or straight step of its steering angle; lines looked at for obstacles on unknown maps.', 120),
 'F05': ('Heuristics: triangle inequality, symmetry and zero at the goal by real arithmetic; the map heuristics against a shortest-path fixpoint on unknown maps.', 120),
 'F06': ('Node storages (static, dynamic chunks, with directions) with unknown coordinates: equal states share a node, different ones do not, out of range gives none, a reset forgets all.', 90),
 'F07': ('Queues and marks under unknown operation sequences against a list.', 20),
 'G01': ('`rand()` is an unknown in [0, RAND_MAX] per call; the offered poses must lie in the region, be as many as announced, and be offered once.', 30),
 'G02': ('The sampling planner with up to three unknown choices of goals and gains; oracle: the best of the single answers.', 200),
}
out = [HEAD, '\n## Properties\n']
seeds = {}
sd = os.path.join(HERE, 'seeded')
if os.path.isdir(sd):
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, 'meta.json'))); seeds.setdefault(m['property'], []).append((i, m))
for p in P:
    s = SPECS[p['id']]; m, t = METHOD[p['id']]
    out.append('### %s %s\n%s\n\n- Deciding: symbolic execution of the IR + Z3. %s\n- Bounds: %s.\n- Outside: %s.' % (p['id'], p['title'], p['statement'], m, s['bounds'], s['outside']))
    if s.get('assumptions'): out.append('- Assumptions: %s.' % '; '.join(s['assumptions']))
    out.append('- Entries: ' + '; '.join('`%s` [%s] %s%s' % (u['harness'], u.get('mode', 'fp'), ', '.join(u['entries']), (' with ' + ' '.join(d for d in u.get('defs', []) if d != 'CLAMP_AT_ONCE')) if [d for d in u.get('defs', []) if d != 'CLAMP_AT_ONCE'] else '') for u in s['units'] if 'quick' in u.get('tiers', ('quick', 'thorough'))) + '.')
    out.append('- Quick cost: about %d s on 8 cores. Beyond tests: %s' % (t, p['why_tests_cant']))
    out.append('')
out.append('\n## Planted changes\nEach is confirmed: it builds, the test passes, its demonstration fails with it and passes without. "Caught" means by the quick check of its property with the reported violation reproduced natively.\n\n| change | property | what it needs | caught |\n|---|---|---|---|')
C = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
for k in sorted(seeds):
    for i, m in seeds[k]: out.append('| %s | %s | %s | %s |' % (i, k, m['needs'].replace('|', '/'), C.get(i, '?')))
out.append(TAIL)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
