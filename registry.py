"""Which harness decides which property, from which sources, within which bounds."""
MC = "model_checking"
REG = {}
def reg(pid, harnesses, level=MC, bounds=None, assumptions=(), rule="", technique="", note=""):
    REG[pid] = dict(harnesses=harnesses, level=level, bounds=bounds or {}, assumptions=list(assumptions), rule=rule, technique=technique, note=note)

SHIM = "The ROS, tf, PCL, octomap and mavros libraries are replaced by the stand-ins in /verif/shim (validated with the repository's own ROS-dependent unit tests)."

reg("C01", [("c01", dict(main="c01_usm.cpp", sources="none", variant="opt", open=False, shards=8))],
    bounds={"quick": "all 1024 two-state tables x all result histories of length 5; all 19683 three-state tables over 3 results x histories of length 3; all 2187 macro tables x all (state, result)",
            "thorough": "as quick with histories of length 6 and 4"},
    technique="exhaustive enumeration of transition tables and result histories on the real engine vs a table interpreter")

reg("C02", [("local", dict(main="c02_local.cpp", sources="local", variant="opt", shards=8)), ("slp", dict(main="c02_slp.cpp", sources="slp", variant="opt", shards=8))],
    bounds={"quick": "AvoidanceNode: every 2-step history over 19 cloud ages x 19 start ages (at, one ns and 200 ms around each limit) x hover carried/cleared from 8 start states; local planner node and landing planner node: every 3-step history over 30 events (time step, planning result present, pose/map delay), three limit settings for the landing planner",
            "thorough": "3-step and 4-step histories"},
    assumptions=[SHIM], technique="exhaustive enumeration of supervision histories on the real nodes vs a reference supervisor")

reg("C03", [("c03", dict(main="c03_params.cpp", sources="avoid", variant="opt", shards=8))],
    bounds={"quick": "all 3-message histories over 14 parameter names and 7 near-miss names with 3 values; all 2048 answered subsets of the polled parameters; all pairs of mission lists of length <= 3 over 8 item kinds and every current index",
            "thorough": "4-message histories, mission lists of length 4"},
    assumptions=[SHIM], technique="exhaustive enumeration of parameter and mission message histories on the real node vs a map")

reg("C04", [("c04", dict(main="c04_tf.cpp", sources="avoid", variant="opt", open=False, shards=8))],
    bounds={"quick": "all insertion sequences of up to 6 inserts on one pair (9 stamps incl. the window limit +-1 ns, windows 2 s and 4 s) and up to 4 inserts over 3 pairs (also with look-alike frame names), 20 lookup times per pair after each",
            "thorough": "5 inserts over two pairs"},
    assumptions=[SHIM, "A lookup at the stamp of a single stored transform may succeed or fail."], technique="exhaustive enumeration of insert/lookup histories vs an ordered-list model")

reg("C05", [("c05", dict(main="c05_geometry.cpp", sources="avoid", variant="opt", open=False, shards=8))],
    bounds={"quick": "every azimuth of a 1 degree lattice plus bin borders +-0.01 degree x every elevation of a 3 degree lattice plus borders x 3 radii x 3 origins x 3 turns; every angle in +-1800 degrees in 0.1 degree steps; all pairs of angles over four turns in 5 degree steps; all roll/pitch/yaw of a lattice"},
    assumptions=[SHIM, "Agreement is judged within single-precision tolerances."], technique="exhaustive lattice enumeration of directions and angles vs double-precision definitions")

reg("C06", [("c06", dict(main="c06_fov.cpp", sources="avoid", variant="opt", open=False, shards=8))],
    bounds={"quick": "one camera: 48 mounting yaws x 7 horizontal x 3 vertical opening angles x 3 pitches x 242 azimuths x 21 elevations; two cameras: 12 x 24 yaws x 16 opening angles x 182 azimuths; three cameras: 8 x 12 x 12 yaws; every histogram column x 18 camera yaws x 6 opening angles x 29 vehicle yaws",
            "thorough": "three cameras on a 10 degree lattice"},
    assumptions=[SHIM, "Directions within 0.002 degree of a border are not judged.", "Column visibility is judged for cameras whose vertical range contains the horizon."], technique="exhaustive lattice enumeration of camera layouts and directions vs geometric definitions")

reg("C07", [("c07", dict(main="c07_cloud.cpp", sources="avoid", variant="opt", open=False, shards=8))],
    bounds={"quick": "every cloud of up to 5 points over 13 points (4 finite, 1 origin, 2 beyond 10 km, 6 with a non-finite component); every cloud of up to 3 directions and a quarter of those of 4 over 28 azimuths; every sequence of 3 clouds out of 113",
            "thorough": "clouds of up to 6 points"},
    assumptions=[SHIM, "A camera sees less than 180 degrees horizontally (stated by the code)."], technique="exhaustive enumeration of clouds and cloud sequences vs set filter and smallest-arc computation")

reg("C08", [("c08", dict(main="c08_histogram.cpp", sources="avoid", variant="opt", open=False, shards=8))],
    bounds={"quick": "every cell of both resolutions with its aliases up to two turns; every history of 4 operations out of 13 from both resolutions, the whole table compared after each", "thorough": "histories of 5 operations"},
    assumptions=[SHIM], technique="exhaustive enumeration of cells and operation histories vs a plain table")

reg("C09", [("c09", dict(main="c09_msgs.cpp", sources="avoid", variant="opt", open=False, shards=8))],
    bounds={"quick": "4^3 positions x 4^3 velocities x 25 headings (with roll and pitch) x 4 yaw rates x 3 message histories; Bezier: 64 x 3 control polygons x 49 headings x 3 durations x 3 message histories"},
    assumptions=[SHIM], technique="exhaustive lattice enumeration of setpoints and previous message contents vs field-by-field expectation")

reg("C10", [("c10", dict(main="c10_memory.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "8 configurations (cameras, ranges, ages, support 1-3, vehicle motion): all pairs of 247 clouds (all clouds of <= 2 points over 14 points incl. 3 invalid, 125 clouds of 3 points, 2 large ones), all triples of 53 clouds", "thorough": "all triples of 122 clouds"},
    assumptions=[SHIM, "Points within 0.0004 degree of a cell or view border are not judged.", "Ages are judged away from equality with the maximum age."], technique="exhaustive enumeration of cloud sequences on the real function vs a per-direction reference")

reg("C11", [("c11", dict(main="c11_histogram.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "every one-point cloud over 180 azimuths x 90 elevations x 4 ranges x 3 vehicle positions; every two-point cloud over 360 points; 1/63 of the three-point ones; messages for 38 headings x 4 camera layouts x (60 single sectors + 216 pairs)", "thorough": "1/21 of the three-point clouds"},
    assumptions=[SHIM], technique="exhaustive lattice enumeration of clouds, headings and camera layouts vs a per-cell reference")

reg("C12", [("c12", dict(main="c12_cost.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "preferences: 30 x 3 goal directions x 5 distances x 4 weight sets x 2 positions, deviations in 6 degree steps both ways; candidate lists: all cost maps of 1x1/2x2/2x3/1x6/3x3/2x4 over 2-4 values, every requested number; padding and smoothing: every unit impulse on every map size up to 6x12 and every radius; cost maps: 27 goals x one obstacle per (cell lattice), 27 x 384 obstacle pairs", "thorough": "3x3 maps over 3 values, 3x4 over 2, obstacle in every second column of every row"},
    assumptions=[SHIM, "Rows near the poles are sampled at the width of a horizontal cell and interpolated (by design)."], technique="exhaustive enumeration of cost maps, obstacle placements and goal directions vs ordering relations and a reference map")

reg("C13", [("c13", dict(main="c13_tree.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "46 scenes (walls, boxes, pairs, closed room, empty) x 7 goals x 3 velocities x 5 parameter sets (a third of them for the pairs) plus 7 extreme parameter sets; every node, expansion and path link of every tree", "thorough": "all combinations"},
    assumptions=[SHIM, "Equally cheap open nodes are interchangeable."], technique="exhaustive enumeration of scenes and parameters on the real search, replayed step by step against the search rule")

reg("C14", [("c14", dict(main="c14_path.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "all paths of up to 7 nodes with 6 kinds of segment x 4 speeds x 2 start times x (6 times per segment incl. the node instants)", "thorough": "8 nodes"},
    assumptions=[SHIM], technique="exhaustive enumeration of paths and elapsed times vs arc length")

reg("C15", [("c15", dict(main="c15_speed.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "32 jerk limits x 23 acceleration limits x 21 sensor ranges x 8 cruise speeds x 9 mission speeds (incl. unset)"},
    assumptions=[SHIM, "The vehicle limits are known and positive."], technique="exhaustive lattice enumeration of limits vs the braking distance")

reg("C16", [("c16", dict(main="c16_sim.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "147 limit sets x 27 directions (incl. none) x 27 start velocities (x 6 start accelerations for a third), every state of each trajectory", "thorough": "start accelerations with every start velocity"},
    assumptions=[SHIM, "The start acceleration may carry the velocity past a limit by what it takes to remove it."], technique="exhaustive lattice enumeration of simulated trajectories, every state checked against the motion equations and limits")

reg("C17", [("c17", dict(main="c17_modes.cpp", sources="local", variant="opt", open=False, shards=8))],
    bounds={"quick": "fixed point over the abstract states; from each, every event out of 960 (10 flight modes x 4 altitudes x 3 path ages x hold x airborne x speed) followed by every event out of 160; every history of 3 events over a reduced alphabet of 56", "thorough": "all pairs out of 960; histories of 5 reduced events"},
    assumptions=[SHIM], technique="explicit-state exploration of the real mode machine vs a reference machine")

reg("C18", [("c18", dict(main="c18_setpoints.cpp", sources="local", variant="opt", open=False, shards=8))],
    bounds={"quick": "48 configurations (smoothing, cruise speed, cameras) x every pair of steps out of 259 (7 poses x 6 modes x 5 time steps x hold), most of them followed by every pair of equal steps out of 36; 216 closed-loop flights", "thorough": "144 following pairs"},
    assumptions=[SHIM, "The published position follows the speed-adapted one by the configured critically damped filter, whose lag is not judged against the goal except in closed-loop flights."], technique="exhaustive enumeration of step histories on the real generator vs a double-precision reference")

reg("C19", [("c19", dict(main="c19_inputs.cpp", sources="local", variant="opt", shards=8))],
    bounds={"quick": "every pair of input messages (371 x ~160: trajectory inputs over valid flags, points, velocities, commands; clicked goals; goal lists; mode changes; planner and setpoint steps), every triple of a reduced set of 25, with and without goal-topic acceptance; every pair of 23 mode names x armed", "thorough": "4 reduced messages"},
    assumptions=[SHIM], technique="exhaustive enumeration of message histories on the real node vs a reference")

reg("C21", [("c21", dict(main="c21_grid.cpp", sources="slp", variant="opt", shards=8))],
    bounds={"quick": "7 grid configurations x 5 positions x every list of up to two points out of 20 (in cells, last float inside each limit, on the limit, outside, non-finite) and of three out of 10; 4800 position/size/cell combinations with border points; every history of 4 events out of 19 (clouds, positions, reconfigurations) and of 4 out of 14 with recorded grids, all cells of both grids compared after each; 125 node runs comparing every published cell",
            "thorough": "histories of 5 events"},
    assumptions=[SHIM, "A point within single-precision rounding of an interior cell border may be counted on either side.", "Heights are finite or NaN (the node removes non-finite points)."], technique="exhaustive enumeration of clouds and update/reconfiguration histories on the real planner vs a per-cell reference")

reg("C22", [("c22", dict(main="c22_land.cpp", sources="slp", variant="opt", shards=8))],
    bounds={"quick": "one cell at and around each threshold (5 x 4 thresholds x 9 counts x 8 deviations x 4 neighbourhoods); all 65536 patterns of good cells on 4x4 for 26 neighbourhood settings; all 65536 height patterns on 4x4 for 36 settings; a third of all 2^18 combined 3x3 patterns for 40 settings; 10x10 and 40x40 grids with every pair of bad cells on a lattice; 4x4 grids built from points with every pair of defects",
            "thorough": "all combined 3x3 patterns"},
    assumptions=[SHIM, "Cells outside the grid count as not landable and at height 0 (the code's rule)."], technique="exhaustive enumeration of cell statistics, neighbourhoods and thresholds on the real decision vs the rule")
reg("C27", [("c27", dict(main="c27_grid.cpp", sources="none", variant="opt", shards=8))],
    bounds={"quick": "every history of 4 operations out of 35 on two grids (two start sizes), every cell of every statistic compared after each; 191 sizes x 31 cell sizes", "thorough": "5 operations"},
    technique="exhaustive enumeration of operation histories vs plain tables")

reg("C23", [("c23", dict(main="c23_landing.cpp", sources="slpwp", variant="opt", shards=8))],
    bounds={"quick": "6 configurations (maps of 3 to 8 cells, areas of 1 to 5 cells, history factors and thresholds); fixed point over abstract controller states with up to 2 rejections; from each, every event out of ~108 (positions x maps x map sequence numbers; items; mode changes) followed by one of 19 in rotation", "thorough": "3 rejections; every following event"},
    assumptions=[SHIM], technique="explicit-state exploration of the landing controller (real node) vs a reference")

reg("C24", [("c24", dict(main="c24_explore.cpp", sources="slpwp", variant="opt", shards=8)), ("c24a", dict(main="c24_explore.cpp", sources="slpwp", variant="asan", shards=8))],
    bounds={"quick": "720 x 8 rejection histories of 18 sites; all single areas, pairs of areas, single defects on maps up to 9x9 with areas of 1 to 9 cells; all patterns on 3x3 and 4x4; all assignments of 3 heights on maps up to 3x3; height steps on maps up to 16x16; a reduced set under the address sanitizer", "thorough": "30 sites"},
    assumptions=[SHIM], technique="exhaustive enumeration of rejection histories, maps and area sizes on the real landing node vs a reference")
reg("C25", [("c25", dict(main="c25_setpoint.cpp", sources="slpwp", variant="opt", shards=8))],
    bounds={"quick": "15625 combinations of position and velocity components x 4 headings through the controller, 262144 directly; every history of 6 cycles out of 9", "thorough": "7 cycles, 46656 combinations"},
    assumptions=[SHIM], technique="exhaustive enumeration of setpoint component combinations and controller histories on the real landing node")

reg("C28", [("c28", dict(main="c28_cells.cpp", sources="global", variant="opt", shards=8)), ("c28a", dict(main="c28_cells.cpp", sources="global", variant="asan", shards=8))],
    bounds={"quick": "4 cell sizes x 69^3 points at, just below and just above cell borders; 462 large cells; neighbour lists of 7x7x6 cells with influence radii up to 8; all pairs of 105 cells and of 144 nodes; all pairs of 146 motions; every step of up to 4 cells per axis at 3 cell sizes; the same under the address sanitizer", "thorough": "steps of up to 5 cells"},
    assumptions=[SHIM], technique="exhaustive lattice enumeration of cells, points and motions on the real code vs a reference")

reg("C30", [("c30", dict(main="c30_risk.cpp", sources="global", variant="opt", shards=8)), ("c30a", dict(main="c30_risk.cpp", sources="global", variant="asan", shards=8)), ("c30n", dict(main="c30_node.cpp", sources="global", variant="opt", shards=8))],
    bounds={"quick": "heights -4 to 60 x 10 occupancies x seen or not x 3 penalties x 3 cell sizes, with the heuristics to every third height; all 16384 states of a cell and its 6 neighbours at 3 heights and 3 flows, compared with each other for the order; 5 resolutions x 4 robot radii x 3 cell sizes x 9 obstacles; every history of 5 events out of 8 (maps, undecodable messages, seen obstacles, queries); the same under the address sanitizer; on the node, clouds of one or two of 12 points x 3 transforms x 2 cameras x 3 cell sizes between maps", "thorough": "histories of 6 events, every goal height"},
    assumptions=[SHIM, "The occupancy tree is a stand-in with octomap's search semantics (a coarser search returns the largest log-odds of the leaves below)."], technique="exhaustive enumeration of small occupancy maps and update histories on the real planner vs a reference")

reg("C29", [("c29", dict(main="c29_path.cpp", sources="global", variant="opt", shards=8))],
    bounds={"quick": "all 4096 obstacle patterns of 4x3 columns x 3 node types x 2 starts; all 4096 patterns of 3x2x2 cells x 3 types; a part of the 19683 risk patterns of 3x3 for the cheapest path; pairs of obstacles in a 9x7 room with risk flow; start and goal heights 0-6 x 4 altitude bands x 3 cell sizes x 3 types; goals x radii x iteration limits x overestimate factors; open space", "thorough": "all of them"},
    assumptions=[SHIM, "Completeness is judged in closed rooms, where the reachable cells are few enough for the iteration limit.", "A path of the last resort search is judged by the risk of its cells, any other by the mean risk of each step."], technique="exhaustive enumeration of small obstacle maps on the real search vs breadth first and Dijkstra search over a reference risk")

reg("C31", [("c31", dict(main="c31_smooth.cpp", sources="global", variant="opt", shards=8))],
    bounds={"quick": "all paths of up to 6 points (a fifth of those with 7) with 6 kinds of steps over 6 maps and cost settings x 6 margins x 4 pass limits (a third of them for 6 and 7 points); smoothing, corners and length of each path", "thorough": "7 points, a third of those with 8"},
    assumptions=[SHIM, "Costs equal up to rounding may be decided either way."], technique="exhaustive enumeration of short paths, margins and pass limits on the real code vs the rule and the additive risk")

reg("C32", [("c32", dict(main="c32_node.cpp", sources="global", variant="opt", shards=8))],
    bounds={"quick": "every history of 3 events out of 20 (planner and command ticks, goals free / in a wall / far / here, flight controller goals, 4 maps, early map, positions, following the setpoint, velocity, clicked point) after 6 openings in 4 settings, followed by 1 or 2 longer flights; 48 complete flights of 40 s", "thorough": "4 events"},
    assumptions=[SHIM, "Whether a plan exists and which one is taken from a copy of the planner (decided by C29, C31); everything the node does with it from a reference."], technique="exhaustive enumeration of event histories on the real node vs a reference")

reg("C34", [("c34", dict(main="c34_settings.cpp", sources="global", variant="opt", shards=8))],
    bounds={"quick": "all single values and a quarter of the pairs of values of 29 settings x 4 times of change (at start, before the first map, on a running planner, in other order with use in between), each judged by risk, legality, cost, heuristic, goal, path, simplified path, speed; start parameters: 3 x 4 x 2 x 3 x 4 combinations", "thorough": "all pairs"},
    assumptions=[SHIM, "The path itself is compared with that of a planner set up directly (decided by C29)."], technique="exhaustive enumeration of setting changes and their times on the real node vs the meaning of the settings")

reg("C33", [("c33", dict(py="c33_diagram"))],
    bounds={"quick": "1380 transition tables (two and three listed states with up to two or three results each, one state with all five results, every error state), each in one of 10 ways of writing, 38 of them in all ways; the three machines of the repository", "thorough": "9700 tables"},
    technique="exhaustive enumeration of transition tables as source texts: the generated diagram vs the relation of the compiled table")

reg("C20", [("c20", dict(main="c20_threads.cpp", sources="local", variant="sched", shards=1))],
    bounds={"quick": '5 scenarios (start and stop; cloud, position and command loop; two cameras; reconfiguration and goals; clouds while planning) x 2 default thread orders: every schedule with 1 deviation from the default order, and those with 2 as far as 4 to 22 s per scenario and order allow; a deviation is any other ready thread at a synchronisation operation or atomic access, or another order of wake-ups', "thorough": '3 deviations, 600 s per scenario and order'},
    assumptions=[SHIM], technique="stateless exploration of all thread schedules of the real node within a preemption bound, with a happens-before race detector")

reg("C26", [("c26", dict(main="c26_threads.cpp", sources="slpwp", variant="sched", shards=1))],
    bounds={"quick": '7 scenarios (start and stop; clouds and a late transform; a newer cloud while one waits; a transform which expires and new settings; recorded maps; landing planner program and shutdown; setpoint program and shutdown) x 2 default thread orders: every schedule with 1 deviation, and those with up to 3 as far as 5 s allow', "thorough": '5 deviations, 300 s per scenario and order'},
    assumptions=[SHIM], technique="stateless exploration of all thread schedules of the real node within a preemption bound, with a happens-before race detector")

reg("C35", [("c35", dict(main="c35_threads.cpp", sources="avoid", variant="sched", shards=1))],
    bounds={"quick": '5 scenarios (start and stop; values change while they are asked for; slow answers; stop inside of a request; flight controller not reachable at first) x 2 default thread orders: every schedule with 1 deviation, and those with up to 3 as far as 6 s allow', "thorough": '5 deviations, 300 s per scenario and order'},
    assumptions=[SHIM], technique="stateless exploration of all thread schedules of the real node within a preemption bound, with a happens-before race detector")

reg("C36", [("c36", dict(main="c36_threads.cpp", sources="global", variant="sched", shards=1))],
    bounds={"quick": '6 scenarios (start and stop; maps and positions while planning; goals and settings while planning; late camera transform; long planning; program and shutdown) x 2 default thread orders: every schedule with 1 deviation, and those with up to 3 as far as 5 s allow', "thorough": '5 deviations, 300 s per scenario and order'},
    assumptions=[SHIM], technique="stateless exploration of all thread schedules of the real node within a preemption bound, with a happens-before race detector")

reg("C37", [("c37", dict(main="c37_flights.cpp", sources="local", variant="fast", shards=8, timeout={"quick": 780}))],
    bounds={"quick": "67 worlds (pillars, pairs of pillars, walls, boxes in the air, trees, buildings, a roof, none) x about 17 of 43 flights each: three speeds, late plans, one or three cameras, heading at the start, offboard, climbs, two vehicle responses, unknown parameters, worlds turned by 7 angles and far from the origin, cameras silent from 5 times on for 4 durations, lost clouds, one or two further goals at two times; every setpoint of every flight (about 400 each)",
            "thorough": "all 43 flights in every world"},
    assumptions=[SHIM, "The vehicle follows a setpoint with a proportional position loop within the limits of speed and acceleration of the parameters and turns at up to 60 degrees/s; cameras see 64 x 48 degrees up to 18 m without noise; planning takes no time unless a delay is given.", "Arrival is claimed where the obstacle is not centred on the direct way (the planner documents no way out of local minima)."], technique="exhaustive enumeration of closed-loop executions of the real node in a family of worlds, start states and faults")

reg("C38", [("c38", dict(main="c38_landings.cpp", sources="slpwp", variant="fast", shards=8, timeout={"quick": 780}))],
    bounds={"quick": "144 grounds (flat at three heights, slopes, rocks, pits, walls, cars, steps, landing pads in rough ground at the sites of two rings and in the directions searched within a map, rough ground) x about 25 of 77 flights each: landing item or landing mode, 24 starts, 7 patterns of lost maps, 14 takeovers by the pilot, 14 holds, another item at 5 times, a car arriving at 6 times, cells, smoothing, landing area, filters, loiter heights, spiral, grid, position noise, three vehicle responses; every map and setpoint of every flight (300 to 1500 each)",
            "thorough": "all flights above every ground, all pads"},
    assumptions=[SHIM, "The vehicle follows a setpoint with a proportional position loop plus the velocity setpoint, holds its position when no setpoint came for 0.5 s, and the flight controller repeats its mode every second and the current item ten times a second; the camera sees the ground straight down up to 5.5 m to each side without noise.", "The ground is judged within the landing area, widened by the smoothing, less 0.7 m (acceptance radius, drift while loitering, cells); obstacles which arrive within 1.5 s of the decision or later are not judged (no sensor looks while the vehicle descends)."], technique="exhaustive enumeration of closed-loop executions of both real landing nodes over a family of grounds, start states, settings and faults")

# properties without a check, with the reason
NA = {}
