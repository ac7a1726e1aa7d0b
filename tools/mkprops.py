#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit the table here, then run it.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "State machine engine follows its transition table exactly",
 "A state machine built on the shared state-machine base starts in its declared start state; each iteration runs the behaviour of the state it is in exactly once, staying on a repeat result and otherwise moving to the state its table gives for that (state, result) pair. Whatever the table does not define for a state - an explicit error result included, unless the table maps it - leads to the error state, never to any other state.",
 ["programs", "histories"],
 "every transition table over small state sets and every sequence of behaviour results up to the bound, from the initial state",
 "test_usm drives one hand-written 3-state machine through one or two sequences; the guarantee is over all tables and result histories.",
 ["avoidance/include/avoidance/usm.h"],
 [("StateMachine::iterateOnce / USM_TABLE macros", "avoidance/include/avoidance/usm.h:40-95")],
 ["getState() after each iterateOnce()"])

prop("C02", "Companion health reported to the autopilot follows sensor-data age",
 "Every supervision step reports flight termination once the sensor data have been missing longer than the termination limit, a critical state (with the request to hover, where the node can hover) when they have been missing longer than the critical limit (each only after the corresponding start-up grace time), and an active state otherwise, unless the vehicle is holding because of an earlier problem. The companion heartbeat carries exactly the reported status, and the supervision never escalates while data are fresh.",
 ["histories", "inputs"],
 "all sequences of (time step, cloud arrival, hover state) up to the bound over times at, just below and just above each limit",
 "No test exercises the supervision with the clock at and around the limits; it depends on histories of sensor gaps.",
 ["avoidance/src/avoidance_node.cpp", "avoidance/include/avoidance/avoidance_node.h", "local_planner/src/nodes/local_planner_nodelet.cpp", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"],
 [("AvoidanceNode::checkFailsafe", "avoidance/src/avoidance_node.cpp"), ("LocalPlannerNodelet::checkFailsafe", "local_planner/src/nodes/local_planner_nodelet.cpp"), ("SafeLandingPlannerNode::checkFailsafe", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp")],
 ["/mavros/companion_process/status messages", "hover flag"])

prop("C03", "Autopilot parameters and mission speed are tracked faithfully",
 "After any sequence of autopilot parameter messages and mission item lists, each vehicle-model parameter exposed to the planners equals the last value received for that parameter name and no other, integer parameters from the integer field and real ones from the real field. The mission speed equals the value of the last ground-speed change with a positive speed at or before the current mission item; without one it keeps its previous value and is unset at first.",
 ["histories", "inputs"],
 "all sequences of parameter and mission messages up to the bound over every known parameter name, an unknown one, and every mission layout of bounded length",
 "No test covers these callbacks (they need ROS); the mapping is per name and per history.",
 ["avoidance/src/avoidance_node.cpp"],
 [("AvoidanceNode::px4ParamsCallback", "avoidance/src/avoidance_node.cpp"), ("AvoidanceNode::missionCallback", "avoidance/src/avoidance_node.cpp"), ("AvoidanceNode::checkPx4Parameters", "avoidance/src/avoidance_node.cpp")],
 ["getPX4Parameters()", "getMissionItemSpeed()"])

prop("C04", "Transform buffer answers exactly from the transforms it stored",
 "A lookup succeeds only if stored transforms of that frame pair bracket (or coincide with) the requested time within the retained window, always when two of them bracket it, and then returns the pose interpolated between the two neighbouring stored transforms, stamped with the requested time. Transforms older than the newest stored one are rejected, storage for each pair stays time-ordered and bounded by the configured window, and frame pairs never mix.",
 ["histories", "inputs"],
 "all insert/lookup sequences up to the bound over a small grid of times and frame pairs",
 "test_transform_buffer needs ROS (not built here) and checks a few sequences; ordering, pruning and pair isolation hold over all histories.",
 ["avoidance/src/transform_buffer.cpp", "avoidance/include/avoidance/transform_buffer.h"],
 [("TransformBuffer::insertTransform / getTransform / interpolateTransform / isRegistered", "avoidance/src/transform_buffer.cpp")],
 ["return values and transforms from the public interface"])

prop("C05", "Angle, polar and frame conversions are consistent for every direction",
 "Cartesian-polar conversions in the histogram and vehicle conventions are mutually inverse, angle wrapping returns the equivalent angle in the canonical half-open range, angle differences are the shortest ones, and every direction maps to the histogram cell whose angular range contains it (indices always inside the grid). North-east-down and east-north-up conversions of positions, yaw and orientations are involutive and mutually consistent, and the commanded yaw rate turns the shorter way.",
 ["inputs"],
 "every direction on a fine lattice of azimuth, elevation and radius including the wrap and bin boundaries, and every pair of angles on a lattice over several turns",
 "test_common (not built here) samples a few directions; wrap-around and boundary cases are where errors hide.",
 ["avoidance/src/common.cpp", "avoidance/include/avoidance/common.h"],
 [("wrapPolar, wrapAngleToPlusMinusPI/180, cartesianToPolar*, polar*ToCartesian, polarToHistogramIndex, histogramIndexToPolar, angleDifference, indexAngleDifference, nextYaw, getAngularVelocity, toNED/toENU", "avoidance/src/common.cpp")],
 ["return values"])

prop("C06", "Field-of-view tests and weights agree with the camera geometry",
 "A direction is inside a camera's field of view exactly when its azimuth and elevation lie within half the opening angles of the camera axis, measured the short way round, for any mounting yaw including a rear-facing camera; a set of cameras covers the union. The visibility weight lies in [0,1], is 0 outside every camera, 1 wherever the view is unobstructed by an outer edge, and falls to 0 towards the outer edge. A histogram column counts as visible when at least one of its two borders lies in a camera's horizontal view.",
 ["inputs", "configurations"],
 "every one- and two-camera layout on a lattice of mounting yaws and opening angles, against every direction on a lattice",
 "The (unbuilt) tests use a few forward-facing layouts; cameras whose view straddles the rear are never exercised.",
 ["avoidance/src/common.cpp"],
 [("pointInsideFOV, pointInsideYawFOV, isInWhichFOV, isOnEdgeOfFOV, scaleToFOV, histogramIndexYawInsideFOV", "avoidance/src/common.cpp")],
 ["return values"])

prop("C07", "Clouds lose exactly their invalid points and the view estimate only grows",
 "Removing invalid points from a cloud keeps every finite point, in order, and no other, and reports the extreme points of the finite set in each axis. The field-of-view estimate derived from successive clouds never shrinks, and the opening angles always span the extreme points seen when a cloud widens it (for a camera seeing less than 180 degrees horizontally).",
 ["inputs", "histories"],
 "every cloud up to the bound over a small point alphabet containing non-finite values, and every sequence of such clouds up to the bound",
 "Samples in test_common (not built) cover one cloud; invalid points can be anywhere.",
 ["avoidance/src/common.cpp"],
 [("removeNaNAndGetMaxima", "avoidance/src/common.cpp"), ("updateFOVFromMaxima", "avoidance/src/common.cpp")],
 ["cloud contents, returned extreme points, FOV"])

prop("C08", "Polar histogram stores, wraps and rescales cell values exactly",
 "A value written to a histogram cell is read back at that cell and at its azimuth- and elevation-wrapped aliases and nowhere else; emptiness and clearing reflect exactly the stored distances. Up-sampling copies each cell to its four sub-cells, down-sampling averages each 2x2 block, and rescaling a histogram of the wrong resolution is refused.",
 ["inputs", "histories"],
 "every cell of both resolutions and every operation sequence up to the bound over representative cells",
 "Only one or two cells are checked by test_common/test_planner_functions, which are not built here.",
 ["avoidance/src/histogram.cpp", "avoidance/include/avoidance/histogram.h"],
 [("Histogram::get_dist wrapping, upsample, downsample, isEmpty, setZero", "avoidance/src/histogram.cpp")],
 ["get_dist, isEmpty, exceptions"])

prop("C09", "Avoidance trajectory messages carry exactly the commanded setpoint",
 "A trajectory message built from a pose and velocity setpoint has exactly its first point valid, holding that position, velocity and heading and the yaw rate with the autopilot's sign, and every unused point entirely unset; a Bezier message has all control points valid and converted between frames consistently. Neither message ever leaves stale numbers in an unused field.",
 ["inputs"],
 "all combinations of position, velocity, heading and yaw-rate values on a lattice including unset values, on fresh and on reused messages",
 "Tests check a single pose; every field and reused messages matter.",
 ["avoidance/src/common.cpp"],
 [("transformToTrajectory, transformToBezier, fillUnusedTrajectoryPoint, fillControlPoint", "avoidance/src/common.cpp")],
 ["mavros_msgs/Trajectory contents"])

prop("C10", "Obstacle points in range are kept, noise dropped, and unseen ones remembered",
 "After each sensor update the working cloud contains every sufficiently supported obstacle direction seen within the sensor range limits, at one of its measured points with age zero, and takes no new point that is out of range, closer than the minimum range, or from an under-supported direction. Points of the previous working cloud that lie outside the current field of view are carried over with their age advanced by the elapsed time until they exceed the maximum age or are replaced by newer data, at most one per direction, and points inside the field of view are not.",
 ["inputs", "histories"],
 "every sequence of up to three clouds over a point alphabet spanning the range limits, sub-cell boundaries and the field-of-view edge",
 "The unbuilt planner tests use one dense wall; memory and ageing depend on histories of clouds.",
 ["local_planner/src/nodes/planner_functions.cpp"],
 [("processPointcloud", "local_planner/src/nodes/planner_functions.cpp"), ("removeNaNAndGetMaxima", "avoidance/src/common.cpp")],
 ["resulting cloud positions and ages"])

prop("C11", "Polar obstacle map and obstacle-distance message reflect the cloud",
 "The polar obstacle map holds, for every direction cell, the mean distance of the working-cloud points falling in it and zero where there are none; its elevation-compressed form keeps, per azimuth, the nearest obstacle near the flight level (within the rows around the horizon and about a metre of height). The obstacle-distance message sent to the autopilot gives, for each sector in clockwise order starting at local north, that distance where an obstacle is visible, a value beyond the maximum where it is free, and no value outside the field of view.",
 ["inputs"],
 "every cloud of up to the bounded number of points over a direction-by-distance lattice, every vehicle position and heading on a lattice",
 "Tests sample one or two clouds; sector indexing and rotation must hold for every direction.",
 ["local_planner/src/nodes/planner_functions.cpp", "local_planner/src/nodes/local_planner.cpp"],
 [("generateNewHistogram, compressHistogramElevation", "local_planner/src/nodes/planner_functions.cpp"), ("LocalPlanner::updateObstacleDistanceMsg", "local_planner/src/nodes/local_planner.cpp")],
 ["histogram cells", "LaserScan fields"])

prop("C12", "Direction choice returns the cheapest feasible headings in order",
 "The cost of a direction grows with its deviation from the goal direction, from the present motion and from the line between the previous and the current goal, and with the proximity of obstacles, and every entry of the cost map is finite and consistent with the cost of its direction. The candidate list contains the requested number of cheapest directions of the cost map (all of them if it has fewer) in ascending cost order, and an obstacle in a direction never makes that direction cheaper.",
 ["inputs", "configurations"],
 "all cost maps over a small value alphabet on bounded grids, and all single- and two-obstacle maps with goal directions on a lattice",
 "Tests check one goal direction and one matrix; ordering and monotonicity quantify over all maps.",
 ["local_planner/src/nodes/planner_functions.cpp"],
 [("getCostMatrix, costFunction, smoothPolarMatrix, padPolarMatrix, getBestCandidatesFromCostMatrix", "local_planner/src/nodes/planner_functions.cpp")],
 ["cost matrix, candidate vector"])

prop("C13", "Look-ahead tree is well formed and its path runs back to the vehicle",
 "For every obstacle scene the look-ahead search terminates and yields a tree whose nodes each have a valid earlier parent, depth one more than the parent, lie one step away from it, keep a minimum mutual spacing and stay within the configured number of expansions; each expansion takes the cheapest open node within the planning radius. The published path runs from the deepest node that was not expanded back to the vehicle's position through parent links without repetition, and with no obstacle it makes progress towards the goal.",
 ["inputs", "configurations"],
 "all scenes of up to the bounded number of obstacle blocks, goals and velocities on a lattice, and every search-parameter setting on a lattice",
 "test_star_planner (not built) checks two scenes.",
 ["local_planner/src/nodes/star_planner.cpp", "local_planner/src/nodes/tree_node.cpp"],
 [("StarPlanner::buildLookAheadTree, treeHeuristicFunction", "local_planner/src/nodes/star_planner.cpp")],
 ["tree_, closed_set_, path_node_positions_"])

prop("C14", "Path following returns a point on the planned path at the elapsed time",
 "When a path and its age are given, the setpoint lies on the segment between two consecutive path nodes, at the fraction given by the elapsed time and the speed counted from the first planned node after the vehicle's own, and moves monotonically along the path (a path of one segment yields its end); once the path is used up, or when there is none, the follower reports that no path is available.",
 ["inputs"],
 "all paths of up to the bounded number of nodes on a lattice, every elapsed time at and around the node boundaries, and speeds on a lattice",
 "Tests check a couple of hand-written paths; boundary times and short paths matter.",
 ["local_planner/src/nodes/planner_functions.cpp"],
 [("getSetpointFromPath", "local_planner/src/nodes/planner_functions.cpp")],
 ["return value and setpoint"])

prop("C15", "Cruise speed never exceeds what can be braked within sensor range",
 "The cruise speed handed to trajectory generation never exceeds the mission or configured cruise speed, nor the speed from which the vehicle can stop within the visible obstacle-free distance under its jerk and acceleration limits. It is finite and non-negative for every combination of known, positive vehicle limits.",
 ["inputs", "configurations"],
 "all combinations of jerk, acceleration, cruise speed, mission speed and sensor range on a lattice including unset values",
 "No test computes the speed limit against the braking distance.",
 ["local_planner/src/nodes/local_planner.cpp", "avoidance/include/avoidance/common.h"],
 [("LocalPlanner::getAvoidanceOutput", "local_planner/src/nodes/local_planner.cpp")],
 ["avoidanceOutput.cruise_velocity"])

prop("C16", "Simulated vehicle motion respects every dynamic limit",
 "Every state of a simulated trajectory is finite, time advances by the simulation step up to the requested duration, velocity and position follow from the accelerations by the motion equations, and the change of acceleration, the acceleration and the velocity stay within the configured limits from any admissible start state and any goal direction (the velocity up to the overshoot its start acceleration makes unavoidable). With a goal direction the simulated vehicle ends up moving along it, and with none it comes to rest.",
 ["inputs", "configurations"],
 "all start velocities and accelerations, goal directions, limits, durations and step sizes on a lattice",
 "test_trajectory_simulator checks a few directions from rest and one from motion.",
 ["local_planner/src/utils/trajectory_simulator.cpp", "local_planner/include/local_planner/trajectory_simulator.h"],
 [("TrajectorySimulator::generate_trajectory, jerk_for_velocity_setpoint, simulate_step_constant_jerk, norm_clamp", "local_planner/src/utils/trajectory_simulator.cpp")],
 ["returned simulation_state sequence"])

prop("C17", "Local waypoint mode selection is safe in every situation",
 "The waypoint generator switches, at the end of each step, to holding when a hold is requested, to vertical flight during take-off, landing, offboard climbs until the goal altitude is first reached, and return climbs, to following the planned path while it is fresh, and to flying straight to the goal only when no path is available and none of these applies. Holding starts at once or after the one step that a switch through another mode takes, always keeps and sends the position at which it was entered, and ends with the first step without a hold request. Vertical flight keeps the horizontal position (after braking) and aims for the goal altitude, and every mode is left as soon as its condition no longer holds.",
 ["histories", "inputs"],
 "every reachable state of the mode machine under every sequence of environment valuations (loiter flag, path availability, navigation mode, altitude relation, offboard state) to the fixed point",
 "test_waypoint_generator (not built) walks a few transitions.",
 ["local_planner/src/nodes/waypoint_generator.cpp", "local_planner/include/local_planner/waypoint_generator.h"],
 [("WaypointGenerator::runCurrentState, chooseNextState, runTryPath/runLoiter/runDirect/runAltitudeChange", "local_planner/src/nodes/waypoint_generator.cpp")],
 ["result.waypoint_type, goto position, adapted goto position"])

prop("C18", "Local setpoints stay finite, near the vehicle and never beyond the goal",
 "Every position, heading and turn-rate setpoint produced is finite, also on the first step and after a pause. Except while landing, the speed-adapted setpoint lies towards the selected target, no more metres ahead than the low-pass filtered speed (cruise speed scaled by the visibility of the direction) and never beyond the goal, and in altitude changes it keeps the horizontal position; the published one follows it by the configured critically damped smoothing or equals it when smoothing is off. The heading turns along the travel direction, the shorter way round and no faster than the smoothing allows, keeps its initial value in altitude changes, and within a metre of the goal stays at the heading at arrival.",
 ["histories", "inputs"],
 "all position/goal/velocity/time-step combinations on a lattice and all sequences of such steps up to the bound",
 "Tests follow one straight line and one smoothing case.",
 ["local_planner/src/nodes/waypoint_generator.cpp"],
 [("adaptSpeed, smoothWaypoint, nextSmoothYaw, getPathMsg, reachGoalAltitudeFirst", "local_planner/src/nodes/waypoint_generator.cpp")],
 ["waypointResult fields"])

prop("C19", "Local planner inputs select the goal and flight mode they announce",
 "The goal and previous goal always equal those of the last accepted source: a clicked goal (which keeps the planner's goal altitude), a goal list when enabled, or the autopilot's trajectory input. The latter replaces the goal by its first point, with that point's velocity and take-off or landing kind, only on the first one, when the mission item in its second point has moved by more than a centimetre or when the present goal is not finite; a second point without a command is itself the goal. Planner and setpoint generator always get the same goal, the armed flag and navigation mode mirror the last autopilot state, and every announced mode maps to its own navigation state and any other to none.",
 ["histories"],
 "all sequences of goal, clicked, trajectory-input and state messages up to the bound",
 "The nodelet tests are not built here and send one goal.",
 ["local_planner/src/nodes/local_planner_nodelet.cpp"],
 [("fcuInputGoalCallback, updateGoalCallback, clickedGoalCallback, clickedPointCallback, stateCallback", "local_planner/src/nodes/local_planner_nodelet.cpp")],
 ["goal handed to the planner and waypoint generator"])

prop("C20", "Local planner threads never deadlock and always shut down",
 "Under every interleaving of the sensor callbacks, transform, cloud and planning threads and the command loop, no set of threads waits forever on one another, every cloud hand-off is consumed at most once with its own transform, and stopping the node ends all threads.",
 ["schedules"],
 "every interleaving of the threads at synchronisation points up to the preemption bound, for scenarios of callbacks, configuration and shutdown at any point",
 "Tests run whatever schedule the OS happens to pick.",
 ["local_planner/src/nodes/local_planner_nodelet.cpp", "local_planner/include/local_planner/local_planner_nodelet.h"],
 [("threadFunction, transformBufferThread, pointCloudTransformThread, pointCloudCallback, ~LocalPlannerNodelet", "local_planner/src/nodes/local_planner_nodelet.cpp")],
 ["termination of every thread, consumed cloud counts"])

prop("C21", "Landing grid statistics equal those of the points in each cell",
 "After each sensor update every landing-grid cell holds the exact count, mean height and height variance of that update's points above it, where mean and variance are blended with those of the previous grid by the configured factor, and cells without points have a count of zero. Points outside the grid's square around the vehicle are ignored, and no cloud, recorded grid, position or reconfiguration makes the planner touch a cell outside the grid or mix grids of different layout. The published map equals the grid of the update before it.",
 ["inputs", "histories", "configurations"],
 "every sequence of clouds up to the bound over a point alphabet containing cell borders, grid borders and non-finite values, on every small grid configuration, with reconfiguration between updates",
 "test_safe_landing_planner (not built) checks a flat plane and a few points.",
 ["safe_landing_planner/src/nodes/safe_landing_planner.cpp", "safe_landing_planner/include/safe_landing_planner/grid.hpp"],
 [("processPointcloud, computeOnlineMeanVariance, isInsideGrid, computeGridIndexes, combine, dynamicReconfigureSetParams", "safe_landing_planner/src/nodes/safe_landing_planner.cpp")],
 ["getGrid() contents"])

prop("C22", "A grid cell is declared landable only on sufficient evidence",
 "A cell of the landing map is a good cell exactly when it has at least the configured number of points and at most the configured height deviation. Without a neighbourhood it is landable exactly when it is good; with one, exactly when more than the configured number of cells around it are good and at most the configured number of them differ in mean height by more than the limit, where cells outside the grid are not good and lie at height zero.",
 ["inputs", "configurations"],
 "all grids over a small alphabet of cell statistics at and around each threshold on every bounded grid and neighbourhood size",
 "Tests check a plane and a step; thresholds and borders interact.",
 ["safe_landing_planner/src/nodes/safe_landing_planner.cpp"],
 [("isLandingPossible, processRawGrid", "safe_landing_planner/src/nodes/safe_landing_planner.cpp")],
 ["getGrid() land flags"])

prop("C23", "The landing planner commits to land only after a confirmed evaluation",
 "The vehicle is sent down for landing only after the landing controller has reached the loiter altitude over the site, loitered until enough consistent landing-map evaluations accumulated, and the whole landing area passed; every other outcome leads to exploring the next site. Landing, once begun, ends only on leaving the landing task, which resets every decision, so a decision is never reused for another site or flight.",
 ["histories"],
 "every reachable state of the landing controller under all sequences of grid results, positions and landing-task changes to the bound",
 "The (unbuilt) tests walk the nominal path and one failure.",
 ["safe_landing_planner/src/nodes/waypoint_generator.cpp", "safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp"],
 [("runGoTo/runAltitudeChange/runLoiter/runEvaluateGrid/runGoToLand/runLand, chooseNextState, updateSLPState", "safe_landing_planner/src/nodes/waypoint_generator.cpp")],
 ["getState(), published setpoints"])

prop("C24", "Landing exploration visits a new nearby site each time",
 "When a site is rejected the next site lies on the outward square spiral around the first site, at the configured spacing, never revisiting a site, and the goal keeps the exploration altitude. The landing-area height used as the descent reference is always one of the percentiles of the heights inside the landing area, and no configured area size makes it read outside the map.",
 ["histories", "configurations"],
 "every number of rejections up to the bound and every landing-area and smoothing size on every bounded grid",
 "Tests check the first few exploration offsets with one configuration.",
 ["safe_landing_planner/src/nodes/waypoint_generator.cpp"],
 [("runEvaluateGrid exploration pattern, landingAreaHeightPercentile, evaluatePatch", "safe_landing_planner/src/nodes/waypoint_generator.cpp")],
 ["goal position, land altitude"])

prop("C25", "Landing setpoints are marked valid only when they carry a command",
 "A published landing setpoint is marked valid only if its vertical and horizontal components each hold a finite position or velocity, unset components stay unset through every processing step, and the message's other points are unset and invalid. Position, velocity, heading and heading rate of the published setpoint equal those the landing controller commanded.",
 ["inputs", "histories"],
 "all combinations of set and unset components on a lattice of values, through the publisher and through runs of the controller",
 "No test covers the landing setpoint publication.",
 ["safe_landing_planner/src/nodes/waypoint_generator_node.cpp"],
 [("WaypointGeneratorNode::publishTrajectorySetpoints and callbacks", "safe_landing_planner/src/nodes/waypoint_generator_node.cpp")],
 ["/mavros/trajectory/generated messages"])

prop("C26", "Landing planner threads start, run and stop safely in every order",
 "Under every interleaving of cloud and pose callbacks, the transform thread, the command loop and shutdown, the landing planner never uses a synchronisation object before it exists, never blocks forever, hands each cloud to the map at most once and terminates its threads on destruction. A cloud whose transform is late is taken once the transform is there or replaced by the next one. The same holds for the start and end of the landing setpoint node and of the programs around both.",
 ["schedules"],
 "every interleaving at synchronisation points up to the preemption bound for scenarios of start, callbacks and stop",
 "The OS rarely runs the worker before its creator proceeds.",
 ["safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"],
 [("startNode, pointCloudTransformThread, cmdLoopCallback, destructor", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp")],
 ["thread termination, processed clouds"])

prop("C27", "The landing grid container returns what was stored and resets cleanly",
 "Each statistic stored in a grid cell is read back unchanged from that cell and no other cell or statistic changes; combining two grids blends mean and variance of every cell by the given factor and changes nothing else; resetting or resizing leaves every statistic at its initial value at the requested dimensions.",
 ["histories", "configurations"],
 "all operation sequences up to the bound on all grid sizes and cell sizes of the bounded range",
 "test_grid checks one size and one value.",
 ["safe_landing_planner/include/safe_landing_planner/grid.hpp"],
 [("Grid accessors, resize, reset, combine", "safe_landing_planner/include/safe_landing_planner/grid.hpp")],
 ["accessors"])

prop("C28", "Global planner cells, positions and turning costs are geometrically sound",
 "A point maps to the grid cell containing it and a cell to a point inside it, neighbours are exactly the adjacent cells, cells that influence each other's risk are near each other, and cell equality, ordering and hashing agree. The turning measure between two motions is never negative; between horizontal motions it is zero exactly for continuing straight, unchanged by rotation and mirror image, and largest for reversing, and a change between horizontal and vertical motion adds half a turn.",
 ["inputs"],
 "all cells and points in a bounded neighbourhood including negative coordinates, and all pairs of unit motions",
 "No test of the cell arithmetic is built here.",
 ["global_planner/src/library/cell.cpp", "global_planner/src/library/node.cpp", "global_planner/include/global_planner/cell.h", "global_planner/include/global_planner/node.h"],
 [("Cell constructors, getNeighbors, getFlowNeighbors; Node::getRotation/getXYRotation", "global_planner/src/library/cell.cpp")],
 ["return values"])

prop("C29", "Global paths are connected, legal, within radius and cost-consistent",
 "On every map the search terminates and leaves the settings as configured. When it reports success the path starts with the cell the vehicle comes from and the cell it reaches within the search time, ends within the goal's radius, consecutive cells are neighbours (for speed nodes: neighbours of the extrapolated motion), no cell is above the maximum or below the minimum altitude unless the vehicle starts there, and no step is riskier than permitted. A path is reported exactly when one exists, given enough iterations; without cost overestimation it is a cheapest one; the reported length, risk and cost of a path are those of its cells.",
 ["inputs", "configurations"],
 "all small obstacle maps, start/goal pairs and planner settings in the bounded set",
 "The global planner has no behavioural test at all.",
 ["global_planner/src/library/global_planner.cpp", "global_planner/include/global_planner/search_tools.h"],
 [("GlobalPlanner::getGlobalPath/findPath/isLegal, findSmoothPath, reverse-search", "global_planner/include/global_planner/search_tools.h")],
 ["path returned by the planner"])

prop("C30", "Global map risk reflects the occupancy map for every cell",
 "After every occupancy-map update a cell's occupancy and risk are derived from the new map alone, a free cell never ranks riskier than an unknown one nor an unknown one riskier than an occupied one, and risk never falls when a cell or a neighbour becomes more occupied, and no query for any cell in or beyond the planning volume, also before the first map, reads outside the tables. An occupancy message that cannot be decoded leaves the map unchanged. Every finite obstacle point of a camera is remembered as the world cell it lies in, and only such cells are.",
 ["inputs", "histories"],
 "all small maps over an occupancy alphabet, all cells in and around the volume, all update sequences to the bound",
 "No test exercises map updates.",
 ["global_planner/src/library/global_planner.cpp"],
 [("updateFullOctomap, getSingleCellRisk, getAltPrior, getRisk, riskHeuristic", "global_planner/src/library/global_planner.cpp")],
 ["getRisk, isOccupied"])

prop("C31", "Path smoothing and simplification keep endpoints and safety",
 "Simplifying a path keeps its first two and its last point, only ever drops points, never raises the path's risk beyond the configured margin per pass, and ends within the configured number of passes. Smoothing keeps the first and last point and stays within the triangles spanned by the path's corners.",
 ["inputs", "configurations"],
 "all grid paths up to the bounded length and all settings on a lattice",
 "No test covers simplification or smoothing.",
 ["global_planner/src/library/global_planner.cpp", "global_planner/include/global_planner/common_ros.h", "global_planner/include/global_planner/bezier.h"],
 [("simplifyPath, filterPathCorners, smoothPath/bezier", "global_planner/include/global_planner/search_tools.h")],
 ["resulting path"])

prop("C32", "Global node visits queued goals in order and follows its path monotonically",
 "Goals are visited in the order they were queued, beginning with the place where the node starts; a goal is dropped only after the vehicle came within its acceptance radius, when it turns out to be blocked by an obstacle, or when the user gives another one. Goals of the flight controller are taken exactly when they are valid and differ in position or altitude. The published setpoint lies on the segment from the vehicle to the current waypoint, at most one speed step away and never beyond it, and waypoints are followed one at a time in path order; a plan that fails neither discards nor restarts the current path. When told to stop the vehicle holds its current cell. What is published as path is the path being followed. Before the position is known there are no plans and setpoints.",
 ["histories"],
 "all sequences of goal, position, velocity, clicked point, map, planner and command loop events up to the bound in a small room",
 "No test exercises the node.",
 ["global_planner/src/nodes/global_planner_node.cpp", "global_planner/src/library/global_planner.cpp"],
 [("positionCallback, popNextGoal, setCurrentPath, publishSetpoint, isCloseToGoal", "global_planner/src/nodes/global_planner_node.cpp")],
 ["published setpoints and paths, goal queue"])

prop("C33", "Generated state diagrams show exactly the implemented transitions",
 "The state diagram generated from a state machine's source contains every state its table lists, and for these exactly the transitions the transition function implements, including the error transitions, for each machine in the repository and for any machine written with the same table form, however it is laid out and commented.",
 ["programs"],
 "every transition table over a bounded state set written in the table form, plus the repository's machines, each compared with the transition relation extracted by driving the compiled machine through every (state, result) pair",
 "The diagram tests compare the tool's text with a stored text; neither is compared with the behaviour.",
 ["tools/generate_flow_diagram.py", "avoidance/include/avoidance/usm.h"],
 [("generate_flow_diagram.py", "tools/generate_flow_diagram.py")],
 ["dot edges vs chooseNextState"])

prop("C34", "Global planner settings take effect",
 "Every setting of the global planner and its node, given at startup or at runtime, governs the behaviour it names, alone or combined with others, and no other: what is computed after the change is what a planner configured so from the beginning computes, and settings that are not changed keep their values. Changing the cell size keeps the goal and path at their position.",
 ["configurations", "histories"],
 "every single setting and every pair of settings from a set of values, set before or after maps, goals and risk queries",
 "No test configures the global planner.",
 ["global_planner/src/nodes/global_planner_node.cpp", "global_planner/include/global_planner/global_planner.h"],
 [("dynamicReconfigureCallback, readParams", "global_planner/src/nodes/global_planner_node.cpp")],
 ["risk, paths, setpoints after configuration"])

prop("C35", "Flight controller parameters stay current without holding anything up",
 "Under every interleaving of parameter messages, parameter requests of any duration, mission lists, status changes, readers and destruction: once its messages are handled and a round of requests is over, the node knows the value the flight controller has, a response never replaces a newer announced value, unknown parameters are asked for again within 5 s and all of them within 30 s; reading parameters and handling messages never waits for a request; heartbeats with the current status go out every 0.2 s, also during long requests; destruction waits for at most the request in progress and leaves no thread and no callback behind. No data is accessed by two threads without synchronisation.",
 ["schedules"],
 "every interleaving at synchronisation points up to the preemption bound, for scenarios of start and stop, changing values, slow answers, stop within a request and an unreachable flight controller",
 "No test runs the node's threads.",
 ["avoidance/src/avoidance_node.cpp", "avoidance/include/avoidance/avoidance_node.h"],
 [("checkPx4Parameters, px4ParamsCallback, getPX4Parameters, statusLoopCallback, init, destructor", "avoidance/src/avoidance_node.cpp")],
 ["getPX4Parameters against the values of the flight controller, virtual time spent waiting, published status, termination of every thread"])

prop("C36", "Global planner threads share their data safely and setpoints never wait for the planner",
 "Under every interleaving of maps, positions, goals, settings and camera clouds with the planner loop, the command loop and destruction: no data is accessed by two threads without synchronisation, the planner uses the newest map, position and goal that were received, the command loop publishes a setpoint every 0.1 s however long planning takes, and stopping the node or the program ends all threads without one blocking forever.",
 ["schedules"],
 "every interleaving at synchronisation points up to the preemption bound, for scenarios of start and stop, maps and positions, goals and settings, a late camera transform, long planning, and shutdown of the program",
 "No test runs the node's threads.",
 ["global_planner/src/nodes/global_planner_node.cpp", "global_planner/src/nodes/global_planner_node_main.cpp"],
 [("GlobalPlannerNode, ~GlobalPlannerNode, plannerLoopCallback, cmdLoopCallback, positionCallback, octomapFullCallback, dynamicReconfigureCallback", "global_planner/src/nodes/global_planner_node.cpp")],
 ["times of published setpoints, map, position and goal in use, termination of every thread"])

prop("C37", "A vehicle following the local planner's setpoints keeps its distance to obstacles and arrives",
 "A vehicle which follows the setpoints the local planner node publishes, and whose cameras see the obstacles, never comes closer than 1 m to an obstacle or to the ground, whatever its heading, speed limits, response and position in the world, when clouds are lost or plans come late, and also before the parameters of the flight controller are known. When the cameras fall silent it stops within 6 m and continues when they return. It arrives at its goal, also at goals that change on the way, where an obstacle beside the way can be passed, and makes no detour of more than 5 m where there is none. Every setpoint is finite.",
 ["executions"],
 "every world of a family of obstacles combined with every start, goal, vehicle, camera and fault schedule in bounds, each flown from start to end with the real node in the loop",
 "Simulation tests need Gazebo and PX4 and fly three worlds; the unit tests look at single planner calls.",
 ["local_planner/src/nodes/local_planner_nodelet.cpp", "local_planner/src/nodes/local_planner.cpp", "local_planner/src/nodes/waypoint_generator.cpp", "local_planner/src/nodes/planner_functions.cpp", "local_planner/src/nodes/star_planner.cpp"],
 [("updatePlannerInfo, cmdLoopCallback, checkFailsafe", "local_planner/src/nodes/local_planner_nodelet.cpp"), ("runPlanner, determineStrategy", "local_planner/src/nodes/local_planner.cpp"), ("setPlannerInfo, calculateWaypoint, getPathMsg", "local_planner/src/nodes/waypoint_generator.cpp")],
 ["mavros/trajectory/generated, distance of the vehicle to the obstacles"])

prop("C38", "The landing system lands on even ground, and only there",
 "A vehicle which follows the setpoints of the two landing nodes descends to land only where the ground around it (the landing area less the acceptance radius) is even, lands when the ground at the landing item is even, and otherwise lands on an even place that lies at a site of the exploration spiral or within reach of its maps; it never lands in ground without such a place. Until it lands it does not descend below its loiter height above the ground by more than 1.2 m. This holds for every approach, after lost maps, with obstacles which arrive during the approach, and when the pilot, a hold or another item interrupts the landing at any phase: then nothing lands and the vehicle keeps its position in hold, and the landing starts again when the mission goes on.",
 ["executions"],
 "every ground of a family combined with every approach, setting, loss of maps, takeover, hold and change of the item in bounds, each flown to the touchdown with both real nodes in the loop",
 "The tests drive the controller with scripted flags and the planner with one flat cloud; no test lands a vehicle.",
 ["safe_landing_planner/src/nodes/safe_landing_planner.cpp", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp", "safe_landing_planner/src/nodes/waypoint_generator.cpp", "safe_landing_planner/src/nodes/waypoint_generator_node.cpp", "safe_landing_planner/include/safe_landing_planner/grid.hpp"],
 [("runSafeLandingPlanner, publishSerialGrid", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"), ("runGoTo .. runLand", "safe_landing_planner/src/nodes/waypoint_generator.cpp"), ("stateCallback, trajectoryCallback, gridCallback", "safe_landing_planner/src/nodes/waypoint_generator_node.cpp")],
 ["mavros/trajectory/generated, position and touchdown of the vehicle, ground around it"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
