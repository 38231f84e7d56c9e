#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the single place where statements are edited)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
E = "highway_env/envs/"
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Runs are reproducible from the seed",
     "Everything random or order-dependent in an episode (traffic generation, behaviours, routes, observation order) is drawn from the environment's own generator: two environments with the same configuration, seeded with the same value and given the same actions produce identical scenes, observations, rewards and terminations. No part of scene creation, simulation, observation or reward reads any other source of randomness, the clock, object identities, hash-dependent iteration order, or a generator that seeding does not reach.",
     ["inputs", "histories", "configurations"], "for every seed, configuration and action sequence, in every process",
     "tests run one episode in one process; they never compare two runs, and hash order only differs between processes",
     [E + "common/abstract.py", "highway_env/road/road.py", "highway_env/vehicle/*.py", E + "*_env.py"],
     [("seed() builds the generator", "abstract.py AbstractEnv.seed"), ("roads receive the generator", "*_env.py Road(np_random=...)"), ("ordered graph traversal", "road.py bfs_paths")])
prop("C02", "Environments do not influence each other",
     "Creating, configuring, resetting or stepping one environment never changes the behaviour, parameters, action tables or default configuration seen by any other environment, vehicle, lane or future instance in the same process. State that is shared between instances (class attributes, module globals, default argument values, default configurations) is never modified after import.",
     ["histories", "configurations"], "for every interleaving of operations on any number of environments in one process",
     "each test creates its own environment and checks it alone; leakage shows only in a second environment created later",
     ["highway_env/**/*.py"], [("class-level constants", "all classes"), ("default_config returns fresh dicts", E + "*_env.py")])
prop("C03", "Planning copies are independent of the original",
     "The environment copies handed to planners (deep copies, simplified copies, copies with changed vehicles, lanes, routes, fields or behaviours) share no mutable simulation state with the original: producing or simulating the copy leaves the original unchanged. A deep copy carries every attribute over except the viewer and the rendering callback, which are absent from the copy, and a preprocessor applied to 'the other vehicles' leaves the copy's ego-vehicle as it was.",
     ["inputs", "histories"], "for every reachable state, preprocessor and argument",
     "the one preprocessor test only checks that each method returns something truthy",
     [E + "common/abstract.py"], [("deepcopy", "abstract.py AbstractEnv.__deepcopy__"), ("preprocessors", "abstract.py simplify, change_vehicles, set_preferred_lane, set_route_at_intersection, set_vehicle_field, call_vehicle_method, randomize_behaviour")])
prop("C04", "Looking at the simulation does not change it",
     "Computing rewards, costs, termination or available actions, querying lanes, the road graph or neighbours, predicting a vehicle's future trajectory and computing exports or time-to-collision grids never modify the road, its vehicles, their actions, routes or targets, or the environment's clock, and draw nothing from its random generator; any number of such calls leaves the simulated future unchanged. The same holds for observing, except for the documented draws of the shuffled row order and of the lane-keeping state noise and for drawing frames for image observations.",
     ["inputs", "histories"], "for every reachable state and every query, any number of times",
     "no test compares the scene before and after a query, and a query with a side effect still returns the right answer",
     [E + "common/observation.py", E + "common/finite_mdp.py", "highway_env/road/road.py", "highway_env/road/lane.py", "highway_env/vehicle/*.py", E + "*_env.py"],
     [("predictions run on deep copies", "controller.py predict_trajectory"), ("queries build fresh results", "road.py, lane.py, observation.py")])
prop("C05", "Entities own their state",
     "No two vehicles, lanes or environments share mutable state through construction, conversion or copying (the collected estimation data handed over with a vehicle excepted): each vehicle owns its position, action and route, and each environment owns its configuration. Arrays, dictionaries and lists passed in by a caller (actions, positions, configurations, ranges) are never modified.",
     ["inputs", "histories"], "for every constructor, factory, conversion and action call",
     "tests build one object from fresh literals and never look at the argument or the sibling again",
     ["highway_env/vehicle/*.py", "highway_env/road/*.py", E + "common/*.py"], [("array copies", "kinematics.py Vehicle.__init__"), ("create_from", "behavior.py, controller.py")])

prop("C06", "The environment step contract",
     "Each step (of every environment but the lane-keeping one) counts exactly one policy step, applies the action and simulates before it observes, and then returns the observation, reward, termination flag and an info dictionary carrying the ego speed and crash flag after the simulation, the action as it was passed, and the cost when the environment defines one. Between two steps at most simulation_frequency // policy_frequency ticks of 1/simulation_frequency seconds are simulated, fewer only when the episode is done or terminal.",
     ["inputs", "histories", "configurations"], "for every action, state and frequency configuration",
     "tests only check that step returns something of the right shape with the default frequencies",
     [E + "common/abstract.py", E + "intersection_env.py"], [("step", "abstract.py AbstractEnv.step"), ("inner loop", "abstract.py AbstractEnv._simulate")])
prop("C07", "Simulation ticks are synchronous",
     "In every tick each vehicle on the road decides exactly once before any vehicle moves, then each moves exactly once over the same duration, and only then are collisions checked, between every vehicle and every other vehicle and every object on the road.",
     ["histories", "inputs"], "for every set of vehicles and objects and every tick",
     "the collision tests drive a vehicle by hand; order effects need several interacting vehicles in a particular order",
     ["highway_env/road/road.py"], [("act/step", "road.py Road.act, Road.step")])
prop("C08", "Reset starts a fresh episode",
     "Resetting an environment zeroes its clock and step counter, clears the done flag, replaces the road and the controlled vehicles by newly built ones, re-derives the spaces from the current configuration both before and after the scene is built, and returns an observation of the new scene. Nothing else of a previous episode (vehicles, goals, trajectories, intervals) survives into the new one.",
     ["histories", "configurations"], "for every environment, configuration and previous episode",
     "tests reset once, right after construction",
     [E + "common/abstract.py", E + "*_env.py"], [("reset", "abstract.py AbstractEnv.reset"), ("_reset", "*_env.py")])
prop("C09", "Controlled vehicles stay on the road",
     "After a reset and throughout an episode every controlled vehicle is among the road's vehicles, and no clean-up of traffic removes a controlled vehicle or skips vehicles because a list is modified while it is being iterated.",
     ["histories", "configurations"], "for every environment, number of agents and episode", "tests use one agent and short episodes",
     [E + "*_env.py"], [("roster", "*_env.py _create_vehicles, _make_vehicles, _clear_vehicles")])
prop("C10", "Rendering shows the current state and survives closing",
     "Rendering an environment after it was stepped or reset draws the current scene rather than returning a previously drawn frame, and every intermediate simulation tick is drawn exactly when automatic rendering is enabled. Closing the environment (by call or by the window's close button) marks it done, releases the viewer and leaves no later access to it.",
     ["histories"], "for every interleaving of step, reset, render and close", "one test renders a single frame",
     [E + "common/abstract.py", E + "common/graphics.py"], [("should_update_rendering", "abstract.py AbstractEnv.render")])
prop("C11", "The discrete action vocabulary is consistent",
     "Action indices and labels are mutually inverse tables over 0..n-1 matching the announced discrete space, every label is one the controlled vehicle understands, and available actions and keyboard control only use labels of the configured table. IDLE is always available; a lane change exactly when lateral control is enabled and a reachable side lane exists on that side, FASTER (SLOWER) exactly when longitudinal control is enabled and the speed index is below the maximum (above zero).",
     ["inputs", "configurations"], "for every action configuration, lane layout and speed index", "tests only use the default five-action table",
     [E + "common/action.py", E + "common/abstract.py", E + "common/graphics.py"], [("tables", "action.py DiscreteMetaAction"), ("availability", "abstract.py get_available_actions")])
prop("C12", "Cruise set-points move one notch and stay in range",
     "For a discretely controlled vehicle FASTER and SLOWER move the target speed to the notch adjacent to the one nearest the current speed, clipped to the table of SPEED_COUNT equally spaced speeds between SPEED_MIN and SPEED_MAX; every other action leaves the speed notch unchanged. The target speed always equals the speed of the stored notch, and speed-to-index conversion rounds to the nearest notch clipped to the table.",
     ["inputs", "histories"], "for every speed, notch and action sequence", "the one test does two FASTER/SLOWER actions from a nominal speed",
     ["highway_env/vehicle/controller.py"], [("MDPVehicle", "controller.py MDPVehicle.act, index_to_speed, speed_to_index")])
prop("C13", "Lane changes target adjacent reachable lanes",
     "A LANE_LEFT (LANE_RIGHT) action retargets the vehicle to the lane of the same road whose index is one less (more) than its current target lane, clipped to the lanes that exist, and only if that lane is reachable from the vehicle's position; otherwise the target lane is unchanged. Lane changes across forbidden lanes are never considered reachable, and following the road replaces the target by the next lane of the route only once the end of the current target lane is reached.",
     ["inputs", "histories"], "for every road graph, lane, position and route", "tests change lane on a straight road with free sides only",
     ["highway_env/vehicle/controller.py", "highway_env/road/lane.py", "highway_env/road/road.py"], [("act", "controller.py ControlledVehicle.act"), ("is_reachable_from", "lane.py")])
prop("C14", "Continuous actions map onto the configured ranges",
     "A continuous action is clipped to [-1, 1] when clipping is on, then each enabled component is mapped affinely so that -1 and 1 give the ends of the configured acceleration and steering ranges: throttle first, then steering when both are enabled, and a disabled component commands exactly zero. The announced box has one dimension per enabled component, at least one component must be enabled, and the controlled vehicle is the one the action type was bound to, by default the first one.",
     ["inputs", "configurations"], "for every action vector and configuration", "tests use the default configuration and random samples of the space",
     [E + "common/action.py", "highway_env/utils.py"], [("ContinuousAction", "action.py"), ("lmap", "utils.py")])
prop("C15", "Vehicles follow the kinematic bicycle model",
     "In one step of duration dt a vehicle with speed v, heading psi, acceleration a and front steering delta moves by v*dt along psi + beta with beta = arctan(tan(delta)/2), turns by v*sin(beta)/(LENGTH/2)*dt and gains a*dt of speed, all from the values before the step. Its lane is then updated to the closest lane of the network for its new position and heading, and history is recorded exactly when the road asks for it.",
     ["inputs"], "for every state, action and duration", "one test drives straight ahead", 
     ["highway_env/vehicle/kinematics.py"], [("step", "kinematics.py Vehicle.step, on_state_update")])
prop("C16", "Actuator saturation and crashed vehicles",
     "Before a vehicle moves, a crashed vehicle's command is replaced by zero steering and an acceleration of minus its speed, whatever was commanded. A vehicle faster than MAX_SPEED accelerates at most by MAX_SPEED minus its speed, one slower than -MAX_SPEED by at least -MAX_SPEED minus its speed, and nothing ever clears the crashed flag.",
     ["inputs", "histories"], "for every state, command and history", "the brake test covers one nominal case",
     ["highway_env/vehicle/*.py", "highway_env/road/objects.py"], [("clip_actions", "kinematics.py Vehicle.clip_actions")])
prop("C17", "Collision outcome",
     "A vehicle that is not already crashed and is checked against a different vehicle while collisions are enabled for both and their bounding rectangles, shrunk to 90 %, intersect, leaves both crashed with the smaller-magnitude of the two speeds; against an obstacle it crashes, its speed drops to the smaller magnitude of its own and zero, and the obstacle is hit; a landmark is only marked hit. In every other case nothing changes.",
     ["inputs"], "for every pair of entities and flags", "two tests collide one vehicle with one entity head-on",
     ["highway_env/vehicle/kinematics.py", "highway_env/utils.py"], [("check_collision", "kinematics.py Vehicle.check_collision")])
prop("C18", "Low-level speed and steering control",
     "A controlled vehicle without an explicit target speed or route aims for its current speed, tracks its target lane by the documented cascade (lateral position to lateral speed, to heading reference clipped to a quarter turn, to heading rate, to a steering angle limited to the maximum steering angle) and tracks its target speed by a proportional acceleration. Divisions by speed and inverse trigonometric functions in this cascade are guarded so that every finite state yields a finite command.",
     ["inputs"], "for every state, target lane and target speed, including zero speed and saturation", "tests drive at nominal speed next to the lane",
     ["highway_env/vehicle/controller.py", "highway_env/utils.py"], [("steering_control", "controller.py ControlledVehicle.steering_control"), ("speed_control", "controller.py ControlledVehicle.speed_control")])
prop("C19", "Car-following follows the Intelligent Driver Model",
     "The commanded acceleration of a car-following vehicle is COMFORT_ACC_MAX*(1 - (max(v,0)/v0)^DELTA) with the target speed v0 guarded against zero, minus COMFORT_ACC_MAX*(d*/d)^2 for the vehicle ahead at guarded lane distance d, where d* = DISTANCE_WANTED + TIME_WANTED*v + v*dv/(2*sqrt(-COMFORT_ACC_MAX*COMFORT_ACC_MIN)) and dv is the relative velocity projected on the follower's heading. A traffic vehicle's own command uses its neighbours on its current lane and is clipped to [-ACC_MAX, ACC_MAX]; a crashed vehicle does not act.",
     ["inputs"], "for every pair of vehicles and parameters", "tests only check that a queue of vehicles eventually slows down",
     ["highway_env/vehicle/behavior.py"], [("acceleration", "behavior.py IDMVehicle.acceleration, desired_gap, act")])
prop("C20", "Lane changes by traffic follow MOBIL",
     "A traffic vehicle considers a lane change only for side lanes reachable from its position, only when it is not already changing lanes and its lane-change timer exceeded the delay (the timer then restarts from zero), and it aborts an ongoing change on the same road when another controlled vehicle ahead within the desired gap is heading for the same lane from another one. A candidate is rejected when the new follower would have to brake more than LANE_CHANGE_MAX_BRAKING_IMPOSED; with a route that names a nonzero lane it is rejected when it leads away from that lane or makes the vehicle itself brake more than that, and otherwise when the politeness-weighted acceleration gain stays below LANE_CHANGE_MIN_ACC_GAIN. Timers default to a spread derived from the initial position and grow by the duration of every simulated tick.",
     ["inputs", "histories"], "for every neighbourhood and parameters", "no test looks at lane-change decisions of traffic",
     ["highway_env/vehicle/behavior.py"], [("mobil", "behavior.py IDMVehicle.mobil, change_lane_policy")])
prop("C21", "Right of way at intersections",
     "Every int(1/dt/REGULATION_FREQUENCY)-th tick, before vehicles move, the road first handles yielding vehicles (those whose timer reached YIELD_DURATION*REGULATION_FREQUENCY return to their lane's speed limit, the timer of the others grows by one), then for every pair of vehicles in possible conflict makes the one of lower lane priority yield, and with equal priorities the one with the larger front distance to the other. Two vehicles are in conflict when at some instant of the 3-second constant-speed prediction (every 0.25 s) they are within a vehicle length of each other and their rectangles (1.5 lengths by 0.9 widths) intersect. Yielding applies to controlled vehicles that are not discretely controlled ego-vehicles and sets the target speed to zero and restarts the yield timer.",
     ["inputs", "histories"], "for every set of vehicles and priorities", "the intersection test only checks that the scene steps",
     ["highway_env/road/regulation.py"], [("enforce_road_rules", "regulation.py RegulatedRoad")])
prop("C22", "Routes connect and are followed",
     "A planned route starts with the vehicle's current lane and continues along a shortest connected path of the road graph to the destination, falling back to the current lane alone when there is none. On passing the end of a lane a vehicle with a route continues on the routed road, keeping its lane index when both roads have as many lanes and otherwise taking the closest lane, and a vehicle without a usable route takes a random successor of the graph from the road's generator; with no successor it keeps its lane.",
     ["inputs", "histories"], "for every road graph, destination and lane", "one test plans one route on one graph",
     ["highway_env/vehicle/controller.py", "highway_env/road/road.py"], [("plan_route_to", "controller.py"), ("next_lane", "road.py RoadNetwork.next_lane"), ("bfs_paths", "road.py")])
prop("C23", "Lane coordinates are consistent",
     "For every lane, world position, heading and width are the documented functions of the longitudinal and lateral coordinates, and the local coordinates of a world position are exactly the inverse map (for circular lanes with the angle unwrapped towards the arc). A position is on a lane when its lateral offset is at most half the width plus margin and its longitudinal coordinate lies within the lane extended by one vehicle length; distances and reachability tests follow from the local coordinates.",
     ["inputs"], "for every lane geometry and position", "tests check two points on two lanes",
     ["highway_env/road/lane.py"], [("StraightLane, SineLane, CircularLane", "lane.py")])
prop("C24", "Road-graph queries return lanes of the graph",
     "Adding a lane appends it under its (from, to) pair; looking up a lane index returns that lane (an unspecified or out-of-range index into a single-lane road resolves to its only lane), the closest lane minimises the heading-aware distance, all side lanes are neighbours by one index that exist, and connectivity tests are exact (same road, adjacent road, route-aware to the given depth).",
     ["inputs", "configurations"], "for every road graph, index and position", "tests look up one lane in one graph",
     ["highway_env/road/road.py"], [("RoadNetwork", "road.py")])
prop("C25", "Neighbour search returns the nearest front and rear",
     "The neighbours of a vehicle on a lane are, among the other vehicles and the obstacles (landmarks excluded) located on that lane (extended by a vehicle length and with a lateral margin of 1 m), the one with the smallest longitudinal coordinate at or ahead of it and the one with the largest behind it, and nothing when there is none. Vehicles close to a vehicle are the other vehicles within the distance and not more than two vehicle lengths behind it (unless asked for), ordered by longitudinal closeness and truncated to the requested count.",
     ["inputs"], "for every set of vehicles and objects", "no test calls the search with more than one candidate",
     ["highway_env/road/road.py"], [("neighbour_vehicles", "road.py Road.neighbour_vehicles"), ("close_vehicles_to", "road.py Road.close_vehicles_to")])
prop("C26", "Kinematic observations: rows, order and padding",
     "A kinematic observation has one row per configured vehicle and one column per configured feature in configured order: the observer first, in absolute coordinates, then the close vehicles (relative to the observer unless absolute coordinates are configured), then zero rows up to the configured count, always matching the announced space. Without a road it is all zeros of the announced shape.",
     ["inputs", "configurations"], "for every configuration and traffic", "tests use default configurations with enough traffic to fill the rows",
     [E + "common/observation.py"], [("observe", "observation.py KinematicObservation.observe")])
prop("C27", "Observation normalisation is affine and clipped",
     "Normalising maps each configured feature range affinely onto [-1, 1] and clips to it when clipping is on, leaves other features unchanged, and uses default ranges derived only from the observer's side lanes and speed limits. The linear map utility sends the source interval's ends to the target interval's ends.",
     ["inputs", "configurations"], "for every feature value and range", "tests never leave the ranges",
     [E + "common/observation.py", "highway_env/utils.py"], [("normalize_obs", "observation.py KinematicObservation.normalize_obs")])
prop("C28", "Multi-agent actions and observations line up",
     "With several controlled vehicles, the i-th component of the action tuple acts on the i-th controlled vehicle and the i-th component of the observation is observed from the i-th controlled vehicle, with a space component each in the same order. Per-agent rewards and terminations are reported in the same order, and the wrapped multi-agent environment returns exactly those.",
     ["configurations", "inputs"], "for every number of agents", "one test runs two agents and never looks whose observation is whose",
     [E + "common/action.py", E + "common/observation.py", E + "intersection_env.py", E + "common/abstract.py"], [("MultiAgentAction/Observation", "action.py, observation.py")])
prop("C29", "Occupancy grids place vehicles in the right cell",
     "Each vehicle whose position relative to the observer lies within the configured grid extents sets its features in the cell containing it, vehicles outside touch no cell, every observation starts from an empty grid, and the grid has one layer per feature and the announced shape. Configured extents, steps and features are honoured, including the defaults, and cell values are clipped to [-1, 1].",
     ["inputs", "configurations"], "for every vehicle position, including just outside the grid", "one test builds the default highway grid and checks its shape",
     [E + "common/observation.py"], [("observe", "observation.py OccupancyGridObservation.observe")])
prop("C30", "Time-to-collision grids",
     "The time-to-collision grid marks, for each speed level, lane of the observer's road and predicted time bin, the collision costs of every other vehicle moving at constant speed on a lane connected to the observer's route, from the gap (with both vehicles' half lengths as margin) divided by the guarded relative speed; the observation keeps three lanes and three speeds around the observer, padded by repetition and within the announced shape.",
     ["inputs"], "for every traffic situation", "one test checks the shape",
     [E + "common/finite_mdp.py", E + "common/observation.py"], [("compute_ttc_grid", "finite_mdp.py")])
prop("C31", "Parking and summon goals",
     "Goal observations report the observed, achieved and desired state by the configured features divided by the configured scales, the parking goal reward is minus the p-th power (p = 0.5) of the weighted absolute difference between achieved and desired goal, success is a reward above -SUCCESS_GOAL_REWARD, and the summon reward adds the collision penalty for a crashed ego-vehicle. The reward is the sum over the agents, the info dictionary reports success per agent, and the episode ends exactly when any controlled vehicle crashed, all agents succeeded, or the duration is over.",
     ["inputs", "configurations"], "for every state and goal", "tests run the parking environment a few steps only",
     [E + "parking_env.py", E + "summon_env.py", E + "common/observation.py"], [("compute_reward", "parking_env.py")])
prop("C32", "Rewards follow their definition and stay in range",
     "Each environment's reward is the weighted sum of its documented terms with the weights of its configuration or class constants: the highway, merge, roundabout and (when normalising) intersection sums are mapped affinely so that the documented worst and best sums give 0 and 1, the two-way reward is the speed and left-lane sum, the lane-keeping reward is one minus the squared relative lateral error. The highway reward is exactly zero off the road, its speed term is clipped to [0, 1], a vehicle that arrived at an intersection gets the arrival reward, and the multi-agent reward is the mean over the controlled vehicles.",
     ["inputs", "configurations"], "for every state, action and configuration of weights", "tests check the reward of one nominal step",
     [E + "*_env.py"], [("_reward", "*_env.py")])
prop("C33", "Termination rules",
     "An episode terminates exactly on the environment's documented conditions: highway on the ego's crash, steps reaching duration*policy_frequency, or leaving the road when offroad_terminal is set; merge on crash or x > 370; two-way on crash; roundabout on crash or steps reaching the duration; intersection when any controlled vehicle crashed, all arrived, or steps reach duration*policy_frequency; parking on any crash, success of all agents or steps reaching the duration; lane keeping never. Termination depends on the current state alone, and a vehicle has arrived at an intersection when it is at least 25 m along an exit lane.",
     ["inputs", "configurations"], "for every state", "tests never reach a terminal state",
     [E + "*_env.py"], [("_is_terminal", "*_env.py")])
prop("C34", "Interval arithmetic and interval predictors",
     "Products of intervals are formed by sign decomposition of both factors, scalings by the sign of the scalar matrix, differences pair opposite bounds, and conversions between world and lane intervals take the extreme values over all four corners. A linear parameter-varying model advances its centre by one Euler step of its nominal dynamics and its interval by the Metzler interval predictor when the nominal matrix is Metzler and by the naive interval product otherwise, in the coordinates of its eigenvectors around its centre when those are real and invertible. The image of a box of parameters is its centre and the deviations at every corner of the box.",
     ["inputs"], "for every interval", "one test checks a partial case", ["highway_env/interval.py"], [("interval_product etc.", "interval.py")])
prop("C35", "Configuration completeness and extension points",
     "Every configuration key that is read while an environment is built, configured, reset, stepped, observed, rewarded or rendered has a default in that environment's (inherited) default configuration, and the defaults have the documented values, each environment overriding only its own. Every documented environment identifier is registered for its class, which can be constructed without arguments (the action-repeat and tuple variants with their documented configuration), every observation and action type name accepted by the factories builds the type of that name with the configured options, and unknown names are rejected.",
     ["configurations"], "for every environment, key, identifier and type name", "tests instantiate a handful of identifiers",
     [E + "*_env.py", E + "common/*.py"], [("default_config", "*_env.py"), ("register", "*_env.py")])
prop("C36", "Absence is tolerated",
     "Every query that may find nothing (no neighbour, no route, no next lane, no viewer, no road, no observer, no controlled vehicle, no preferred lane) is used only where the missing case is handled, with the documented neutral result: zero observations of the announced shape before the scene exists, no acceleration contribution of an absent neighbour, the current lane as route, and no drawing without a viewer. A present but falsy value (lane 0, zero speed, count zero) is never mistaken for a missing one where the distinction matters for targets, lanes or counts.",
     ["inputs", "histories"], "for every state in which the optional value is missing", "tests run with traffic around the ego",
     ["highway_env/**/*.py"], [("guards", "all callers")])
prop("C37", "Finite decision-process export",
     "The finite decision process exported from an environment has one state per speed level, lane and time bin of its time-to-collision grid: lane actions move one lane, speed actions change the level only in the first time bin, every action advances time by one bin, all clipped to the grid, and a state is terminal when its collision cost is one or it lies in the last time bin. Its reward is the collision cost times the configured collision reward plus the lane and speed terms scaled to [0, 1], and its current state is the ego's speed level and lane at time zero.",
     ["inputs"], "for every grid, state and action", "one test builds one export and checks nothing about its content",
     [E + "common/finite_mdp.py"], [("finite_mdp, transition_model", "finite_mdp.py")])
prop("C38", "Road layouts of the environments",
     "Each environment's road network is the documented layout for every configuration: the named nodes, the lanes between them in order, their straight, sine and circular geometry, widths, line types, priorities, speed limits, forbidden ramp lanes and the obstacle at the end of the merging lane. The road uses the environment's generator and history setting, and the highway has the configured number of lanes.",
     ["configurations"], "for every lane count, spot count and configuration", "tests only drive on these roads, none looks at the geometry",
     [E + "*_env.py", "highway_env/road/road.py"], [("_make_road, _create_road", "*_env.py"), ("straight_road_network", "road.py")])
prop("C39", "Initial traffic follows the configuration",
     "A new scene contains exactly the configured number of controlled vehicles, placed on their documented lanes and speeds and of the class of the action type, and traffic of the configured vehicle class, count, spacing, speed distribution, destinations and lanes, every random quantity drawn in order from the environment's generator. A vehicle created on a lane takes the lane's position, heading and (by default) speed limit at its longitudinal coordinate, a randomly created one is placed ahead of the last vehicle by a speed-dependent offset, and spawned traffic never starts within 15 m (20 m around a new intersection or summon ego) of another vehicle.",
     ["inputs", "configurations"], "for every configuration and random draw", "tests count nothing and look at no initial position",
     [E + "*_env.py", "highway_env/vehicle/kinematics.py"], [("_make_vehicles, _create_vehicles", "*_env.py"), ("create_random", "kinematics.py Vehicle.create_random")])
prop("C40", "Linear behaviours are the documented feature products",
     "The acceleration of a linear vehicle is the product of its parameters with the target-speed error, the clipped relative front speed and the clipped safe-gap error, the last two zero without a vehicle ahead, and its steering is the product of its parameters with the heading and lateral features at the pursuit point with guarded speed. Randomising its behaviour draws each parameter uniformly inside its range for this vehicle only, and data collection stores the longitudinal and lateral features and outputs of the current decision before acting.",
     ["inputs"], "for every state, neighbour and parameter vector", "one test runs a queue of linear vehicles",
     ["highway_env/vehicle/behavior.py"], [("acceleration_features, steering_features", "behavior.py LinearVehicle")])
prop("C41", "Dynamic bicycle vehicles follow their force model",
     "The dynamic bicycle vehicle integrates position, heading, longitudinal and lateral speed and yaw rate by one Euler step of its documented tyre-force model (front and rear slip angles, friction coefficients, masses and inertia), the forces being replaced by terms that damp lateral speed and yaw rate when the speed magnitude is below 1 m/s. Before each step the common actuator limits are applied, the steering is clipped to a quarter turn either way and the yaw rate to MAX_ANGULAR_SPEED. The linearised lateral models used for control and prediction are the linearisation of the same tyre forces around zero slip.",
     ["inputs"], "for every state and command", "no test drives a dynamic vehicle", ["highway_env/vehicle/dynamics.py"],
     [("derivative, step, clip_actions", "dynamics.py BicycleVehicle")])
prop("C42", "Trajectory predictions",
     "Predicting a discretely controlled vehicle's trajectory applies the given actions in order to a copy of the vehicle for the action duration each, simulates it tick by tick and samples its states at the requested interval. Constant-speed prediction follows the vehicle's route (or its current lane without one) and gives position and heading at each requested time, continuing from lane to lane when a lane's length is exceeded.",
     ["inputs"], "for every vehicle, action list, route and set of times", "no test looks at a prediction",
     ["highway_env/vehicle/controller.py", "highway_env/road/road.py"], [("predict_trajectory", "controller.py MDPVehicle"), ("position_heading_along_route", "road.py")])
prop("C43", "Lane-keeping state, noise and lane switching",
     "The lane-keeping environment reports the lateral states of the dynamic vehicle and their derivative with uniform noise bounded by the configured amplitudes and a reference following the current lane, switches to the next lane when the vehicle leaves the current one, and records the trajectory and the interval of the attached model at every step. The attached model, when present, receives the applied control and advances by one simulation period per step before the vehicle moves.",
     ["inputs", "histories"], "for every state, lane list and attached model", "the one test runs a few steps without a model",
     [E + "lane_keeping_env.py"], [("step, state, reference_state", "lane_keeping_env.py")])
prop("C44", "Image observations stack the latest frames",
     "An image observation converts the rendered frame to grey levels by the configured weights, places it in the last plane of the stack after shifting the earlier frames by one plane, and has the configured shape and stack size. Different observation instances have separate stacks.",
     ["inputs", "configurations"], "for every configured shape, weights and frame history", "the tests check the shape after one step",
     [E + "common/observation.py"], [("GrayscaleObservation", "observation.py")])
prop("C45", "The view frames the scene and draws each of its elements once",
     "World positions and lengths map to pixels by the surface's scaling and origin, moving the view places its target at the configured fraction of the window, and zooming or shifting multiplies or moves by fixed factors. Displaying an environment draws its lanes with their line types, then its objects and its traffic, each element that is in view drawn at its pixel position with its orientation and the documented colour of its kind or state, and then the agent's own surface when one is attached. Histories draw the recorded states at the given period and simulation rate, fading out with age, and drawn trajectories show every predicted state.",
     ["inputs", "configurations"], "for every view, lane, object, vehicle and window", "tests only check that an image of the right size is produced",
     [E + "common/graphics.py", "highway_env/road/graphics.py", "highway_env/vehicle/graphics.py"],
     [("display, pos2pix, move_display_window_to", "graphics.py"), ("VehicleGraphics.display, get_color", "vehicle/graphics.py")])
prop("C46", "Interval vehicles propagate their state bounds",
     "An interval vehicle starts from a degenerate interval at its own state, records its trajectory and interval before every step, and propagates the bounds by the chosen observer or predictor, restarting from the true state after a crash: the partial observer steps the lower and the upper copies separately and joins their outer bounds, and the predictor advances longitudinal and lateral linear models re-centred when the target lane changes. Model matrices are the affine images of the parameter box, lane alternatives are united, and a collision with a discretely controlled vehicle is tested at the point of the position interval closest to that vehicle.",
     ["inputs", "histories"], "for every state, parameter box, front vehicle and lane change", "no test steps an interval vehicle",
     ["highway_env/vehicle/uncertainty/prediction.py", "highway_env/interval.py"],
     [("observer_step, predictor_step", "prediction.py IntervalVehicle")])
prop("C47", "Parameters and routes are estimated from the observed decisions",
     "Parameter estimates are regularised least squares of the observed outputs on the stored features, with an ellipsoid of the given confidence and a polytope of deviations clipped so that no parameter leaves its box, and a data set is consistent when the prediction error of its last observation stays below the bound given by the estimate from the earlier ones. A multi-model vehicle keeps one data set per route it may follow: it adds the routes open at the next intersection once each, extends known prefixes, moves on to the next lane of a route when one is passed while always keeping the last, stores each decision's features for every route, and drops the routes whose data are inconsistent. A model chosen by index is a copy of the vehicle following that route with its data, or the last one when the index is too large.",
     ["inputs", "histories"], "for every data set, route list and position", "one test checks one regression",
     ["highway_env/vehicle/uncertainty/estimation.py", "highway_env/utils.py"],
     [("confidence_polytope, is_consistent_dataset", "utils.py"), ("MultipleModelVehicle", "estimation.py")])
# --- not decidable by this family -------------------------------------------------------
prop("C50", "Controllers converge to their lane and speed", "From any nearby state a controlled vehicle converges to its target lane and speed without overshooting off the road.", ["inputs"], "for every initial state and road", "tests check one initial state", ["highway_env/vehicle/controller.py"], [("steering_control", "controller.py")])
prop("C51", "Default traffic does not collide", "Traffic vehicles initialised at safe distances never collide with each other on highway scenarios.", ["inputs", "histories"], "for every seed and horizon", "tests simulate a few vehicles", ["highway_env/vehicle/behavior.py"], [("IDM/MOBIL", "behavior.py")])
prop("C52", "Interval predictions contain the true trajectory", "For every parameter in the model's polytope the predicted state interval contains the simulated state over the whole horizon.", ["inputs"], "for every parameter and horizon", "one test checks one case", ["highway_env/interval.py", "highway_env/vehicle/uncertainty/prediction.py"], [("LPV", "interval.py")])
prop("C53", "Rendered images show the scene", "The image produced by the renderer depicts every vehicle, lane and object at its position and scale.", ["inputs"], "for every scene", "one test checks the image size", [E + "common/graphics.py", "highway_env/road/graphics.py", "highway_env/vehicle/graphics.py"], [("display", "graphics.py")])
prop("C54", "Parameter confidence sets cover the true parameter", "The confidence ellipsoid and polytope computed from observed features contain the true parameter with the configured probability.", ["inputs"], "for every data set", "one test checks one regression", ["highway_env/interval.py", "highway_env/vehicle/uncertainty/estimation.py"], [("confidence_ellipsoid", "interval.py")])
prop("C55", "Rectangle intersection is exact", "The rectangle intersection test is true exactly when the two rectangles share a point.", ["inputs"], "for every pair of rectangles", "one test checks a few pairs", ["highway_env/utils.py"], [("rotated_rectangles_intersect", "utils.py")])

def main():
    out = os.path.join(os.path.dirname(HERE), "properties.jsonl")
    P.sort(key=lambda p: p["id"])
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
if __name__ == "__main__":
    main()
