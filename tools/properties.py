"""Source of properties.jsonl: run `python3 tools/properties.py` from /verif."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


E = "highway_env/envs/"
CO = E + "common/"
V = "highway_env/vehicle/"
R = "highway_env/road/"

prop("C01", "A seed and an action sequence determine the whole episode",
     """For every registered environment, seeding it, resetting it and applying an action sequence always yields the
     same observations, rewards, termination flags and infos. The outcome does not depend on the global random
     generators, the hash seed or the clock of the process, on earlier episodes or actions of the same environment
     object, or on what other environments did in the process before or in between.""",
     ["histories", "schedules", "configurations"],
     "all environments x seeds x action sequences up to a depth x every interfering history of a menu (previous "
     "episodes, interleaved steps of other environments, polluted global generators, hash seeds)",
     "the tests run each environment once, unseeded, with one action and never compare two runs",
     [CO + "abstract.py", E + "roundabout_env.py", E + "intersection_env.py", R + "road.py"],
     [("np_random", CO + "abstract.py"), ("_reset", "highway_env/envs/*.py"), ("next_lane, bfs_paths", R + "road.py")],
     ["reset()", "step()"],
     [("np_random", "the seeded generator shared by the environment and its road", CO + "abstract.py")])

prop("C02", "Copies of an environment are independent and evolve like the original",
     """A deep copy of an environment, taken at any point of an episode, behaves exactly like the original under the
     same actions, and no operation on either one ever changes the other. The planning preprocessors (simplify,
     change_vehicles, set_preferred_lane, set_route_at_intersection, set_vehicle_field, call_vehicle_method,
     randomize_behaviour) leave the original untouched and return a copy in which exactly their documented change has been made
     to the vehicles they concern.""",
     ["histories", "configurations"],
     "all environments x reachable states up to a depth x all interleavings of operations on original and copy",
     "one test only checks that a chain of preprocessors returns something that can be stepped once",
     [CO + "abstract.py", V + "kinematics.py", V + "controller.py", V + "behavior.py"],
     [("__deepcopy__", CO + "abstract.py"), ("simplify, change_vehicles, set_*", CO + "abstract.py"),
      ("create_from", V + "kinematics.py")],
     ["copy.deepcopy(env)", "env.simplify()", "env.change_vehicles()", "step()"])

prop("C03", "Every observation belongs to the declared observation space",
     """In every environment and for every available observation type and option, the observation returned by reset and
     by every step until the end of the episode has the structure, shape and bounds declared by the environment's
     observation space, whatever the number, position or speed of the vehicles around. The number of rows, cells or
     frames never depends on the traffic. An observation that was returned does not change afterwards.""",
     ["configurations", "histories", "inputs"],
     "observation types and options x environments x traffic configurations x action sequences up to a depth",
     "the tests check containment for the default observation of each environment after one step",
     [CO + "observation.py", CO + "finite_mdp.py", CO + "abstract.py"],
     [("space(), observe()", CO + "observation.py"), ("define_spaces", CO + "abstract.py")],
     ["env.observation_space", "reset()", "step()"])

prop("C04", "Kinematics observations list the ego-vehicle first, then the nearest traffic",
     """The first row of a Kinematics observation always describes the observer in absolute coordinates; the next rows
     describe the vehicles within the perception distance (and not more than two lengths behind unless see_behind is
     set), nearest first along the observer's lane, up to the configured count, and the remaining rows are zeros. Each
     value is the vehicle's feature, relative to the observer for x, y, vx, vy unless absolute, linearly mapped from its
     configured range to [-1, 1] when normalized and clipped when clipping. Listing a shuffled order changes only the
     order of the rows of the other vehicles, which may come in any order.""",
     ["inputs", "configurations"],
     "all placements of up to three other vehicles on a lattice x option combinations",
     "no test reads the content of an observation",
     [CO + "observation.py", R + "road.py", V + "kinematics.py"],
     [("KinematicObservation.observe", CO + "observation.py"), ("close_vehicles_to", R + "road.py"),
      ("to_dict", V + "kinematics.py")],
     ["env.observation_type.observe()", "step()"])

prop("C05", "Occupancy grids show each vehicle in the cell that contains it",
     """In an OccupancyGrid observation, the cell at row j and column i of a feature's layer holds that feature of a
     vehicle whose position relative to the observer lies in the i-th interval of the x range and the j-th interval of
     the y range, and is zero if there is none. Vehicles outside of the grid do not appear, and values are relative,
     normalised by their range and clipped to [-1, 1].""",
     ["inputs", "configurations"],
     "all relative positions on a lattice finer than the cells, grid shapes, steps, features and ranges",
     "no test uses the occupancy grid",
     [CO + "observation.py"],
     [("OccupancyGridObservation.observe", CO + "observation.py")],
     ["env.observation_type.observe()"])

prop("C06", "Time-to-collision grids and the finite MDP match constant-speed prediction",
     """The cell (speed, lane, time) of the time-to-collision grid is the cost of being there, given that every vehicle
     keeps its lane and speed: 1 for a collision of the centres, 0.5 for its boundaries, at the time step(s) around the
     collision time, and 0 otherwise. The finite MDP built from it has as current state the ego-vehicle's speed and
     lane at time 0, moves one time step forward at each action with lane and (at time 0) speed changes clipped to the
     grid, and is terminal exactly at collisions and at the horizon. The TimeToCollision observation is the window of
     that grid around the ego-vehicle's speed and lane, filled with 1 outside of the road.""",
     ["inputs", "configurations"],
     "all lane/gap/speed combinations of up to two other vehicles on a lattice, lane counts, horizons, time steps; "
     "all states and actions of the resulting MDPs",
     "the conversion to a finite MDP is never exercised by the tests",
     [CO + "finite_mdp.py", CO + "observation.py"],
     [("compute_ttc_grid", CO + "finite_mdp.py"), ("transition_model", CO + "finite_mdp.py"),
      ("TimeToCollisionObservation.observe", CO + "observation.py")],
     ["env.to_finite_mdp()", "env.observation_type.observe()"])

prop("C07", "Rewards follow their definition and stay normalised",
     """The reward of each step is the documented function of the state reached and the action: it increases with speed
     (and with right or left lane, merging-speed and arrival terms where defined), decreases with a collision, is zero off-road
     in highway-v0, and costs a lane change in merge-v0 and roundabout-v0. In highway-v0, merge-v0, roundabout-v0,
     two-way-v0, and in intersection-v0 with normalize_reward, it lies in [0, 1]; info['cost'], where defined, is 1 for a collision, plus
     1/15 in two-way-v0 for driving on the opposite lane.""",
     ["inputs", "histories"],
     "all combinations of lane, speed, target lane, collision, arrival, action and reward options; all states reached "
     "by action sequences up to a depth",
     "no test looks at a reward beyond its type",
     ["highway_env/envs/highway_env.py", E + "merge_env.py", E + "roundabout_env.py", E + "intersection_env.py",
      E + "two_way_env.py"],
     [("_reward, _cost", "highway_env/envs/*.py")], ["step()[1]", "step()[3]['cost']"])

prop("C08", "Episodes end exactly on their documented conditions",
     """A step reports done exactly when the ego-vehicle has crashed or the environment's own ending condition holds:
     the time limit of highway-v0, roundabout-v0, intersection-v0 and parking-v0, leaving the road in highway-v0 when
     offroad_terminal is set, x > 370 in merge-v0, arrival of every controlled vehicle in intersection-v0, reaching the
     goal in parking-v0. Except in lane-keeping-v0, which never ends by itself, the info
     dictionary always reports the ego-vehicle's actual speed and crash status and the action taken.""",
     ["histories", "configurations"],
     "all action sequences up to a depth, time limits, and directly constructed crash / arrival / off-road states",
     "the tests never run an episode to its end",
     ["highway_env/envs/highway_env.py", E + "merge_env.py", E + "roundabout_env.py", E + "intersection_env.py",
      E + "parking_env.py", E + "two_way_env.py"],
     [("_is_terminal", "highway_env/envs/*.py"), ("step", CO + "abstract.py")], ["step()[2]", "step()[3]"])

prop("C09", "Simulation clock, configuration and reset",
     """Each step advances the simulation by exactly one policy period, in frames of one simulation period, unless the
     episode ends earlier, when it stops at the frame of the crash, and applies the action at its first frame. A configuration given at construction or through
     configure, even in the middle of an episode, is fully effective after the next reset, other fields keeping their
     default, and instances never share configuration. After any history, reset returns the environment to a fresh
     initial state: clock and step count at zero, no crash, the configured road, vehicles, spaces and controlled vehicles.""",
     ["histories", "configurations"],
     "all frequency pairs of a menu, all configure/reset/step operation sequences up to a depth, configuration menus",
     "tests use the default frequencies and never reset twice",
     [CO + "abstract.py", "highway_env/envs/highway_env.py", E + "intersection_env.py", E + "parking_env.py"],
     [("_simulate, reset, configure, define_spaces", CO + "abstract.py")],
     ["step()", "reset()", "configure()", "env.time", "env.steps", "env.config"])

prop("C10", "Discrete meta-actions change the set-points as documented",
     """LANE_LEFT and LANE_RIGHT move the target lane by one when that lane exists and is reachable, FASTER and SLOWER
     move the target speed to the next allowed speed above or below the current one within the allowed range, and IDLE changes
     nothing. The available actions are IDLE and exactly the lane changes towards an existing reachable neighbour of the current lane and the
     speed changes that keep the target speed within range; for a vehicle in its target lane and at its target speed, taking an
     unavailable action is equivalent to taking IDLE. Longitudinal-only
     and lateral-only action sets contain just the corresponding actions.""",
     ["histories", "configurations"],
     "all action sequences up to a depth from all lanes and speeds on networks with 1 to 4 lanes, with forbidden lanes",
     "tests issue one lane change and one speed change",
     [CO + "action.py", CO + "abstract.py", V + "controller.py"],
     [("DiscreteMetaAction.act", CO + "action.py"), ("get_available_actions", CO + "abstract.py"),
      ("ControlledVehicle.act, MDPVehicle.act", V + "controller.py")],
     ["env.step(action)", "env.get_available_actions()", "vehicle.target_lane_index", "vehicle.target_speed"])

prop("C11", "Continuous actions are mapped linearly to bounded commands",
     """A continuous action component in [-1, 1] is mapped linearly onto the configured acceleration or steering range,
     values beyond are clipped when clipping is enabled, and a disabled axis stays at zero; throttle comes first, then steering.
     The command is held for the whole step. With manual control, the actions passed to step have no effect.""",
     ["inputs", "configurations"],
     "a lattice of actions inside, on and outside of the bounds x axis combinations x ranges x environments",
     "no test checks the effect of a continuous action",
     [CO + "action.py", CO + "abstract.py"],
     [("ContinuousAction.act", CO + "action.py"), ("_simulate", CO + "abstract.py")],
     ["step(action)", "vehicle.action"])

prop("C12", "Vehicles move according to the kinematic bicycle model",
     """At each frame a vehicle's position, heading and speed advance by one explicit Euler step of the documented
     kinematic bicycle model under its current acceleration and steering commands. A crashed vehicle ignores its
     commands and slows down to a stop without steering, a vehicle beyond the maximum speed (forwards or backwards) is
     never accelerated further beyond it, and its current lane is always the closest one.""",
     ["inputs", "histories"],
     "all combinations of speed, heading, steering, acceleration, time step and crash status on a lattice, and all "
     "command sequences up to a depth",
     "two tests check straight driving and braking from one state",
     [V + "kinematics.py"],
     [("Vehicle.step, clip_actions, on_state_update", V + "kinematics.py")],
     ["vehicle.position", "vehicle.heading", "vehicle.speed", "vehicle.lane_index"])

prop("C13", "A collision is reported exactly when footprints overlap",
     """At the end of each frame, any two vehicles whose rectangular footprints (90% of their length and width, oriented
     along their heading) overlap are both marked as crashed, and no vehicle becomes crashed without such an overlap with a
     vehicle or obstacle; both take the lower of their speeds in magnitude. The verdict does not depend on the order of vehicles.
     Obstacles and landmarks overlapped by a vehicle that is not crashed otherwise are marked as hit, landmarks crash nobody, and disabling collisions of a vehicle
     class disables these crashes.""",
     ["inputs", "histories"],
     "all relative poses of two bodies on a lattice of offsets and headings, all kinds of bodies and orders, and "
     "multi-vehicle scenes advanced over frames",
     "tests cover two vehicles at the same heading, and five rectangle pairs",
     [V + "kinematics.py", "highway_env/utils.py", R + "road.py", R + "objects.py"],
     [("check_collision", V + "kinematics.py"), ("rotated_rectangles_intersect", "highway_env/utils.py"),
      ("Road.step", R + "road.py")],
     ["vehicle.crashed", "obstacle.hit", "road.step()"])

prop("C14", "Lane frames are consistent with world coordinates",
     """For straight, sine and circular lanes, converting local coordinates to a world position and back (and world to
     local and back) is the identity over the lane's extent, the heading is the direction of the centre line, and the
     length is the length along the reference line. A position is on a lane exactly when its lateral offset is within half a width
     (plus margin) and its longitudinal one within the lane extended by a vehicle length; a lane is reachable when it is not forbidden
     and within two widths; the closest lane of a network minimises the distance and heading mismatch.""",
     ["inputs", "configurations"],
     "a menu of lanes of every type and orientation, and all lanes of all environments x lattices of coordinates",
     "tests only use coordinates of straight horizontal lanes",
     [R + "lane.py", R + "road.py"],
     [("position, local_coordinates, heading_at, on_lane, is_reachable_from, after_end, distance", R + "lane.py"),
      ("get_closest_lane_index", R + "road.py")],
     ["lane.position()", "lane.local_coordinates()", "lane.on_lane()", "network.get_closest_lane_index()"])

prop("C15", "Routes are shortest paths and vehicles follow them",
     """Planning a route to a reachable destination gives a valid path with the smallest number of roads, starting with the
     current lane; with an unreachable or unknown destination the vehicle just keeps its lane. At the end of a lane
     the next lane is the one of the route if there is a route, otherwise any outgoing road, and keeps the lane number when both roads
     have as many lanes, else takes the closest lane; at a dead end the lane is kept. Positions predicted along a route walk
     through its lanes in order, and the lanes reported as side or connected lanes are exactly those of the network.""",
     ["inputs", "programs", "histories"],
     "all road networks with up to 4 nodes x all origins and destinations x all lane counts of a menu, every answer "
     "of the random choice",
     "one test follows one route on a four-road network",
     [R + "road.py", V + "controller.py"],
     [("shortest_path, next_lane, side_lanes, is_connected_road, position_heading_along_route", R + "road.py"),
      ("plan_route_to, follow_road", V + "controller.py")],
     ["network.shortest_path()", "network.next_lane()", "vehicle.route"])

prop("C16", "Neighbour search finds the vehicles directly ahead and behind",
     """The preceding and following vehicles of a vehicle on a lane are the nearest ones ahead and behind along that
     lane, among all vehicles and obstacles located on that lane within one metre of margin, ignoring landmarks and itself; none when there
     is none. The search of close vehicles returns exactly the other vehicles within the distance (and at most two lengths behind when not
     seeing behind), nearest first, limited to the requested count.""",
     ["inputs", "configurations"],
     "all placements of up to four bodies on a lattice of lanes and positions, all lanes, orders, counts and distances",
     "tests exercise it indirectly with one front obstacle",
     [R + "road.py"],
     [("neighbour_vehicles, close_vehicles_to", R + "road.py")],
     ["road.neighbour_vehicles()", "road.close_vehicles_to()"])

prop("C17", "Simulated drivers follow their leader safely",
     """The acceleration of an IDM vehicle is the one of the Intelligent Driver Model for its leader, target speed and
     parameters, within its acceleration limits, and a Linear vehicle's is the dot product of its parameters with its
     features. From any initially safe gap, an IDM vehicle behind slower, braking or stopped traffic or an obstacle in its lane never collides with it;
     on a free road, it never stops moving forward and converges to its target speed.""",
     ["inputs", "histories"],
     "a lattice of gaps, speeds, target speeds; platoons of up to 3 vehicles with every sequence of leader behaviours up to a depth",
     "one test stops behind one obstacle from one state",
     [V + "behavior.py"],
     [("IDMVehicle.acceleration, desired_gap, act", V + "behavior.py"), ("LinearVehicle.acceleration", V + "behavior.py")],
     ["road.act()", "vehicle.action", "vehicle.crashed"])

prop("C18", "Simulated drivers change lane only when safe and worthwhile",
     """An IDM vehicle retargets an adjacent lane if and only if that lane exists and is reachable, its lane change delay has
     elapsed, the new follower would not have to brake harder than the safety limit, and the acceleration gain with politeness reaches the
     threshold (or, with a planned lane, it is in the direction of that lane and does not require an unsafe braking). Vehicles
     with lane changes disabled never retarget, and a lane change in progress is aborted if another vehicle is already changing to
     the same lane just ahead.""",
     ["inputs", "histories"],
     "all placements of up to three neighbours on a lattice of lanes, gaps and speeds, timers, routes and politeness",
     "no test covers lane changes of other vehicles",
     [V + "behavior.py"],
     [("change_lane_policy, mobil", V + "behavior.py")],
     ["road.act()", "vehicle.target_lane_index"])

prop("C19", "Controlled vehicles converge to their target lane and speed",
     """From any state reachable by meta-actions, a controlled vehicle left IDLE on a free road converges to the centre of its
     target lane, aligned with it, and to its target speed, without leaving the road, overshooting onto a further lane, turning by more than 45 degrees from the lane or exceeding its steering limit. It
     follows straight, sine and circular roads and switches by itself to the next lane at the end of a road.""",
     ["histories", "inputs"],
     "all target lane / speed / heading / offset combinations on a lattice, all meta-action sequences up to a depth followed by a settling time",
     "two tests check one lane change and one speed change on a straight road",
     [V + "controller.py"],
     [("steering_control, speed_control, follow_road", V + "controller.py")],
     ["vehicle.position", "vehicle.speed", "vehicle.action"])

prop("C20", "Regulated roads give way by priority",
     """On a regulated road, when two vehicles are predicted to collide at constant speed along their routes, the one on the lane of lower
     priority, or the one behind when priorities are equal, is told to stop (target speed zero) at the next regulation instant, and never the other one;
     ego-vehicles are never commanded. Without any predicted collision nobody yields, and a yielding vehicle gets back the speed limit
     of the lane it is on when its conflict is over.""",
     ["inputs", "histories"],
     "all pairs of approach roads, destinations, distances and speeds on a lattice, and multi-vehicle scenes advanced over regulation instants",
     "no test covers regulation",
     [R + "regulation.py", E + "intersection_env.py"],
     [("enforce_road_rules, respect_priorities, is_conflict_possible", R + "regulation.py")],
     ["vehicle.target_speed", "road.step()"])

prop("C21", "Multi-agent episodes treat every controlled vehicle alike",
     """With several controlled vehicles, each one receives exactly its own action, observes the scene from its own viewpoint in its own slot
     of the tuples, and gets its own reward and termination flag, in the order of the controlled vehicles. The shared reward
     is the mean of the agents' rewards, the episode ends as soon as one crashes or when all have arrived, controlled vehicles are never removed from
     the road, and traffic leaving the intersection is removed while new traffic appears only at a distance from every vehicle.""",
     ["histories", "configurations", "schedules"],
     "all joint action sequences up to a depth for 1 to 3 agents, every answer of the spawning randomness in a menu",
     "no test uses more than one agent",
     [E + "intersection_env.py", CO + "action.py", CO + "observation.py", CO + "abstract.py"],
     [("MultiAgentAction, MultiAgentObservation", CO + "action.py"), ("_spawn_vehicle, _clear_vehicles", E + "intersection_env.py")],
     ["step()", "info['agents_rewards']", "info['agents_dones']"])

prop("C22", "Goal environments expose a consistent goal, reward and success",
     """In parking-v0 and summon-v0 the reward of a step always equals compute_reward applied to the returned achieved and desired goals
     (summed over agents), so that relabelled goals can be evaluated afterwards, and the achieved goal is the scaled state of the vehicle and the desired one that of
     the landmark. The reward is the negative weighted p-norm of their difference, maximal at zero exactly on the goal (minus 5 when crashed in
     summon-v0), and is_success is true exactly when it exceeds the success threshold.""",
     ["inputs", "histories", "configurations"],
     "a lattice of vehicle poses and speeds x all goal positions x agents, action sequences up to a depth",
     "tests only step the environment once",
     [E + "parking_env.py", E + "summon_env.py", CO + "observation.py"],
     [("compute_reward, _is_success", E + "parking_env.py"), ("KinematicsGoalObservation", CO + "observation.py")],
     ["reset()", "step()", "env.compute_reward()"])

prop("C23", "Interval predictions contain every possible behaviour",
     """Interval arithmetic (product, scaling, difference, negative part, frame changes on straight lanes), matrix
     polytopes and linear parameter-varying interval predictors always contain the exact result for every value of their arguments in
     the given intervals, at every step. The set predicted for a vehicle following its (straight) lane with uncertain parameters
     contains the trajectory of the actual vehicle for every parameter in the set. A meta-action vehicle collides with such a predicted
     vehicle in the worst case, i.e. when their footprints overlap for some position in its interval (exactly so when both are along the
     axes) and never when they overlap for none; other vehicles collide with its actual position.""",
     ["inputs", "histories"],
     "all intervals with bounds on a lattice, all vertices and interior lattice points of parameter and disturbance boxes, all disturbance sequences up to a depth",
     "two tests run one vehicle alone on a straight road",
     ["highway_env/interval.py", V + "uncertainty/prediction.py"],
     [("intervals_product, intervals_scaling, LPV", "highway_env/interval.py"), ("IntervalVehicle", V + "uncertainty/prediction.py")],
     ["interval functions", "LPV.step()", "IntervalVehicle.interval"])

prop("C24", "Rendering shows the state and never influences it",
     """Rendering, in any mode, at any time and any number of times, never changes the course of the simulation, and always returns an image of the
     configured size that depends only on the current state, where the first controlled vehicle is at the configured position and every visible
     body covers its rectangle in its colour, the wheels of plain vehicles turned as they steer, between the lines of the lanes; the plan given to the viewer, and with show_trajectories the trails of the last
     two seconds, appear translucent at the places of the states they are made of, and nowhere else. Grayscale observations are the weighted sum of the rendered
     colours of the last frames, oldest first, with zeros before the first one, as width x height x stack.""",
     ["schedules", "histories", "configurations"],
     "all interleavings of render calls with steps up to a depth, screen sizes, modes, stack sizes",
     "tests render one frame and check its shape",
     [CO + "abstract.py", CO + "graphics.py", CO + "observation.py", V + "graphics.py", R + "graphics.py"],
     [("render", CO + "abstract.py"), ("EnvViewer", CO + "graphics.py"), ("GrayscaleObservation", CO + "observation.py")],
     ["env.render()", "step()"])

prop("C25", "In manual control the keyboard drives the vehicle and moves the view",
     """With manual_control, the actions given to step are ignored and the keys of the window drive the vehicle. Discrete meta-actions: right is FASTER, left SLOWER, down LANE_RIGHT, up LANE_LEFT, once
     per press and only when this kind of action is enabled. Continuous actions: right and left hold the steering at +0.7 and -0.7, up and down the throttle at +0.7 and -0.7 (mapped to the configured ranges), until the key is
     released, again only if enabled. Other keys do nothing to the vehicle. In any mode the keys l and o zoom the view out and in by 1.3, m and k move it along the horizontal by a tenth of the window,
     which changes neither the configuration nor the view of other environments, and closing the window closes the viewer without an error.""",
     ["histories", "configurations"],
     "all sequences of key events up to a depth x enabled axes x kinematic or dynamical vehicles x frames per step x moments of the event",
     "no test sends an event",
     [CO + "graphics.py", CO + "action.py", CO + "abstract.py", R + "graphics.py"],
     [("EventHandler, EnvViewer.handle_events", CO + "graphics.py"), ("WorldSurface.handle_event", R + "graphics.py")],
     ["pygame events", "env.render()", "env.step()", "vehicle.action"])

prop("C26", "Every environment is built on the road network it documents",
     """highway-v0: one straight road of lanes_count parallel lanes, 10 km long. merge-v0: a two-lane highway joined by a ramp that becomes a third, forbidden, lane ending at an obstacle.
     two-way-v0: two lanes, the left one facing the opposite traffic. roundabout-v0: a two-lane counter-clockwise ring (radii 20 and 24 m) with four entries and exits at quarter turns. Intersections:
     four single-lane approaches and exits, equal up to rotation, right-hand traffic, and from each approach a right turn, a straight lane and a left turn; horizontal approaches have priority 3 and
     vertical ones 1, one less for left turns. parking-v0: two facing rows of 15 disjoint 4 x 8 m spots; summon-v0: the same with lanes between. Lanes of a road are parallel, 4 m apart, numbered
     from left to right. Where a lane leads to another it joins it in position and heading (except the turn-offs of the roundabout and the end of the merging lane); every exit can be reached from every
     entry, and a vehicle which follows any choice of lanes or a planned route stays on the road and arrives. The network is the same after each reset and does not depend on the seed.""",
     ["configurations", "inputs", "histories"],
     "all environments and lane counts x all lanes, junctions, (entry, exit) pairs and choices at junctions x a lattice of positions along each lane",
     "the tests only check that environments can be created and stepped once",
     [E + "highway_env.py", E + "merge_env.py", E + "two_way_env.py", E + "roundabout_env.py", E + "intersection_env.py", E + "parking_env.py", E + "summon_env.py", R + "road.py", R + "lane.py"],
     [("_make_road, _create_road", "highway_env/envs/*.py"), ("RoadNetwork.straight_road_network", R + "road.py")],
     ["env.road.network", "vehicle.plan_route_to()", "env.step()"])

prop("C27", "Whatever the random source answers, an episode starts from a sound scene",
     """For every answer of the random generator, reset places the configured numbers and types of vehicles on the centres of lanes, with the heading of the lane, nobody crashed or overlapping, and the
     controlled vehicles in order, on the road. Highway: the ego-vehicle at 25 m/s on initial_lane_id, the traffic at 23-25 m/s, each vehicle 0.9-1.1 x spacing x 1.5 x its speed x exp(-lanes/6) ahead
     of the last one. Merge: the ego-vehicle on the highway at 30 m/s with three others, one more on the ramp at 20 m/s targeting 30. Two-way: three vehicles ahead, two opposite, which never change
     lane. Roundabout: the ego-vehicle at 8 m/s, the others at 0-16 m/s, routed to one of the exits (to incoming_vehicle_destination when configured). Intersections: agent i on approach i at 50-70 m,
     10 m/s, speeds 0-9, routed to its destination, nobody else within 20 m. Parking: at rest between the rows, the goal at the centre of any of the 30 spots. Summon: the ego-vehicle in a spot,
     others at least 20 m away, parked or at 2 m/s on the middle lanes, the goal lengthwise at either end of these lanes.""",
     ["inputs", "schedules", "configurations"],
     "environments and configurations x all answers (extremes, middle, sign changes) of the random draws of a reset",
     "the tests reset each environment once with an unspecified seed and do not look at the scene",
     [E + "highway_env.py", E + "merge_env.py", E + "two_way_env.py", E + "roundabout_env.py", E + "intersection_env.py", E + "parking_env.py", E + "summon_env.py", V + "kinematics.py"],
     [("_make_vehicles, _create_vehicles, _spawn_vehicle", "highway_env/envs/*.py"), ("Vehicle.create_random, make_on_lane", V + "kinematics.py"), ("randomize_behavior", V + "behavior.py")],
     ["env.reset()", "env.road.vehicles", "env.road.objects", "env.controlled_vehicles"])

prop("C28", "Dynamic vehicles move according to the dynamic bicycle model",
     """At each frame, a BicycleVehicle advances by one explicit Euler step of the dynamic bicycle model (lateral tyre forces proportional to the slip angles;
     lateral speed and yaw rate damped below 1 m/s) from its current state and command, with the steering limited to a quarter turn, a bounded yaw rate and the speed and crash
     rules of every vehicle. Its linear derivative and linear parameter-varying matrices are the linearisation of that model around straight forward driving. In lane-keeping-v0
     this is how the vehicle moves; the reward is 1 - (distance to the centre line / lane width)^2, the observed state and derivative are the true ones within the configured noise, the reference
     is on the centre line, the next lane is kept once the vehicle leaves the first one, and no step ends the episode.""",
     ["inputs", "histories", "configurations"],
     "a lattice of states, commands, time steps and vehicle parameters; all command sequences up to a depth; all lane-keeping action sequences up to a depth and noise answers of a menu",
     "one test plots a single simulated trajectory without judging it",
     [V + "dynamics.py", E + "lane_keeping_env.py"],
     [("BicycleVehicle.derivative, derivative_linear, step", V + "dynamics.py"), ("lateral_lpv_structure, full_lateral_lpv_structure", V + "dynamics.py"),
      ("LaneKeepingEnv.step", E + "lane_keeping_env.py")],
     ["vehicle.state", "vehicle.step()", "lateral_lpv_dynamics()", "env.step()"])

prop("C29", "Predicted trajectories are those the vehicles then follow",
     """predict_trajectory returns exactly the states that the vehicle, alone on its road, then reaches with the given actions, at the requested instants, and changes neither the vehicle nor the
     road nor its random generator; the plan which the simulation displays lies on it. predict_trajectory_constant_speed gives, for each instant, the position and heading of the centre of the
     planned route at the distance covered at the current speed from the current position, on all lanes and across the junctions between lanes.""",
     ["inputs", "histories", "configurations"],
     "all action sequences up to a depth x initial states, lanes and routes x durations and saving steps; all lanes and routes of the environments for constant speed",
     "no test calls the prediction functions",
     [V + "controller.py", V + "kinematics.py", R + "road.py"],
     [("ControlledVehicle.predict_trajectory_constant_speed", V + "controller.py"), ("MDPVehicle.predict_trajectory", V + "controller.py"), ("RoadNetwork.position_heading_along_route", R + "road.py")],
     ["vehicle.predict_trajectory()", "vehicle.predict_trajectory_constant_speed()", "road.vehicles"])

prop("C30", "Estimating the behaviour of linear vehicles is passive and keeps the truth",
     """Linear vehicles that record data for the estimation of their parameters, including those that consider several possible routes, act exactly as those that do not, and what they record is what they
     do: outputs equal to the product of features and parameters, and to the commands given. The confidence ellipsoid is the regularised least squares estimate with its Gramian and its radius, and
     contains the parameter of undisturbed data; the confidence polytope stays in the parameter box and contains every parameter of the ellipsoid that is in the box. The linear
     models considered by a regression vehicle include its own and only those of its parameters, and they accelerate like the vehicle as long as nothing is close. A dataset is rejected exactly when its last
     observation is farther from the prediction than the ellipsoid and the noise allow, never when a linear vehicle of the box produced it. On networks of single lanes, the possible routes of a vehicle
     are connected, distinct and not empty, are at first all those up to the roads after the next intersection, and always include the one it follows; at an intersection of intersection-v0 the others are rejected once it is passed. A vehicle assumed to
     follow a possible route is an independent copy with the same motion, on that route.""",
     ["inputs", "histories", "configurations"],
     "datasets up to a length over a menu of features x a lattice of parameters and disturbances; all routes of two networks x speeds, offsets, parameters and rates, at every frame; traffic with and without recording",
     "no test runs the estimation",
     ["highway_env/utils.py", V + "behavior.py", V + "uncertainty/estimation.py"],
     [("confidence_ellipsoid, confidence_polytope, is_consistent_dataset", "highway_env/utils.py"), ("LinearVehicle.collect_data, add_features", V + "behavior.py"),
      ("MultipleModelVehicle.update_possible_routes, assume_model_is_valid", V + "uncertainty/estimation.py")],
     ["utils.confidence_polytope()", "utils.is_consistent_dataset()", "vehicle.data", "vehicle.assume_model_is_valid()"],
     [("data", "features and outputs recorded, for each possible route", V + "behavior.py")])

prop("C31", "Every environment can be played with every type of action and of observation",
     """Every environment accepts every type of action that can be configured: discrete meta-actions on both axes, the speeds or the lanes only, and continuous actions on both axes, the throttle or the steering only,
     for kinematic or dynamical vehicles; in highway-v0, intersection-v0 and parking-v0 also for two agents. Kinematics, OccupancyGrid, TimeToCollision (with meta-actions only) and Grayscale observations can be combined
     with any of them (parking and summon environments: goal observations; lane-keeping-v0: dynamical vehicles). Resets and steps succeed for every sequence of actions, their observations are of the declared
     space and shape, rewards are finite scalars within their documented range, and the ego-vehicle moves as the action type and the vehicle model define, whatever the environment. A continuous action is never taken for a lane
     change by a reward.""",
     ["inputs", "configurations", "histories"],
     "environments x action types x observation types x action sequences",
     "tests run each environment with its default configuration only",
     [E + "common/action.py", E + "common/observation.py", E + "roundabout_env.py", E + "intersection_env.py", E + "merge_env.py", E + "two_way_env.py"],
     [("AbstractEnv.define_spaces, step", E + "common/abstract.py"), ("action_factory", E + "common/action.py"), ("observation_factory", E + "common/observation.py")],
     ["env.configure()", "env.reset()", "env.step()", "env.action_space", "env.observation_space"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
