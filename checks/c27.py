"""C27: whatever the random source answers, an episode starts from a sound scene."""
import itertools

import numpy as np

from vk import choice, envs, hw, ref

PROP = "C27"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every answer of the random source (each discrete option, lowest, middle and highest value of each continuous draw; +-2 deviations for Gaussian ones): all answers for create_random of 2 "
             "vehicles on 1 to 4 lanes, speeds, lane numbers and spacings; up to 2 deviations from the middle answers for the resets of the 12 environments with configurations of counts, lanes, spacings, "
             "agents and vehicle types (1 deviation for intersections)",
    "thorough": "3 vehicles, 3 deviations (2 for intersections), more configurations"}
ASSUMPTIONS = ["Gaussian draws stay within two standard deviations; overlaps are not judged in two-way-v0 and on the middle lanes of summon-v0, whose vehicles are placed independently",
               "the roads themselves are those of C26"]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for lanes in (1, 2, 3, 4):
        for speed in (None, 18.0, 25.0):
            out.append(("create_random", (lanes, speed, 2 if q else 3)))
    for k in range(8):
        out.append(("make_on_lane", (k,)))
    dev = 2 if q else 3
    for k in range(len(HIGHWAY)):
        out.append(("highway", (k, dev)))
    for k in range(5):
        out.append(("roundabout", (k, dev)))
    out += [("merge", ()), ("two_way", (dev,)), ("lane_keeping", ())]
    for agents in (1, 2):
        out.append(("parking", ("parking-v0", agents)))
    out.append(("parking", ("parking-ActionRepeat-v0", 1)))
    for n in ("summon-v0", "summon-ActionRepeat-v0"):
        for count in (0, 1, 3, 10):
            out.append(("summon", (n, count, dev - 1 if count > 3 else dev)))
    for k in range(len(CROSSINGS)):
        for part in range(4):
            out.append(("intersection", (k, part, 1 if q else 2)))
    out.append(("behaviours", ()))
    return out


def lane_of(net, index):
    return net.get_lane(tuple(index))


def on_lane(ctx, key, veh, index, case, tol=1e-6, heading=True):
    """The vehicle is at the centre of that lane and drives along it."""
    lane = lane_of(veh.road.network, index)
    s, r = lane.local_coordinates(veh.position)
    ctx.check(abs(r) < tol and -1e-6 <= s <= lane.length + 1e-6, key + "/position", "%s is not on the lane %s" % (veh, index), **case)
    if heading:
        ctx.check(abs(hw.wrap(veh.heading - lane.heading_at(s))) < 1e-6, key + "/heading", "%s has heading %s on a lane of heading %s" % (veh, veh.heading, lane.heading_at(s)), **case)
    return s


def disjoint(ctx, key, bodies, case):
    for a, b in itertools.combinations(bodies, 2):
        if np.linalg.norm(np.asarray(a.position) - b.position) < 15:
            ctx.check(hw.footprint_gap(a, b, 1.0) > 0, key + "/overlap", "%s and %s overlap at the start" % (a, b), **case)


def fresh(ctx, key, env, case):
    ctx.check(not any(v.crashed for v in env.road.vehicles), key + "/crashed", "a vehicle is crashed at the start", **case)
    ctx.check(len(set(map(id, env.road.vehicles))) == len(env.road.vehicles), key + "/twice", "a vehicle is twice on the road", **case)
    ctx.check(all(any(c is v for v in env.road.vehicles) for c in env.controlled_vehicles), key + "/controlled", "a controlled vehicle is not on the road", **case)
    ctx.check(env.vehicle is env.controlled_vehicles[0], key + "/first", "the vehicle is not the first controlled one", **case)
    ctx.check(all(v.road is env.road for v in env.road.vehicles), key + "/road", "a vehicle belongs to another road", **case)


def default_gap(speed, lanes, spacing):
    return spacing * 1.5 * speed * np.exp(-lanes / 6)


def create_random(ctx, lanes, speed, count):
    classes = (hw.Vehicle, hw.IDMVehicle, hw.MDPVehicle)
    for lane_id in (None, 0, lanes - 1):
        for spacing in (0.5, 1.0, 2.0):
            def run(ch):
                net = hw.straight(lanes, 10000)
                road = hw.make_road(net)
                road.np_random = ch
                cls = classes[int(spacing * 2 + lanes) % 3]
                for _ in range(count):
                    road.vehicles.append(cls.create_random(road, speed=speed, lane_id=lane_id, spacing=spacing))
                return road
            for script, road in choice.explore(run, max_runs=100000):
                case = dict(lanes=lanes, speed=speed, lane_id=lane_id, spacing=spacing, answers=script)
                front = None
                for v in road.vehicles:
                    s = on_lane(ctx, "create_random", v, v.lane_index, case)
                    if lane_id is not None:
                        ctx.check(v.lane_index[2] == lane_id, "create_random/lane", "created on lane %s" % (v.lane_index,), **case)
                    if speed is None:
                        ctx.check(23 - 1e-6 <= v.speed <= 25 + 1e-6, "create_random/speed", "created at %s m/s" % v.speed, **case)
                    else:
                        ctx.check(v.speed == speed, "create_random/speed", "created at %s m/s" % v.speed, **case)
                    gap = default_gap(v.speed, lanes, spacing)
                    if front is None:
                        ctx.check(3.9 * gap - 1e-6 <= s <= 4.1 * gap + 1e-6, "create_random/first", "the first vehicle is created at %s m, expected about %s" % (s, 4 * gap), **case)
                    else:
                        ctx.check(0.9 * gap - 1e-6 <= s - front <= 1.1 * gap + 1e-6, "create_random/gap", "created %s m in front of the last one, expected about %s" % (s - front, gap), **case)
                    front = s
                    ctx.trans()
                ctx.state((lanes, speed, lane_id, spacing, tuple((v.lane_index[2], round(float(v.position[0]), 3)) for v in road.vehicles)))
                ctx.trace()
                ctx.outcome("lanes %s" % (sorted({v.lane_index[2] for v in road.vehicles}),))
    ctx.sample(case)


def make_on_lane(ctx, k):
    from highway_env.road.objects import Landmark, Obstacle
    name = ["highway-v0", "merge-v0", "two-way-v0", "roundabout-v0", "intersection-v0", "parking-v0", "summon-v0", "lane-keeping-v0"][k]
    env, _ = envs.light(name, 1)
    road = env.unwrapped.road
    for a, tos in road.network.graph.items():
        for b, lanes in tos.items():
            for i, lane in enumerate(lanes):
                for x in (0.0, 0.3, 0.77, 1.0):
                    s = x * lane.length
                    case = dict(env=name, lane=(a, b, i), s=s)
                    for cls in (hw.Vehicle, hw.ControlledVehicle, hw.IDMVehicle, hw.MDPVehicle, Landmark, Obstacle):
                        moving = issubclass(cls, hw.Vehicle)
                        for speed in (None, 0.0, 13.0) if moving else (None,):
                            if speed is None and moving and lane.speed_limit is None:
                                continue
                            v = cls.make_on_lane(road, (a, b, i), s, speed) if moving else cls.make_on_lane(road, (a, b, i), s)
                            ctx.check(np.allclose(v.position, lane.position(s, 0), atol=1e-7) and abs(hw.wrap(v.heading - lane.heading_at(s))) < 1e-7, "make_on_lane/pose",
                                      "%s has heading %s, the lane is at %s with heading %s" % (v, v.heading, lane.position(s, 0), lane.heading_at(s)), **case)
                            if moving:
                                ctx.check(v.speed == (lane.speed_limit if speed is None else speed), "make_on_lane/speed", "created at %s m/s instead of %s" % (v.speed, speed), **case)
                            ctx.trans()
                    ctx.state((name, a, b, i, x))
    ctx.trace()
    ctx.outcome(name)
    ctx.sample(case)


def resets(ctx, name, config, deviations, script=()):
    """The environment after a reset, for every sequence of answers."""
    env = envs.raw(name, dict(config) if name in ("intersection-v0", "intersection-multi-agent-v0") else None)
    env.unwrapped.configure(dict(config))
    env.seed(0)

    def run(ch):
        env.unwrapped.np_random = ch
        env.reset()
        return env.unwrapped
    for taken, e in choice.explore(run, deviations=deviations, max_runs=200000):
        ctx.trace()
        ctx.trans()
        yield taken, e


HIGHWAY = [dict(vehicles_count=3, lanes_count=3), dict(vehicles_count=2, lanes_count=4, initial_lane_id=2), dict(vehicles_count=2, lanes_count=2, initial_lane_id=0, ego_spacing=1, vehicles_density=2),
           dict(vehicles_count=0, lanes_count=2), dict(vehicles_count=2, lanes_count=2, controlled_vehicles=2), dict(vehicles_count=3, lanes_count=1, vehicles_density=0.7),
           dict(vehicles_count=2, lanes_count=3, other_vehicles_type="highway_env.vehicle.behavior.AggressiveVehicle"),
           dict(vehicles_count=2, lanes_count=3, action={"type": "ContinuousAction"})]


def highway(ctx, k, dev):
    config = HIGHWAY[k]
    kind = config.get("other_vehicles_type", "highway_env.vehicle.behavior.IDMVehicle").rsplit(".")[-1]
    lanes = config["lanes_count"]
    for taken, env in resets(ctx, "highway-v0", config, dev):
        case = dict(config=config, answers=taken)
        n = config.get("controlled_vehicles", 1)
        cars = env.road.vehicles
        ctx.check(len(env.controlled_vehicles) == n and len(cars) == n + config["vehicles_count"], "highway/count", "%d vehicles, %d controlled" % (len(cars), len(env.controlled_vehicles)), **case)
        fresh(ctx, "highway", env, case)
        disjoint(ctx, "highway", cars, case)
        front = None
        for v in cars:
            ego = any(v is c for c in env.controlled_vehicles)
            s = on_lane(ctx, "highway", v, v.lane_index, case)
            if ego:
                ctx.check(v.speed == 25, "highway/ego-speed", "the ego-vehicle starts at %s m/s" % v.speed, **case)
                if config.get("initial_lane_id") is not None:
                    ctx.check(v.lane_index[2] == config["initial_lane_id"], "highway/ego-lane", "the ego-vehicle starts on lane %s" % (v.lane_index,), **case)
            else:
                ctx.check(type(v).__name__ == kind, "highway/kind", "a %s among the traffic" % type(v).__name__, **case)
                ctx.check(23 - 1e-6 <= v.speed <= 25 + 1e-6, "highway/speed", "a vehicle starts at %s m/s" % v.speed, **case)
            gap = default_gap(v.speed, lanes, config.get("ego_spacing", 2) if ego else 1 / config.get("vehicles_density", 1))
            if front is not None:
                ctx.check(0.9 * gap - 1e-6 <= s - front <= 1.1 * gap + 1e-6, "highway/gap", "%s m in front of the last one, expected about %s" % (s - front, gap), **case)
            front = s
        ctx.state((k, tuple((v.lane_index[2], round(float(v.position[0]), 3), round(float(v.speed), 3)) for v in cars)))
        ctx.outcome("highway, ego on lane %d" % cars[0].lane_index[2])
    ctx.sample(case)


def merge(ctx):
    for taken, env in resets(ctx, "merge-v0", {}, 1):
        case = dict(answers=taken)
        cars, ego = env.road.vehicles, env.vehicle
        ctx.check(len(cars) == 5 and len(env.controlled_vehicles) == 1, "merge/count", "%d vehicles" % len(cars), **case)
        fresh(ctx, "merge", env, case)
        disjoint(ctx, "merge", cars + env.road.objects, case)
        for v in cars:
            on_lane(ctx, "merge", v, v.lane_index, case)
            ctx.check(19 < v.speed < 32, "merge/speed", "a vehicle starts at %s m/s" % v.speed, **case)
        ctx.check(ego.lane_index[:2] == ("a", "b") and ego.speed == 30, "merge/ego", "the ego-vehicle starts on %s at %s m/s" % (ego.lane_index, ego.speed), **case)
        ramp = [v for v in cars if v.lane_index[:2] == ("j", "k")]
        ctx.check(len(ramp) == 1 and ramp[0] is not ego and ramp[0].target_speed == 30 and ramp[0].speed == 20, "merge/ramp",
                  "vehicles on the ramp: %s" % [(v.speed, v.target_speed) for v in ramp], **case)
        ctx.check(sum(v.lane_index[:2] == ("a", "b") for v in cars) == 4, "merge/highway", "the vehicles are on %s" % [v.lane_index for v in cars], **case)
        ctx.check(any(v.lane_index == ego.lane_index and v.position[0] > ego.position[0] for v in cars), "merge/front", "no vehicle in front of the ego-vehicle", **case)
        ctx.state(tuple(np.round(np.concatenate([v.position for v in cars]), 2)))
        ctx.outcome("merge")
    ctx.sample(case)


def two_way(ctx, dev):
    for taken, env in resets(ctx, "two-way-v0", {}, dev):
        case = dict(answers=taken)
        cars, ego = env.road.vehicles, env.vehicle
        ctx.check(len(cars) == 6 and len(env.controlled_vehicles) == 1, "two_way/count", "%d vehicles" % len(cars), **case)
        fresh(ctx, "two_way", env, case)
        ctx.check(ego.lane_index == ("a", "b", 1) and ego.speed == 30, "two_way/ego", "the ego-vehicle starts on %s at %s m/s" % (ego.lane_index, ego.speed), **case)
        on_lane(ctx, "two_way", ego, ("a", "b", 1), case)
        same, opposite = [], []
        for v in cars:
            if v is ego:
                continue
            forward = np.cos(v.heading) > 0
            (same if forward else opposite).append(v)
            index = ("a", "b", 1) if forward else ("b", "a", 0)
            on_lane(ctx, "two_way", v, index, case)
            ctx.check(tuple(v.target_lane_index) == index, "two_way/target", "%s follows the lane %s" % (v, v.target_lane_index), **case)
            ctx.check(not v.enable_lane_change, "two_way/lane-change", "%s may change lanes" % v, **case)
            ctx.check(v.position[0] > ego.position[0], "two_way/behind", "%s starts behind the ego-vehicle" % v, **case)
            ctx.check(v.speed > 5, "two_way/speed", "%s starts at %s m/s" % (v, v.speed), **case)
        ctx.check(len(same) == 3 and len(opposite) == 2, "two_way/directions", "%d vehicles in front, %d in the opposite direction" % (len(same), len(opposite)), **case)
        ctx.state(tuple(np.round(np.concatenate([v.position for v in cars]), 2)))
        ctx.outcome("two way")
    ctx.sample(case)


def roundabout(ctx, k, dev):
    config = [dict(), dict(incoming_vehicle_destination=1), dict(other_vehicles_type="highway_env.vehicle.behavior.LinearVehicle"),
              dict(incoming_vehicle_destination=0), dict(incoming_vehicle_destination=2)][k]
    if k >= 2:
        dev = 1
    seen = set()
    for taken, env in resets(ctx, "roundabout-v0", config, dev):
        case = dict(config=config, answers=taken)
        cars, ego = env.road.vehicles, env.vehicle
        ctx.check(len(cars) == 5 and len(env.controlled_vehicles) == 1, "roundabout/count", "%d vehicles" % len(cars), **case)
        fresh(ctx, "roundabout", env, case)
        disjoint(ctx, "roundabout", cars, case)
        on_lane(ctx, "roundabout", ego, ("ser", "ses", 0), case)
        ctx.check(ego.speed == 8 and [(ego.SPEED_MIN, ego.SPEED_MAX, ego.SPEED_COUNT)] == [(0, 16, 3)] and ego.target_speed == 8 and ego.speed_index == 1, "roundabout/ego",
                  "the ego-vehicle starts at %s m/s with the target %s" % (ego.speed, ego.target_speed), **case)
        ctx.check(ego.route and ego.route[-1][1] == "nxs", "roundabout/ego-route", "the route of the ego-vehicle is %s" % ego.route, **case)
        ring = entering = 0
        for v in cars:
            if v is ego:
                continue
            s, r = v.lane.local_coordinates(v.position)
            ctx.check(abs(r) < 1e-3, "roundabout/position", "%s is not on a lane" % v, **case)
            ctx.check(12 - 1e-6 <= v.speed <= 20 + 1e-6, "roundabout/speed", "%s starts at %s m/s" % (v, v.speed), **case)
            end = v.route[-1][1] if v.route else None
            ctx.check(end in ("exr", "sxr", "nxr"), "roundabout/destination", "the route of %s is %s" % (v, v.route), **case)
            seen.add(end)
            radius = np.linalg.norm(v.position)
            on_ring = radius < 30
            ring += on_ring
            entering += v.lane_index[:2] == ("eer", "ees")
            # counter-clockwise when seen on screen
            if on_ring:
                ctx.check(v.position[0] * np.sin(v.heading) - v.position[1] * np.cos(v.heading) < 0, "roundabout/direction", "%s drives the wrong way" % v, **case)
        outer = [v for v in cars if v is not ego and 22 < np.linalg.norm(v.position) < 30]
        ctx.check(ring == 3 and entering == 1 and len(outer) == 1, "roundabout/places", "%d vehicles on the ring (%d on the outer lane), %d entering" % (ring, len(outer), entering), **case)
        if "incoming_vehicle_destination" in config:
            ctx.check(outer[0].route[-1][1] == ("exr", "sxr", "nxr")[config["incoming_vehicle_destination"]], "roundabout/incoming", "the incoming vehicle goes to %s" % outer[0].route[-1][1], **case)
        ctx.state((k, tuple(np.round(np.concatenate([v.position for v in cars]), 2)), tuple(v.route[-1][1] for v in cars)))
        ctx.outcome("roundabout")
    ctx.check(seen == {"exr", "sxr", "nxr"}, "roundabout/destinations", "the traffic only ever goes to %s" % seen)
    ctx.sample(case)


def lane_keeping(ctx):
    for taken, env in resets(ctx, "lane-keeping-v0", dict(state_noise=0.0, derivative_noise=0.0), 1):
        case = dict(answers=taken)
        fresh(ctx, "lane_keeping", env, case)
        lane = env.road.network.get_lane(("c", "d", 0))
        s, r = lane.local_coordinates(env.vehicle.position)
        ctx.check(len(env.road.vehicles) == 1 and lane.on_lane(env.vehicle.position) and abs(hw.wrap(env.vehicle.heading - lane.heading_at(s))) < 1e-6 and env.vehicle.speed == 8.3, "lane_keeping/start",
                  "starts %s m beside the lane with heading %s at %s m/s" % (r, env.vehicle.heading, env.vehicle.speed), **case)
        ctx.state(tuple(env.vehicle.position))
        ctx.outcome("lane keeping")
    ctx.sample(case)


def parking(ctx, name, agents):
    goals, headings = set(), set()
    for taken, env in resets(ctx, name, dict(controlled_vehicles=agents), None):
        case = dict(answers=taken)
        cars = env.road.vehicles
        ctx.check(len(cars) == agents == len(env.controlled_vehicles), "parking/count", "%d vehicles" % len(cars), **case)
        fresh(ctx, "parking", env, case)
        disjoint(ctx, "parking", cars, case)
        spots = env.road.network.lanes_list()
        for v in cars:
            ctx.check(v.speed == 0, "parking/speed", "%s starts at %s m/s" % (v, v.speed), **case)
            ctx.check(abs(v.position[1]) < 5, "parking/aisle", "%s does not start between the rows" % v, **case)
            headings.add(round(float(hw.wrap(v.heading)), 2))
        goal = env.goal
        ctx.check(len(env.road.objects) == 1 and env.road.objects[0] is goal, "parking/goal", "the objects are %s" % env.road.objects, **case)
        at = [i for i, lane in enumerate(spots) if np.allclose(goal.position, lane.position(lane.length / 2, 0)) and abs(hw.wrap(goal.heading - lane.heading_at(lane.length / 2))) < 1e-6]
        ctx.check(len(at) == 1, "parking/spot", "the goal at %s, heading %s, is not at the centre of a spot" % (goal.position, goal.heading), **case)
        goals.update(at)
        ctx.state((name, agents, at[0], tuple(round(float(v.heading), 2) for v in cars)))
        ctx.outcome("goal in row %d" % (at[0] // 15))
    ctx.check(len(goals) == 30, "parking/all-spots", "only %d spots can be goals" % len(goals))
    ctx.check(len(headings) >= 2, "parking/headings", "the initial heading is always %s" % headings)
    ctx.sample(case)


def summon(ctx, name, count, dev):
    sides, kinds = set(), set()
    for taken, env in resets(ctx, name, dict(vehicles_count=count), dev):
        case = dict(answers=taken, vehicles_count=count)
        ego, cars = env.vehicle, env.road.vehicles
        ctx.check(1 <= len(cars) <= count + 1, "summon/count", "%d vehicles" % len(cars), **case)
        fresh(ctx, "summon", env, case)
        net = env.road.network
        spots = net.graph["a"]["b"] + net.graph["b"]["c"]
        ctx.check(ego.speed == 0 and any(np.allclose(ego.position, lane.position(lane.length / 2, 0)) for lane in spots), "summon/ego", "the vehicle starts at %s, %s m/s" % (ego.position, ego.speed), **case)
        parked = []
        for v in cars:
            if v is ego:
                continue
            ctx.check(np.linalg.norm(v.position - ego.position) >= 20 - 1e-6, "summon/distance", "%s starts close to the vehicle" % v, **case)
            if v.speed == 0:
                parked.append(v)
                kinds.add("parked")
                ctx.check(sum(np.allclose(v.position, lane.position(lane.length / 2, 0)) and abs(hw.wrap(v.heading - lane.heading_at(4))) < 1e-6 for lane in spots) == 1, "summon/parked",
                          "%s is not parked in a spot" % v, **case)
            else:
                kinds.add("moving")
                ctx.check(v.speed == 2 and v.lane_index[:2] == ("d", "e"), "summon/moving", "%s moves at %s m/s on %s" % (v, v.speed, v.lane_index), **case)
                on_lane(ctx, "summon", v, v.lane_index, case)
        disjoint(ctx, "summon", parked + [ego], case)
        goal = env.goal
        ctx.check(len(env.road.objects) == 1 and env.road.objects[0] is goal and abs(goal.position[1]) < 1e-6 and abs(goal.position[0]) > 30
                  and abs(np.sin(goal.heading)) < 1e-6, "summon/goal", "the goal is at %s, heading %s" % (goal.position, goal.heading), **case)
        sides.add(goal.position[0] > 0)
        ctx.state((name, count, tuple(np.round(np.concatenate([v.position for v in cars] + [goal.position]), 2)), round(float(ego.heading), 3)))
        ctx.outcome("summon, %d parked" % len(parked))
    ctx.check(len(sides) == 2, "summon/sides", "the goal is always on the same side")
    if count >= 3:
        ctx.check(kinds == {"parked", "moving"}, "summon/kinds", "the other vehicles are always %s" % kinds)
    ctx.sample(case)


CROSSINGS = [("intersection-v0", dict(initial_vehicle_count=2)), ("intersection-v0", dict(initial_vehicle_count=3, destination=None)), ("intersection-v0", dict(initial_vehicle_count=1)),
             ("intersection-multi-agent-v0", dict(initial_vehicle_count=2)), ("intersection-multi-agent-v0", dict(initial_vehicle_count=2, controlled_vehicles=4)),
             ("intersection-multi-agent-v1", dict(initial_vehicle_count=2)),
             ("intersection-v0", dict(initial_vehicle_count=3, other_vehicles_type="highway_env.vehicle.behavior.DefensiveVehicle"))]


def intersection(ctx, k, part, dev):
    name, config = CROSSINGS[k]
    config = dict(config, simulation_frequency=5, policy_frequency=1)
    kind = config.get("other_vehicles_type", "highway_env.vehicle.behavior.IDMVehicle").rsplit(".")[-1]
    env = envs.raw(name, config if name != "intersection-multi-agent-v1" else None)
    env.unwrapped.configure(dict(config))
    env.seed(0)
    # parts: the answers to the first draws differ
    def run(ch):
        env.unwrapped.np_random = ch
        env.reset()
        return env.unwrapped
    quantiles = [(0.5, 0.0, 1 - 1e-9), (0.2, 0.7, 0.95), (0.0, 0.45, 0.9), (0.35, 0.1, 0.8)][part]
    for taken, e in choice.explore(run, quantiles=quantiles, deviations=dev, max_runs=200000):
        ctx.trace()
        ctx.trans()
        case = dict(env=name, config=config, answers=taken, quantiles=quantiles)
        agents = e.controlled_vehicles
        n = config.get("controlled_vehicles", 1 if name == "intersection-v0" else 2)
        others = [v for v in e.road.vehicles if not any(v is c for c in agents)]
        ctx.check(len(agents) == n, "intersection/agents", "%d controlled vehicles" % len(agents), **case)
        ctx.check(len(others) <= config["initial_vehicle_count"], "intersection/count", "%d other vehicles" % len(others), **case)
        fresh(ctx, "intersection", e, case)
        disjoint(ctx, "intersection", e.road.vehicles, case)
        for i, c in enumerate(agents):
            index = ("o%d" % (i % 4), "ir%d" % (i % 4), 0)
            s = on_lane(ctx, "intersection", c, index, case)
            ctx.check(50 - 1e-6 <= s <= 70 + 1e-6, "intersection/ego-position", "agent %d starts at %s m" % (i, s), **case)
            ctx.check(c.speed == 10, "intersection/ego-speed", "agent %d starts at %s m/s" % (i, c.speed), **case)
            ctx.check((c.SPEED_MIN, c.SPEED_MAX, c.SPEED_COUNT) == (0, 9, 3) and c.speed_index == 2 and c.target_speed == 9, "intersection/ego-target", "agent %d has the target speed %s" % (i, c.target_speed), **case)
            destination = e.config["destination"]
            end = c.route[-1][1] if c.route else None
            ctx.check(tuple(c.route[0]) == index and (end == destination if destination else end in ("o1", "o2", "o3")), "intersection/ego-route", "the route of agent %d is %s" % (i, c.route), **case)
            for a, b in zip(c.route, c.route[1:]):
                ctx.check(a[1] == b[0], "intersection/route", "the route of agent %d is broken: %s" % (i, c.route), **case)
            ctx.check(all(np.linalg.norm(v.position - c.position) >= 20 - 1e-6 for v in others), "intersection/distance", "a vehicle starts close to agent %d" % i, **case)
        for v in others:
            ctx.check(type(v).__name__ == kind, "intersection/kind", "a %s among the traffic" % type(v).__name__, **case)
            ctx.check(v.route and v.route[-1][1] in ("o0", "o1", "o2", "o3"), "intersection/other-route", "%s has the route %s" % (v, v.route), **case)
            ctx.check(v.on_road, "intersection/on-road", "%s is off the road" % v, **case)
        ctx.state((k, tuple(np.round(np.concatenate([v.position for v in e.road.vehicles]), 2))))
        ctx.outcome("intersection, %d others" % len(others))
    ctx.sample(case)


def behaviours(ctx):
    """Randomised drivers stay within the ranges of their class."""
    net = hw.straight(2, 1000)

    def run(ch):
        road = hw.make_road(net)
        road.np_random = ch
        v = hw.LinearVehicle(road, [0, 0], 0, 20)
        v.randomize_behavior()
        return v
    for taken, v in choice.explore(run):
        for params, box in ((v.ACCELERATION_PARAMETERS, v.ACCELERATION_RANGE), (v.STEERING_PARAMETERS, v.STEERING_RANGE)):
            box = np.asarray(box)
            ctx.check(np.shape(params) == box[0].shape and np.all(params >= box.min(0) - 1e-9) and np.all(params <= box.max(0) + 1e-9), "behaviour/range", "parameters %s outside of %s" % (params, box), answers=taken)
            ctx.trans()
        ctx.state(tuple(np.round(np.concatenate([np.ravel(v.ACCELERATION_PARAMETERS), np.ravel(v.STEERING_PARAMETERS)]), 4)))
        ctx.trace()
    other = hw.LinearVehicle(hw.make_road(net), [0, 0], 0, 20)
    ctx.check(np.all(np.asarray(other.ACCELERATION_PARAMETERS) == np.asarray(hw.LinearVehicle.ACCELERATION_PARAMETERS)), "behaviour/shared", "randomising a driver changed the other ones")
    ctx.outcome("behaviours")
    ctx.sample(dict(parameters=list(np.ravel(v.ACCELERATION_PARAMETERS))))
