"""C29: predicted trajectories are the trajectories that the vehicles then follow."""
import copy
import itertools

import numpy as np

from vk import envs, freeze, hw, ref

PROP = "C29"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "predict_trajectory: all sequences of 3 meta-actions, from starts on every kind of road (straight, merging, two-way, intersection, roundabout) x lateral offset x heading x speed, 5 "
             "timings, against a twin driven by the same actions and against env.step; displayed plans for 8 pairs of frequencies; constant speed: every route of the intersection and of every other "
             "road, 12 positions x 3 offsets x 6 speeds x 2 lists of times, and every frame of an actual drive along the route",
    "thorough": "sequences of length 4, 5 offsets, 24 positions, all starts"}
ASSUMPTIONS = ["the vehicle meets no other vehicle during the predicted time (predictions ignore them)",
               "constant speed predictions need routes whose roads have a single lane or whose lanes are all given (as in the intersections, where they are used)"]

ACTIONS = ("LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER")
# action duration, time between saved states, time step: exact binary fractions
TIMINGS = [(0.5, 0.25, 0.125), (0.25, 0.125, 0.0625), (0.5, 0.5, 0.25), (0.25, 0.75, 0.125), (0.25, 0.03125, 0.125)]


def starts(tier_quick):
    """(environment, lane index, position along it, destination)"""
    out = [("highway-v0", ("0", "1", k), 100.0, None) for k in range(3)]
    out += [("merge-v0", ("a", "b", 0), 130.0, None), ("merge-v0", ("b", "c", 2), 20.0, None), ("merge-v0", ("j", "k", 0), 95.0, None)]
    out += [("two-way-v0", ("a", "b", 1), 30.0, None), ("roundabout-v0", ("ser", "ses", 0), 110.0, "nxr"), ("roundabout-v0", ("se", "ex", 0), 8.0, "nxs"),
            ("roundabout-v0", ("ex", "ee", 1), 5.0, "wxr")]
    out += [("intersection-v0", ("o%d" % i, "ir%d" % i, 0), 95.0, "o%d" % j) for i in range(4) for j in range(4) if i != j]
    return out


def tasks(tier, seed):
    q = tier == "quick"
    out = [("trajectory", (k, q)) for k in range(len(starts(q)))]
    out += [("future", (n, first, q)) for n in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0") for first in range(5 if n not in ("intersection-v0",) else 3)]
    out += [("displayed", ())]
    out += [("constant", (i, q)) for i in range(4)] + [("constant_elsewhere", ())]
    out += [("drive", (i, q)) for i in range(4)]
    return out


def empty(name, seed=3, **extra):
    env, _ = envs.light(name, seed, **extra)
    env.road.vehicles = []
    env.road.objects = []
    return env


def state(v):
    return np.array([v.position[0], v.position[1], v.heading, v.speed, v.target_speed, getattr(v, "speed_index", 0), v.target_lane_index[2] or 0], dtype=float)


def same(a, b):
    return np.allclose(state(a), state(b), atol=1e-7) and a.target_lane_index[:2] == b.target_lane_index[:2]


def trajectory(ctx, k, quick):
    name, index, s, destination = starts(quick)[k]
    env = empty(name)
    env.road.np_random.seed(5)
    lane = env.road.network.get_lane(index)
    depth = 3 if quick else 4
    passer = hw.IDMVehicle(env.road, [-5000.0, 0.0], 0.0, 20.0)
    for lat, dh, speed in itertools.product((0.0, 0.7) if quick else (0.0, 0.7, -1.2), (0.0, 0.1), (20.0, 26.5) if name != "intersection-v0" else (8.0,)):
        veh = hw.MDPVehicle(env.road, lane.position(s, lat), lane.heading_at(s) + dh, speed)
        if destination:
            veh.plan_route_to(destination)
        env.road.vehicles = [veh, passer]
        before = freeze.digest(veh)
        for n, seq in enumerate(itertools.product(ACTIONS, repeat=depth)):
            timing = TIMINGS[n % len(TIMINGS)]
            duration, save, dt = timing
            got = veh.predict_trajectory(list(seq), duration, save, dt)
            case = dict(start=starts(quick)[k], lateral=lat, heading=dh, speed=speed, actions=seq, timing=timing)
            if n % 25 == 0:
                ctx.check(freeze.digest(veh) == before, "trajectory/side-effect", "predicting changed the vehicle, its road or the random generator", **case)
            twin = copy.deepcopy(veh)
            want, t = [], 0
            for a in seq:
                twin.act(a)
                for _ in range(int(duration / dt)):
                    t += 1
                    twin.act()
                    twin.step(dt)
                    if t % max(int(save / dt), 1) == 0:
                        want.append((state(twin), twin.target_lane_index))
            ctx.check(len(got) == len(want), "trajectory/length", "%d states predicted, expected %d" % (len(got), len(want)), **case)
            for i, (g, (w, target)) in enumerate(zip(got, want)):
                ctx.check(np.allclose(state(g), w, atol=1e-7) and tuple(g.target_lane_index[:2]) == tuple(target[:2]), "trajectory/state",
                          "state %d of the prediction: %s, the vehicle reaches %s" % (i, state(g), w), **case)
            ctx.trans(len(want))
            ctx.state((k, lat, dh, speed, seq, timing))
            ctx.trace()
        ctx.check(freeze.digest(veh) == before, "trajectory/side-effect", "predicting changed the vehicle, its road or the random generator", **case)
        ctx.outcome("%s: %s" % (name, "turned" if abs(hw.wrap(got[-1].heading - veh.heading)) > 0.3 else "straight"))
    ctx.sample(case)


def future(ctx, name, first, quick):
    """Against the environment itself, for every rate of decisions."""
    depth = 3 if quick else 4
    for sim, pol in ((15, 5), (12, 1), (10, 2), (6, 2)):
        extra = dict(spawn_probability=0.0) if name.startswith("intersection") else {}
        env = empty(name, simulation_frequency=sim, policy_frequency=pol, duration=1000, offroad_terminal=False, **extra)
        home = copy.deepcopy(env)
        veh0 = env.controlled_vehicles[0]
        acts = env.action_type.actions
        for rest in itertools.product(sorted(acts), repeat=depth - 1):
            seq = (first,) + rest
            if pol == 1 and seq[0] == seq[1]:
                continue
            e = copy.deepcopy(home)
            v = e.controlled_vehicles[0]
            e.road.vehicles = [v]
            n = sim // pol
            got = v.predict_trajectory([acts[a] for a in seq], 1 / pol + 1e-9, 1 / sim + 1e-9, 1 / sim)
            case = dict(env=name, actions=[acts[a] for a in seq], frequencies=(sim, pol))
            ctx.check(len(got) == n * depth, "future/length", "%d states, expected %d" % (len(got), n * depth), **case)
            for i, a in enumerate(seq):
                _, _, done, _ = e.step(a)
                if v.crashed:
                    break
                if done and i < depth - 1 and name not in ("highway-v0", "two-way-v0"):
                    break
                g = got[(i + 1) * n - 1]
                ctx.check(np.allclose(state(g), state(v), atol=1e-6), "future/%s" % name, "predicted %s, happened %s after action %d" % (state(g), state(v), i), **case)
                ctx.trans()
                ctx.state((name, sim, tuple(np.round(state(v), 4))))
            ctx.trace()
            ctx.outcome("%s" % acts[seq[-1]])
    ctx.sample(case)


def displayed(ctx):
    """The plan that the viewer shows."""
    import os
    os.environ.pop("SDL_VIDEODRIVER", None)
    for sim, pol in ((15, 1), (15, 5), (5, 5), (10, 5), (5, 2), (5, 1), (30, 5), (7, 3)):
        home, _ = envs.light("highway-v0", 2, simulation_frequency=sim, policy_frequency=pol, vehicles_count=1, screen_width=100, screen_height=50, duration=1000)
        home.road.vehicles = [home.vehicle]
        home.configure({"offscreen_rendering": True})
        for seq in itertools.product(range(5), repeat=2):
            env = copy.deepcopy(home)
            env.render("rgb_array")
            env.viewer.set_agent_action_sequence(list(seq))
            plan = env.viewer.vehicle_trajectory
            case = dict(frequencies=(sim, pol), actions=seq)
            ctx.check(plan is not None and len(plan) > 0, "displayed/empty", "no plan", **case)
            # every state of the plan is on the trajectory
            road, v = [], copy.deepcopy(env.vehicle)
            for a in seq:
                v.act(env.action_type.actions[a])
                for _ in range(sim // pol):
                    v.act()
                    v.step(1 / sim)
                    road.append(state(v))
            for p in plan:
                ctx.check(any(np.allclose(state(p), w, atol=1e-6) for w in road), "displayed/state", "%s is not a state that the vehicle reaches" % state(p), **case)
                ctx.trans()
            ctx.check(np.allclose(state(plan[-1]), road[-1], atol=1e-6) or sim // pol % max(sim // pol // 3, 1), "displayed/end", "the plan ends at %s, the vehicle at %s" % (state(plan[-1]), road[-1]), **case)
            ctx.state((sim, pol, seq))
            env.close()
            ctx.trace()
            ctx.outcome("plan of %d states" % len(plan))
    ctx.sample(case)


def along(net, route, s):
    """Position and heading at a distance along the centre of the lanes of a route; None too close to an end."""
    for i, index in enumerate(route):
        lane = net.get_lane(index)
        if i == len(route) - 1 or s < lane.length - 1e-6:
            return lane.position(s, 0), lane.heading_at(s)
        if s < lane.length + 1e-6:
            return None
        s -= lane.length


TIMES = [np.arange(0.5, 3, 0.25), [0.0, 4.0, 1.0, 7.5]]


def judge(ctx, net, veh, route, s, speed, times, case, key):
    pos, heads = veh.predict_trajectory_constant_speed(times)
    ctx.check(len(pos) == len(heads) == len(times), key + "/length", "%d positions and %d headings for %d times" % (len(pos), len(heads), len(times)), **case)
    for t, p, h in zip(times, pos, heads):
        want = along(net, route, s + speed * t)
        if want is None:
            continue
        ctx.check(np.allclose(p, want[0], atol=1e-5), key + "/position", "predicted at %s in %s s, expected %s" % (p, t, want[0]), **case)
        ctx.check(abs(hw.wrap(h - want[1])) < 1e-6, key + "/heading", "predicted heading %s in %s s, expected %s" % (h, t, want[1]), **case)
        ctx.trans()


def constant(ctx, i, quick):
    env = empty("intersection-v0")
    net = env.road.network
    for j in range(4):
        if i == j:
            continue
        full = [("o%d" % i, "ir%d" % i, 0), ("ir%d" % i, "il%d" % j, 0), ("il%d" % j, "o%d" % j, 0)]
        for part in range(3):
            lane = net.get_lane(full[part])
            for x in np.linspace(0.01, 0.95, 12 if quick else 24):
                s = float(x * lane.length)
                for lat in (0.0, 0.8, -1.1) if quick else (0.0, 0.3, 0.8, -0.5, -1.1):
                    for speed in (0.0, 2.0, 5.5, 9.0, 13.0, 30.0):
                        veh = hw.IDMVehicle(env.road, lane.position(s, lat), lane.heading_at(s), speed)
                        if veh.lane_index != full[part]:
                            continue        # crossing lanes
                        veh.plan_route_to("o%d" % j)
                        if part == 2:
                            veh.route = [full[2]]
                        before = freeze.value(veh.route)
                        for times in TIMES:
                            case = dict(route=full[part:], s=s, lateral=lat, speed=speed, times=list(times))
                            judge(ctx, net, veh, full[part:], s, speed, times, case, "constant")
                            ctx.state((i, j, part, round(s, 4), lat, speed, len(times)))
                        ctx.check(freeze.value(veh.route) == before, "constant/side-effect", "predicting changed the route to %s" % (veh.route,), **case)
            ctx.outcome("part %d" % part)
        # no route: the lane itself
        for s in (5.0, 40.0, 97.0):
            lane = net.get_lane(full[0])
            veh = hw.IDMVehicle(env.road, lane.position(s, 0.2), lane.heading_at(s), 6.0)
            judge(ctx, net, veh, [full[0]], s, 6.0, TIMES[0], dict(lane=full[0], s=s), "constant/no-route")
        ctx.trace()
    ctx.sample(case)


def constant_elsewhere(ctx):
    """Vehicles without a route, or with all the lanes of the route given, on roads with several lanes."""
    for name in ("highway-v0", "merge-v0", "two-way-v0", "roundabout-v0"):
        env = empty(name)
        net = env.road.network
        for a, tos in net.graph.items():
            for b, lanes in tos.items():
                for i, lane in enumerate(lanes):
                    for x in (0.1, 0.5, 0.9):
                        s = x * lane.length
                        for speed in (0.0, 8.0, 25.0):
                            veh = hw.IDMVehicle(env.road, lane.position(s, 0.4), lane.heading_at(s), speed)
                            if veh.lane_index != (a, b, i):
                                continue
                            case = dict(env=name, lane=(a, b, i), s=s, speed=speed)
                            judge(ctx, net, veh, [(a, b, i)], s, speed, TIMES[0], case, "elsewhere/no-route")
                            for c, nexts in net.graph.get(b, {}).items():
                                for k in range(len(nexts)):
                                    veh.route = [(a, b, i), (b, c, k)]
                                    judge(ctx, net, veh, list(veh.route), s, speed, TIMES[1], dict(case, route=list(veh.route)), "elsewhere/route")
                                    ctx.state((name, a, b, i, c, k, x, speed))
                            ctx.state((name, a, b, i, x, speed))
                    ctx.outcome(name)
        ctx.trace()
    ctx.sample(case)


def drive(ctx, i, quick):
    """At each frame of a drive along a route, predictions start where the vehicle is and agree with where it goes."""
    env = empty("intersection-v0")
    net = env.road.network
    dt = 1 / 15
    for j in range(4):
        if i == j:
            continue
        for speed in (4.0, 7.0, 9.5) if quick else (3.0, 4.0, 5.5, 7.0, 8.3, 9.5):
            lane = net.get_lane(("o%d" % i, "ir%d" % i, 0))
            veh = hw.ControlledVehicle(env.road, lane.position(70.0, 0), lane.heading_at(70.0), speed, target_speed=speed)
            veh.plan_route_to("o%d" % j)
            env.road.vehicles = [veh]
            times = [0.0, 0.5, 1.0, 2.0]
            path, predictions = [], []
            for f in range(int(100 / speed / dt)):
                path.append(np.array(veh.position))
                predictions.append(veh.predict_trajectory_constant_speed(times)[0])
                veh.act()
                veh.step(dt)
            worst = 0
            for f, positions in enumerate(predictions):
                for t, p in zip(times, positions):
                    g = f + t / dt
                    if g > len(path) - 2:
                        continue
                    actual = path[int(g)] + (g - int(g)) * (path[int(g) + 1] - path[int(g)])
                    d = float(np.linalg.norm(p - actual))
                    worst = max(worst, d)
                    ctx.check(d < 2.5, "drive/prediction", "predicted %.1f m away from where the vehicle is in %s s" % (d, t), route=(i, j), speed=speed, frame=f, position=path[f])
                    ctx.trans()
                ctx.state((i, j, speed, f))
            ctx.trace()
            ctx.outcome("error below %.1f m" % (np.ceil(worst * 2) / 2))
    ctx.sample(dict(route=(i, j), speed=speed, worst=worst))
