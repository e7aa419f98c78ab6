"""C10: discrete meta-actions change the set-points as documented."""
import copy
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle

PROP = "C10"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "highway-v0 with 1-4 lanes, with and without forbidden lanes: all meta-action sequences of length 3 (one policy step each) from "
             "every lane and 3 speeds, for the full, longitudinal and lateral action sets; vehicle level: all sequences of length 5 with "
             "holds of 1 or 6 frames; every action at every step of an episode of merge, roundabout, two-way and intersection; all speed "
             "ranges of a menu x 60 speeds",
    "thorough": "sequences of length 5 (environment) and 6 (vehicle)"}
ASSUMPTIONS = ["speeds half-way between two allowed speeds (within 1e-6) and positions within 1e-6 of a reachability limit are not judged",
               "unavailable = IDLE is claimed when the vehicle is in its target lane and closest to its target speed"]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for lanes in (1, 2, 3, 4):
        for start in range(lanes):
            for mode in ("full", "longitudinal", "lateral"):
                if mode == "full" or not q or lanes == 3:
                    out.append(("highway", (lanes, start, mode, None, 3 if q else 5)))
            if lanes == 3 and start == 1 or lanes >= 3 and not q:
                for forb in range(lanes):
                    if forb != start:
                        out.append(("highway", (lanes, start, "full", forb, 3 if q else 4)))
    for kind in ("mdp", "controlled"):
        for lane in range(3):
            out.append(("vehicle", (kind, lane, 4 if q else 5)))
    for e in ("merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0", "highway-v0"):
        for part in range(1 if q else 4):
            out.append(("envs", (e, part)))
    out.append(("indices", ()))
    return out


def reachable(lane, pos):
    s, r = lane.local_coordinates(pos)
    m = min(abs(abs(r) - 2 * lane.width_at(s)), abs(s), abs(s - lane.length - 5))
    if m < 1e-6 and not lane.forbidden:
        return None
    return not lane.forbidden and abs(r) <= 2 * lane.width_at(s) and 0 <= s < lane.length + 5


def grid(car):
    n = car.SPEED_COUNT
    return [car.SPEED_MIN + i * (car.SPEED_MAX - car.SPEED_MIN) / (n - 1) for i in range(n)] if n > 1 else [car.SPEED_MIN]


def nearest(speeds, v):
    d = [abs(v - x) for x in speeds]
    i = int(np.argmin(d))
    rest = sorted(d)
    if len(rest) > 1 and rest[1] - rest[0] < 1e-6:
        return None
    return i


def expected(car, network, label):
    """Set-points after the action: (lane, speed), None where it is too close to call."""
    lane, speed = tuple(car.target_lane_index), car.target_speed
    if label in ("LANE_LEFT", "LANE_RIGHT"):
        n = len(network.graph[lane[0]][lane[1]])
        i = min(max(lane[2] + (1 if label == "LANE_RIGHT" else -1), 0), n - 1)
        cand = (lane[0], lane[1], i)
        ok = reachable(network.get_lane(cand), car.position)
        lane = None if ok is None else cand if ok else lane
    if label in ("FASTER", "SLOWER"):
        d = 1 if label == "FASTER" else -1
        if isinstance(car, MDPVehicle):
            g = grid(car)
            i = nearest(g, car.speed)
            speed = None if i is None else g[min(max(i + d, 0), len(g) - 1)]
        else:
            speed = speed + d * car.DELTA_SPEED
    return lane, speed


def available(car, network, mode):
    labels = {"IDLE"}
    cur = tuple(car.lane_index)
    n = len(network.graph[cur[0]][cur[1]])
    unsure = False
    if mode != "longitudinal":
        for d, lab in ((-1, "LANE_LEFT"), (1, "LANE_RIGHT")):
            if 0 <= cur[2] + d < n:
                ok = reachable(network.get_lane((cur[0], cur[1], cur[2] + d)), car.position)
                unsure |= ok is None
                if ok:
                    labels.add(lab)
    if mode != "lateral":
        g = grid(car)
        if car.target_speed < g[-1] - 1e-9:
            labels.add("FASTER")
        if car.target_speed > g[0] + 1e-9:
            labels.add("SLOWER")
    return None if unsure else labels


LABELS = {"full": {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT", 3: "FASTER", 4: "SLOWER"},
          "longitudinal": {0: "SLOWER", 1: "IDLE", 2: "FASTER"},
          "lateral": {0: "LANE_LEFT", 1: "IDLE", 2: "LANE_RIGHT"}}


def make_env(name, mode, **config):
    import gym
    env = gym.make(name).unwrapped
    cfg = dict(config)
    if mode:
        cfg["action"] = {"type": "DiscreteMetaAction", "longitudinal": mode != "lateral", "lateral": mode != "longitudinal"}
    env.configure(cfg)
    env.seed(0)
    env.reset()
    return env


def place(env, lane_id, speed, x=200.0):
    """The ego-vehicle alone on a lane."""
    net = env.road.network
    lane = net.get_lane(("0", "1", lane_id))
    car = env.action_type.vehicle_class(env.road, lane.position(x, 0), lane.heading_at(x), speed)
    env.road.vehicles = [car]
    env.vehicle = car
    env.define_spaces()
    return car


def snapshot(car):
    return (round(float(car.position[0]), 9), round(float(car.position[1]), 9), round(float(car.heading), 9), round(float(car.speed), 9),
            tuple(car.target_lane_index), round(float(car.target_speed), 9))


def clone(car):
    c = copy.copy(car)
    c.position = car.position.copy()
    c.action = dict(car.action)
    return c


def install(env, car):
    env.road.vehicles = [car]
    env.vehicle = car
    env.time = env.steps = 0
    env.define_spaces()
    return car


def highway(ctx, lanes, start, mode, forb, depth):
    """Depth-first search over all action sequences; every node is judged."""
    env = make_env("highway-v0", mode, lanes_count=lanes, vehicles_count=1, duration=100, policy_frequency=1, simulation_frequency=6)
    labels = LABELS[mode]
    idle = [i for i, l in labels.items() if l == "IDLE"][0]
    ctx.check(env.action_space.n == len(labels), "space/%s" % mode, "%d actions" % env.action_space.n)
    net = env.road.network
    if forb is not None:
        net.get_lane(("0", "1", forb)).forbidden = True
    for speed in (20.0, 26.0, 30.0):
        stack = [(clone(place(env, start, speed)), ())]
        while stack:
            node, hist = stack.pop()
            for a in sorted(labels):
                label = labels[a]
                car = install(env, clone(node))
                av = available(car, net, mode)
                case = dict(lanes=lanes, start=start, mode=mode, forbidden=forb, speed=speed, actions=hist + (a,))
                if av is not None:
                    got = env.get_available_actions()
                    ctx.check(sorted(got) == sorted(set(got)) and {labels.get(g) for g in got} == av, "available/%s" % mode,
                              "available: %s, expected %s" % ([labels.get(g) for g in got], sorted(av)), **case)
                settled = tuple(car.lane_index) == tuple(car.target_lane_index) and \
                    nearest(grid(car), car.speed) == nearest(grid(car), car.target_speed)
                want = expected(car, net, label)
                lane_before = tuple(car.target_lane_index)
                env.step(a)
                if want[0] is not None:
                    ctx.check(tuple(car.target_lane_index) == want[0], "lane/%s" % label, "target lane %s, expected %s" %
                              (car.target_lane_index, want[0]), **case)
                if want[1] is not None:
                    ctx.check(abs(car.target_speed - want[1]) < 1e-9, "speed/%s" % label, "target speed %s, expected %s" %
                              (car.target_speed, want[1]), **case)
                if settled and av is not None and label not in av:
                    car2 = install(env, clone(node))
                    env.step(idle)
                    ctx.check(snapshot(car2) == snapshot(car), "unavailable/%s" % label, "%s, with IDLE %s" % (snapshot(car), snapshot(car2)), **case)
                    ctx.outcome("unavailable %s" % label)
                ctx.state((lanes, start, mode, forb, speed, hist + (a,)))
                ctx.trans()
                ctx.outcome("%s lane %+d" % (label, car.target_lane_index[2] - lane_before[2]))
                if len(hist) + 1 < depth:
                    stack.append((clone(car), hist + (a,)))
                else:
                    ctx.trace()
    ctx.sample(case)


def vehicle(ctx, kind, lane_id, depth):
    """The controllers themselves, with short and long holds between the actions (lane changes in progress, speeds in between)."""
    cls = MDPVehicle if kind == "mdp" else ControlledVehicle
    acts = ["IDLE", "LANE_LEFT", "LANE_RIGHT", "FASTER", "SLOWER"]
    for kind_net, speed in itertools.product(("straight", "oblique"), (20.0, 24.0)):
        from checks.c19 import net
        n = net(kind_net)
        road = hw.make_road(n)
        lane = n.get_lane(("0", "1", lane_id))
        stack = [(cls(road, lane.position(50, 0), lane.heading_at(0), speed), ())]
        while stack:
            car, hist = stack.pop()
            for a in acts:
                for hold in (1, 6) if len(hist) < 2 else (4,):
                    c = clone(car)
                    want = expected(c, n, a)
                    case = dict(kind=kind, lane=lane_id, road=kind_net, speed=speed, history=hist + ((a, hold),))
                    for f in range(hold):
                        c.act(a if f == 0 else ("IDLE" if f % 2 else None))
                        c.step(1 / 15)
                        if want[0] is not None:
                            ctx.check(tuple(c.target_lane_index) == want[0], "vehicle/lane", "%s, expected %s" % (c.target_lane_index, want[0]), **case)
                        if want[1] is not None:
                            ctx.check(abs(c.target_speed - want[1]) < 1e-9, "vehicle/speed", "%s, expected %s" % (c.target_speed, want[1]), **case)
                        ctx.trans()
                    ctx.state((kind, lane_id, kind_net, speed, hist, a, hold))
                    ctx.outcome("vehicle %s %s" % (a, tuple(c.target_lane_index)[2]))
                    if len(hist) + 1 < depth:
                        stack.append((c, hist + ((a, hold),)))
                    else:
                        ctx.trace()
    ctx.sample(case)


def envs(ctx, name, part):
    """Every action in every state along episodes of the environment; one frame per step."""
    mode = "longitudinal" if name == "intersection-v0" else "full"
    labels = LABELS[mode]
    for seed in range(part * 2, part * 2 + 2):
        for pattern in (((1,), ) if name != "intersection-v0" else ()) + ((2, 1, 1, 1), (0, 1, 1, 1), (max(labels) - 1 if mode == "full" else 2, 1), (max(labels) if mode == "full" else 0, 1, 1)):
            env = make_env(name, None, policy_frequency=15, simulation_frequency=15, duration=40, vehicles_count=10)
            env.seed(seed)
            env.reset()
            for t in range(60):
                car = env.vehicle
                if car.crashed:
                    break
                net = env.road.network
                busy = net.get_lane(car.target_lane_index).after_end(car.position)
                case = dict(env=name, seed=seed, pattern=pattern, step=t)
                av = available(car, net, mode)
                if av is not None:
                    got = {labels.get(a) for a in env.get_available_actions()}
                    ctx.check(got == av, "envs/available", "available %s, expected %s" % (sorted(map(str, got)), sorted(av)), **case)
                for a in labels:
                    if t % 5 and a != pattern[t % len(pattern)]:
                        continue
                    want = expected(car, net, labels[a])
                    c = copy.copy(car)
                    c.position, c.action = car.position.copy(), dict(car.action)
                    if not busy:
                        c.act(labels[a])
                        if want[0] is not None:
                            ctx.check(tuple(c.target_lane_index) == want[0], "envs/lane", "action %s: %s, expected %s" % (labels[a], c.target_lane_index, want[0]), **case)
                        if want[1] is not None:
                            ctx.check(abs(c.target_speed - want[1]) < 1e-9, "envs/speed", "action %s: %s, expected %s" % (labels[a], c.target_speed, want[1]), **case)
                    ctx.trans()
                a = pattern[t % len(pattern)]
                want = expected(car, net, labels[a])
                env.step(a)
                if not busy and want[0] is not None and want[1] is not None:
                    ctx.check(tuple(car.target_lane_index) == want[0] and abs(car.target_speed - want[1]) < 1e-9, "envs/step",
                              "action %s: %s at %s, expected %s" % (labels[a], car.target_lane_index, car.target_speed, want), **case)
                ctx.state((name, seed, pattern, t))
                ctx.outcome("%s %s" % (name, labels[a]))
            ctx.trace()
    ctx.sample(case)


def indices(ctx):
    for n, lo, hi in itertools.product((1, 2, 3, 4, 6), (0, 5, 20), (9, 16, 30)):
        if lo >= hi:
            continue
        cls = type("Car", (MDPVehicle,), {"SPEED_COUNT": n, "SPEED_MIN": lo, "SPEED_MAX": hi})
        road = hw.make_road(hw.straight(1, 1000))
        probe = cls(road, [0, 0], 0, float(lo))
        g = grid(probe)
        for i, x in enumerate(g):
            ctx.check(abs(probe.index_to_speed(i) - x) < 1e-9, "index_to_speed", "%s" % probe.index_to_speed(i), n=n, lo=lo, hi=hi, i=i)
        for v in np.linspace(-5, 40, 61) + 0.0123:
            i = nearest(g, v)
            if i is None:
                continue
            case = dict(n=n, lo=lo, hi=hi, speed=v)
            ctx.check(probe.speed_to_index(v) == i, "speed_to_index", "%s, expected %s" % (probe.speed_to_index(v), i), **case)
            ctx.check(cls.speed_to_index_default(v) == i, "speed_to_index_default", "%s" % cls.speed_to_index_default(v), **case)
            car = cls(road, [10, 0], 0, float(v))
            ctx.check(abs(car.target_speed - g[i]) < 1e-9 and cls.get_speed_index(car) == i, "initial", "%s" % car.target_speed, **case)
            for d, lab in ((1, "FASTER"), (-1, "SLOWER"), (0, "IDLE")):
                c = cls(road, [10, 0], 0, float(v), target_speed=g[0])
                c.act(lab)
                want = g[min(max(i + d, 0), n - 1)] if d else g[0]
                ctx.check(abs(c.target_speed - want) < 1e-9, "step/%s" % lab, "%s, expected %s" % (c.target_speed, want), **case)
                ctx.trans()
            ctx.state((n, lo, hi, v))
    ctx.trace()
