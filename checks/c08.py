"""C08: episodes end exactly on their documented conditions."""
import itertools

import numpy as np

from vk import hw, ref
from checks.c07 import ego

PROP = "C08"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all action sequences of length 3 in 8 environments with traffic, 2 durations x 2 policy frequencies; uniform action "
             "sequences up to the end of the episode for 5 durations x 3 frequencies; constructed states: 30 positions around every limit (road ends and borders, "
             "x = 370, 25 m after the intersection, success distance) x speeds x crashed x actions x off-road option; all arrival / crash combinations of 1 to 3 agents",
    "thorough": "sequences of length 4 (5 for intersection-v0), 2 seeds, finer positions"}
ASSUMPTIONS = ["positions within 1e-6 of a limit are not judged", "steps after the end of an episode are not judged",
               "lane-keeping-v0 reports an empty info dictionary (excluded by the statement)"]

OBS = {"observation": {"type": "Kinematics", "vehicles_count": 2}}
SINGLE = {"type": "DiscreteMetaAction", "longitudinal": True, "lateral": False}


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0"):
        for first in range(5):
            for s in range(1 if q else 2):
                out.append(("sequences", (name, first, 3 if q else 4, s)))
    for first in range(3):
        for s in range(1 if q else 2):
            out.append(("sequences", ("intersection-v0", first, 3 if q else 5, s)))
    for name in ("parking-v0", "summon-v0", "lane-keeping-v0"):
        for s in range(1 if q else 2):
            out.append(("sequences", (name, None, 3 if q else 4, s)))
    for name in ("highway-v0", "roundabout-v0", "intersection-v0", "parking-v0", "summon-v0", "merge-v0", "two-way-v0", "lane-keeping-v0",
                 "parking-ActionRepeat-v0", "summon-ActionRepeat-v0"):
        out.append(("limits", (name,)))
    for off in (False, True):
        for cont in (False, True):
            out.append(("highway", (off, cont)))
    out += [("merge", ()), ("simple", ("two-way-v0",)), ("simple", ("roundabout-v0",)), ("parking", (1,)), ("parking", (2,)), ("summon", ())]
    out += [("intersection", (n,)) for n in (1, 2, 3)]
    return out


def make(name, seed=0, duration=None, **cfg):
    base = {"simulation_frequency": 4, "policy_frequency": 1}
    kind = name.split("-")[0]
    if kind == "highway":
        base.update(vehicles_count=6, lanes_count=3, vehicles_density=2, **OBS)
    elif kind == "intersection":
        base.update(initial_vehicle_count=4, simulation_frequency=5)
    elif kind == "lane":
        base.update(simulation_frequency=10, policy_frequency=10)
    elif kind == "summon":
        base.update(vehicles_count=3)
    elif kind not in ("parking",):
        base.update(OBS)
    if duration is not None:
        base["duration"] = duration
    base.update(cfg)
    return ref.make(name, seed, **base)


def actions(env):
    sp = env.action_space
    if hasattr(sp, "n"):
        return list(range(sp.n))
    return [np.full(sp.shape, x, dtype=np.float32) for x in (1.0, -0.6, 0.1)]


def judge(ctx, env, name, steps, action, out, case, tag=""):
    """True when the episode is over."""
    _, _, done, info = out
    want = ref.terminal(env, name, steps)
    ctx.trans()
    if want is not None:
        ctx.check(bool(done) == want and np.ndim(done) == 0, "done/%s%s" % (name, tag), "done is %s, expected %s after %d steps, x=%s, crashed=%s" %
                  (done, want, steps, env.vehicle.position, env.vehicle.crashed), **case)
        ctx.outcome("%s %s%s" % (name, "over" if want else "goes on", " crashed" if env.vehicle.crashed else ""))
    if not name.startswith("lane"):
        car = env.vehicle
        ctx.check(abs(info["speed"] - car.speed) < 1e-9 and bool(info["crashed"]) == bool(car.crashed), "info/%s" % name,
                  "info %s, the vehicle has speed %s, crashed %s" % (info, car.speed, car.crashed), **case)
        same = info["action"] is action or np.array_equal(info["action"], action)
        ctx.check(same, "info-action/%s" % name, "info reports the action %s instead of %s" % (info["action"], action), **case)
    return bool(done)


def sequences(ctx, name, first, depth, seed):
    for duration, pol in ((2, 1), (40, 1)) if depth < 4 else ((2, 1), (2, 2), (40, 1)):
        if name.startswith("lane") and duration != 40:
            continue
        env = make(name, seed, None if name.split("-")[0] in ("merge", "two", "lane") else duration, **({} if name.startswith("lane") else {"policy_frequency": pol}))
        acts = actions(env)
        for seq in itertools.product(range(len(acts)) if first is None else (first,), *[range(len(acts))] * (depth - 1)):
            env.seed(seed)
            env.reset()
            for t, a in enumerate(seq):
                case = dict(env=name, seed=seed, duration=duration, policy_frequency=pol, sequence=seq[:t + 1])
                ctx.state(tuple(sorted(case.items(), key=str)).__repr__())
                if judge(ctx, env, name, t + 1, acts[a], env.step(acts[a]), case):
                    break
            ctx.trace()
    ctx.sample(case)


def limits(ctx, name):
    """Uniform sequences up to the end of the episode."""
    kind = name.split("-")[0]
    repeat = "ActionRepeat" in name
    for duration in (1, 3, 7, 12, None):
        for pol, sim in ((1, 3), (2, 4), (5, 5), (4, 15)):
            if kind == "lane":
                pol = sim = 10
            if duration is not None and kind in ("merge", "two", "lane") or repeat and (duration not in (3, None) or pol > 1):
                continue
            cfg = {"simulation_frequency": sim}
            if not repeat:
                cfg["policy_frequency"] = pol
            if kind == "highway":
                cfg["vehicles_count"] = 1
            elif kind == "intersection":
                cfg.update(initial_vehicle_count=0, spawn_probability=0)
            env = make(name, 0, duration, **cfg)
            if repeat:
                env = ref.make(name, 0, **({"duration": duration} if duration else {}))
            acts = actions(env)
            for a in range(len(acts)):
                if duration is None and a % 2 == 0 and not repeat:
                    continue
                env.seed(0)
                env.reset()
                for t in range(25 if repeat else 160 if duration is None else 80):
                    case = dict(env=name, duration=duration, policy_frequency=pol, action=a, step=t + 1)
                    if kind == "two" and env.vehicle.position[0] > 760:
                        break
                    if judge(ctx, env, name, t + 1, acts[a], env.step(acts[a]), case, tag="/limit"):
                        break
                    ctx.state((name, duration, pol, a, t))
                ctx.trace()
    ctx.sample(case)


def highway(ctx, offroad, continuous):
    cfg = dict(offroad_terminal=offroad, vehicles_count=0, lanes_count=3, simulation_frequency=15, policy_frequency=15, **OBS)
    if continuous:
        cfg["action"] = {"type": "ContinuousAction"}
    env = make("highway-v0", 0, 40, **cfg)
    acts = actions(env)
    for x, y in itertools.product((-12.0, -6.0, -4.9, 0.0, 500.0, 9999.0, 10004.0, 10009.0), np.linspace(-3.1, 11.3, 12)):
        for speed, crashed, a in itertools.product((0.0, 25.0), (False, True), (1, 2)):
            car = ego(env, (x, y), 0.0, speed)
            car.crashed = crashed
            case = dict(offroad_terminal=offroad, x=x, y=y, speed=speed, crashed=crashed, action=a)
            judge(ctx, env, "highway-v0", 1, acts[a], env.step(acts[a]), case, tag="/offroad" if offroad else "/road")
            ctx.state(tuple(case.values()))
    ctx.sample(case)


def merge(ctx):
    env = make("merge-v0", 0, None, simulation_frequency=15, policy_frequency=15)
    for x, lane, speed, crashed, a in itertools.product((10.0, 230.0, 340.0, 366.0, 368.5, 369.4, 370.1, 372.0, 390.0), (0.0, 4.0), (0.0, 20.0, 30.0), (False, True), range(5)):
        env.road.vehicles = []
        car = ego(env, (x, lane), 0.0, speed)
        car.crashed = crashed
        case = dict(x=x, y=lane, speed=speed, crashed=crashed, action=a)
        judge(ctx, env, "merge-v0", 1, a, env.step(a), case, tag="/position")
        ctx.state(tuple(case.values()))
    ctx.sample(case)


def simple(ctx, name):
    env = make(name, 0, 40 if name != "two-way-v0" else None, simulation_frequency=15, policy_frequency=15)
    net = env.road.network
    lanes = [("a", "b", 0), ("a", "b", 1)] if name == "two-way-v0" else [("ser", "ses", 0), ("ex", "ee", 0), ("ex", "ee", 1), ("nxs", "nxr", 0), ("sx", "sxs", 0)]
    for lane, speed, crashed, a, other in itertools.product(lanes, (0.0, 8.0, 25.0), (False, True), range(5), (None, 0.5, 3.0, 12.0)):
        l = net.get_lane(lane)
        env.road.vehicles = list(env.controlled_vehicles)
        car = ego(env, l.position(5, 0), l.heading_at(5), speed)
        car.crashed = crashed
        if other:
            env.road.vehicles.append(hw.Vehicle.make_on_lane(env.road, lane, 5 + other + 1, speed=2.0))
        case = dict(env=name, lane=lane, speed=speed, crashed=crashed, action=a, other=other)
        judge(ctx, env, name, 1, a, env.step(a), case, tag="/crash")
        ctx.state(tuple(case.values()))
    ctx.sample(case)


def place(car, lane, x, r, speed, crashed):
    car.position = lane.position(x, r)
    car.heading, car.speed, car.crashed = lane.heading_at(x), speed, crashed
    if hasattr(car, "speed_to_index"):
        car.speed_index = car.speed_to_index(speed)
        car.target_speed = car.index_to_speed(car.speed_index)
        car.route = None
    car.on_state_update()
    if hasattr(car, "target_lane_index"):
        car.target_lane_index = car.lane_index


def intersection(ctx, n):
    cfg = dict(initial_vehicle_count=0, spawn_probability=0, controlled_vehicles=n, simulation_frequency=15, policy_frequency=15, duration=13)
    cfg["action"] = {"type": "MultiAgentAction", "action_config": SINGLE} if n > 1 else SINGLE
    cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}} if n > 1 else {"type": "Kinematics"}
    env = ref.make("intersection-v0", **cfg)
    net = env.road.network
    xs = (0.5, 10.0, 20.0, 24.0, 24.7, 25.2, 26.0, 40.0, 90.0) if n == 1 else (10.0, 24.0, 25.2, 60.0)
    places = [(("il%d" % k, "o%d" % k, 0), x) for k in (range(4) if n == 1 else (1, 3)) for x in xs] + [(("o0", "ir0", 0), 60.0), (("ir1", "il3", 0), 6.0), (("o2", "ir2", 0), 3.0)]
    if n == 3:
        places = [p for i, p in enumerate(places) if i in (0, 2, 7, 8)]
    states = list(itertools.product(places, (0.0, 9.0) if n == 1 else (6.0,), (False, True)))
    for combo in itertools.product(states, repeat=n):
        if len({c[0] for c in combo}) < n:
            continue
        for k, car in enumerate(env.controlled_vehicles):
            (lane, x), speed, crashed = combo[k]
            place(car, net.get_lane(lane), x, 0, speed, crashed)
        env.time = env.steps = 0
        action = tuple([1] * n) if n > 1 else 1
        case = dict(agents=n, states=combo)
        judge(ctx, env, "intersection-v0", 1, action, env.step(action), case, tag="/%d" % n)
        ctx.state(repr(combo))
    ctx.sample(case)


def parking(ctx, n):
    cfg = dict(controlled_vehicles=n, simulation_frequency=15, policy_frequency=15)
    if n > 1:
        cfg.update(action={"type": "MultiAgentAction", "action_config": {"type": "ContinuousAction"}},
                   observation={"type": "MultiAgentObservation", "observation_config": {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"],
                                                                                           "scales": [100, 100, 5, 5, 1, 1], "normalize": False}})
    env = ref.make("parking-v0", **cfg)
    g = env.goal
    far = (60.0, 0.0, 0.0, 0.0, False)
    near = [(d, e, h, v, c) for d in (0.0, 0.2, 0.9, 1.3, 1.4, 1.5, 4.0) for e in (0.0, 0.5, -1.0) for h in (0.0, 0.1, 0.3, np.pi) for v in (0.0, 1.0) for c in (False, True)]
    combos = [(s,) for s in near] if n == 1 else [(a, b) for a in near[::7] + [far] for b in [(30.0, 0, 0, 0, False), (0.3, -7.0, 0.0, 0.0, False), (0.2, 0.4, 0.0, 0.0, True)]]
    if n == 2:
        combos += [(b, a) for a, b in combos]
        around = [(8.0, 0.0, 0.0, 0.0, False), (-8.0, 0.0, 0.0, 0.0, False), (0.5, 7.0, 0.0, 0.0, False), (0.5, -7.0, 0.0, 0.0, False), (0.0, 14.0, 0.0, 0.0, False)]
        combos += list(itertools.product(around, repeat=2))      # on both sides of the goal
    for combo in combos:
        for car, (d, e, h, v, c) in zip(env.controlled_vehicles, combo):
            car.position = g.position + np.array([d, e])
            car.heading, car.speed, car.crashed = g.heading + h, v, c
            car.on_state_update()
        env.time = env.steps = 0
        a = np.zeros(2)
        action = tuple([a] * n) if n > 1 else a
        # collisions between the agents may crash them during the step: judged on the state reached
        case = dict(agents=n, states=combo)
        judge(ctx, env, "parking-v0", 1, action, env.step(action), case, tag="/%d" % n)
        ctx.state(repr(combo))
    ctx.sample(case)


def summon(ctx):
    env = ref.make("summon-v0", vehicles_count=0, simulation_frequency=15, policy_frequency=15)
    g = env.goal
    for d, e, h, v, c in itertools.product((0.0, 0.7, 1.2, 1.42, 1.46, 3.0, 50.0), (0.0, 1.0), (0.0, 0.3), (0.0, 1.0), (False, True)):
        car = env.vehicle
        car.position = g.position + np.array([d, e])
        car.heading, car.speed, car.crashed = g.heading + h, v, c
        car.on_state_update()
        env.time = env.steps = 0
        action = np.zeros(2)
        case = dict(dx=d, dy=e, heading=h, speed=v, crashed=c)
        judge(ctx, env, "summon-v0", 1, action, env.step(action), case, tag="/goal")
        ctx.state(tuple(case.values()))
    ctx.sample(case)
