"""C07: rewards follow their definition and stay normalised."""
import itertools

import numpy as np

from vk import hw, ref

PROP = "C07"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "every combination of lane, 7 speeds, action, crashed or not, lateral offset (on or off road) for highway-v0 (1-4 lanes, 4 reward "
             "configurations, discrete and continuous actions), of lane, position, speed, action, crash, merging vehicle for merge-v0, of speed, action, crash for "
             "roundabout-v0, of lane, speed, action, crash for two-way-v0, of position (arrival), speed, crash, agents for intersection-v0; all action "
             "sequences of length 3 in traffic, 2 seeds, in the 5 environments",
    "thorough": "sequences of length 4, 3 seeds"}
ASSUMPTIONS = ["the reward constants are the documented ones, written in vk/ref.py",
               "in merge-v0 and roundabout-v0 lane change actions are those of the default action set",
               "merge-v0 is normalised for merging vehicles between standstill and their target speed",
               "two-way-v0 after the end of its road (x > 800 m) is not judged"]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for lanes in (1, 2, 3, 4):
        for cfg in range(4):
            out.append(("highway", (lanes, cfg)))
    out += [("merge", (i,)) for i in range(4)]
    out += [("roundabout", ()), ("two_way", ())]
    out += [("intersection", (n, norm)) for n in (1, 2, 3) for norm in (False, True)]
    for name in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0"):
        for s in range(1 if q else 2):
            for first in range(5 if name != "intersection-v0" else 3):
                out.append(("sequences", (name, s, first, 3 if q else 4)))
    return out


def judge(ctx, env, name, action, out, case, bounded=True, tag=""):
    """Reward and cost of a step against the definition on the resulting state."""
    _, reward, _, info = out
    kind = name.split("-")[0]
    want = {"highway": lambda: ref.highway_reward(env), "merge": lambda: ref.merge_reward(env, action),
            "roundabout": lambda: ref.roundabout_reward(env, action), "two": lambda: ref.two_way_reward(env),
            "intersection": lambda: ref.intersection_reward(env)}[kind]()
    ctx.trans()
    if want is None:
        return
    ctx.check(np.ndim(reward) == 0 and abs(float(reward) - want) < 1e-6, "reward/%s%s" % (name, tag), "reward %s, expected %.6f" % (reward, want), **case)
    if bounded and (kind != "intersection" or env.config["normalize_reward"]):
        ctx.check(-1e-6 <= float(reward) <= 1 + 1e-6, "bounds/%s" % name, "reward %s" % reward, **case)
    if kind in ("highway", "intersection", "two"):
        cost = float(bool(env.vehicle.crashed))
        if kind == "two":
            cost += (env.vehicle.lane_index[2] == 0) / 15
        ctx.check("cost" in info and abs(float(info["cost"]) - cost) < 1e-9, "cost/%s" % name, "cost %s, expected %s" % (info.get("cost"), cost), **case)
    ctx.outcome("%s %.2f%s" % (name, round(want * 20) / 20, " crashed" if env.vehicle.crashed else ""))


def ego(env, pos, heading, speed):
    car = env.action_type.vehicle_class(env.road, np.array(pos, dtype=float), heading, speed)
    env.road.vehicles = [v for v in env.road.vehicles if v not in env.controlled_vehicles]
    env.road.vehicles.insert(0, car)
    old = env.vehicle
    for k in ("SPEED_MIN", "SPEED_MAX", "SPEED_COUNT"):
        if k in vars(old):
            setattr(car, k, getattr(old, k))
    env.vehicle = car
    env.define_spaces()
    env.time = env.steps = 0
    return car


CONFIGS = [dict(), dict(collision_reward=-3, reward_speed_range=[10, 40]), dict(reward_speed_range=[0, 20], offroad_terminal=True),
           dict(action={"type": "ContinuousAction"})]
OBS = {"observation": {"type": "Kinematics", "vehicles_count": 2}}


def highway(ctx, lanes, c):
    cfg = dict(CONFIGS[c], lanes_count=lanes, vehicles_count=0, simulation_frequency=15, policy_frequency=15, **OBS)
    env = ref.make("highway-v0", **cfg)
    acts = [np.array([0.3, 0.0]), np.array([-1.0, 0.2])] if c == 3 else list(range(5))
    for lane, speed, crashed, off in itertools.product(range(lanes), (0.0, 12.0, 20.0, 23.3, 27.0, 30.0, 34.0), (False, True), (0.0, -1.9, -2.4, 2.4)):
        for a in range(len(acts)):
            car = ego(env, env.road.network.get_lane(("0", "1", lane)).position(300, off), 0.0, speed)
            car.crashed = crashed
            case = dict(lanes=lanes, config=CONFIGS[c], lane=lane, speed=speed, crashed=crashed, offset=off, action=a)
            judge(ctx, env, "highway-v0", acts[a], env.step(acts[a]), case, tag="/crashed" if crashed else "/offroad" if not car.on_road else "")
            ctx.state((lanes, c, lane, speed, crashed, off, a))
    for x in (-4.0, -7.0, 9999.0, 10009.0):
        for a in range(len(acts)):
            ego(env, (x, 0.0), 0.0, 20.0)
            judge(ctx, env, "highway-v0", acts[a], env.step(acts[a]), dict(lanes=lanes, config=CONFIGS[c], x=x, action=a), tag="/ends")
    ctx.sample(case)


def merge(ctx, part):
    env = ref.make("merge-v0", simulation_frequency=15, policy_frequency=15, **OBS)
    net = env.road.network
    places = [(("a", "b", 0), 100.0), (("a", "b", 1), 150.0), (("b", "c", 0), 40.0), (("b", "c", 1), 20.0), (("c", "d", 0), 30.0), (("c", "d", 1), 100.0)]
    for (lane, x), speed, a, crashed in itertools.product(places, (0.0, 20.0, 24.0, 27.0, 30.0), range(5), (False, True)):
        for merging in (None, (("b", "c", 2), 0.0), (("b", "c", 2), 12.0, ("b", "c", 1)), (("b", "c", 2), 30.0), (("k", "b", 0), 0.0), (("b", "c", 1), 0.0, ("b", "c", 2)),
                        (("b", "c", 2), 12.0), (("b", "c", 2), 5.0, ("b", "c", 0)))[part::4]:
            env.road.vehicles = []
            car = ego(env, net.get_lane(lane).position(x, 0), 0.0, speed)
            car.crashed = crashed
            if merging:
                v = hw.IDMVehicle.make_on_lane(env.road, merging[0], 55.0, speed=merging[1])
                v.target_speed = 30.0
                if len(merging) > 2:
                    v.target_lane_index = merging[2]
                env.road.vehicles.append(v)
            case = dict(lane=lane, x=x, speed=speed, crashed=crashed, action=a, merging=merging)
            judge(ctx, env, "merge-v0", a, env.step(a), case, tag="/crashed" if crashed else "")
            ctx.state((part, lane, x, speed, a, crashed, merging))
    ctx.sample(case)


def roundabout(ctx):
    for count in (1,):
        env = ref.make("roundabout-v0", simulation_frequency=15, policy_frequency=15, **OBS)
        net = env.road.network
        for (lane, x), speed, a, crashed in itertools.product([(("ser", "ses", 0), 60.0), (("se", "ex", 0), 5.0), (("se", "ex", 1), 5.0), (("nxs", "nxr", 0), 30.0)],
                                                              (0.0, 3.0, 5.0, 8.0, 13.0, 16.0), range(5), (False, True)):
            car = None
            env.road.vehicles = list(env.controlled_vehicles)
            car = ego(env, net.get_lane(lane).position(x, 0), net.get_lane(lane).heading_at(x), speed)
            car.target_speed = car.index_to_speed(car.speed_to_index(speed))
            car.speed_index = car.speed_to_index(speed)
            car.crashed = crashed
            case = dict(lane=lane, x=x, speed=speed, crashed=crashed, action=a)
            judge(ctx, env, "roundabout-v0", a, env.step(a), case, tag="/crashed" if crashed else "")
            ctx.state((lane, x, speed, a, crashed))
    ctx.sample(case)


def two_way(ctx):
    env = ref.make("two-way-v0", simulation_frequency=15, policy_frequency=15, observation={"type": "Kinematics", "vehicles_count": 2})
    net = env.road.network
    for lane, x, speed, a, crashed, off in itertools.product((0, 1), (50.0, 700.0), (0.0, 20.0, 24.0, 27.0, 30.0), range(5), (False, True), (0.0, 1.2, -1.2)):
        env.road.vehicles = []
        car = ego(env, net.get_lane(("a", "b", lane)).position(x, off), 0.0, speed)
        car.crashed = crashed
        case = dict(lane=lane, x=x, speed=speed, crashed=crashed, action=a, offset=off)
        judge(ctx, env, "two-way-v0", a, env.step(a), case, tag="/crashed" if crashed else "")
        ctx.state((lane, x, speed, a, crashed, off))
    ctx.sample(case)


def intersection(ctx, n, norm):
    single = {"type": "DiscreteMetaAction", "longitudinal": True, "lateral": False}
    cfg = dict(initial_vehicle_count=0, spawn_probability=0, controlled_vehicles=n, normalize_reward=norm, simulation_frequency=15, policy_frequency=15)
    cfg["action"] = {"type": "MultiAgentAction", "action_config": single} if n > 1 else single
    cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}} if n > 1 else {"type": "Kinematics"}
    for cr in (-5, -2):
        env = ref.make("intersection-v0", collision_reward=cr, **cfg)
        net = env.road.network
        places = [(("o0", "ir0", 0), 40.0), (("il1", "o1", 0), 20.0), (("il1", "o1", 0), 24.9), (("il1", "o1", 0), 26.0), (("il1", "o1", 0), 90.0), (("ir0", "il1", 0), 5.0)]
        speeds = (0.0, 4.5, 9.0)
        if n == 2:
            places, speeds = places[:1] + places[2:5], (0.0, 9.0)
        if n > 2:
            places, speeds = places[:1] + places[3:4], (4.5, 9.0)
        for state in itertools.product(itertools.product(places, speeds, (False, True)), repeat=n if n < 3 else 2):
            if n > 1 and len({s[0][0] for s in state}) == 1 and n == 2 and state[0][0] == state[1][0]:
                continue
            for k, car in enumerate(env.controlled_vehicles):
                (lane, x), speed, crashed = state[k % len(state)]
                lane = net.get_lane(lane)
                car.position = lane.position(x, 30.0 * (k // 2))
                car.heading, car.speed, car.crashed = lane.heading_at(x), speed, crashed
                car.target_speed, car.speed_index = car.index_to_speed(car.speed_to_index(speed)), car.speed_to_index(speed)
                car.on_state_update()
                car.target_lane_index = car.lane_index
                car.route = None
            env.time = env.steps = 0
            for a in range(3) if n == 1 else (1,):
                action = tuple([a] * n) if n > 1 else a
                case = dict(agents=n, normalize=norm, collision_reward=cr, states=state, action=a)
                judge(ctx, env, "intersection-v0", action, env.step(action), case, tag="/%d" % n)
                ctx.state((n, norm, cr, state, a))
    ctx.sample(case)


def sequences(ctx, name, s, first, depth):
    cfg = dict(simulation_frequency=5, policy_frequency=1)
    if name == "highway-v0":
        cfg.update(vehicles_count=8, lanes_count=3, vehicles_density=2, **OBS)
    elif name == "intersection-v0":
        cfg.update(normalize_reward=True, initial_vehicle_count=4)
    else:
        cfg.update(OBS)
    n = 3 if name == "intersection-v0" else 5
    env = ref.make(name, seed=s, **cfg)
    for seq in itertools.product((first,), *[range(n)] * (depth - 1)):
        env.seed(s)
        env.reset()
        for t, a in enumerate(seq):
            out = env.step(a)
            if name == "merge-v0":
                ok = all(0 <= v.speed <= v.target_speed for v in env.road.vehicles if tuple(v.lane_index) == ("b", "c", 2))
            else:
                ok = True
            if name == "two-way-v0" and env.vehicle.position[0] > 790:
                break
            judge(ctx, env, name, a, out, dict(env=name, seed=s, sequence=seq[:t + 1]), bounded=ok, tag="/sequence")
            ctx.state((name, s, seq[:t + 1]))
            if out[2]:
                break
        ctx.trace()
    ctx.sample(dict(env=name, seed=s, sequence=seq))
