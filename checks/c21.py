"""C21: multi-agent episodes treat every controlled vehicle alike."""
import copy
import itertools

import gym
import numpy as np

from vk import envs, hw, ref
from checks import c04, c05, c06, c08

PROP = "C21"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all joint actions of 2 and 3 agents (discrete: full, longitudinal, lateral; continuous: 9 points per agent) in highway-v0, intersection-v0 and parking-v0, each agent compared "
             "with itself alone under its own action; observations of 2-4 agents of 4 types against the viewpoint models; all joint action sequences of length 3 "
             "(2 agents) and 2 (3 agents) in the intersection, with both interfaces; all arrival/crash/driving combinations of 1-3 agents; traffic at 14 positions of "
             "each exit lane and every approach, entrances blocked at 8 distances, 6 seeds, always spawning",
    "thorough": "sequences of length 4 and 3, 40 seeds"}
ASSUMPTIONS = ["traffic has left the intersection when it is within 15 m of the end of its exit lane, and has not before 30 m of it",
               "new traffic is at least 15 m from every vehicle (centres)", "up to 4 controlled vehicles in the intersection (one per access)"]

SETS = {"full": {"type": "DiscreteMetaAction"}, "longitudinal": {"type": "DiscreteMetaAction", "lateral": False},
        "lateral": {"type": "DiscreteMetaAction", "longitudinal": False}, "continuous": {"type": "ContinuousAction"}}
OBS = {"relative": {"type": "Kinematics", "vehicles_count": 5}, "absolute": dict(c04.EPISODE[1], type="Kinematics", vehicles_count=4),
       "grid": dict(c05.GRIDS[2], type="OccupancyGrid"), "ttc": {"type": "TimeToCollision", "horizon": 6}}


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for n in (2, 3):
        for s in SETS:
            for env in ("highway-v0", "intersection-v0", "parking-v0"):
                if env == "parking-v0" and s != "continuous" or env == "intersection-v0" and s in ("continuous", "lateral"):
                    continue                 # the roads of the intersection have one lane
                out.append(("own_action", (env, n, s)))
    for n in (2, 3, 4):
        for o in OBS:
            out.append(("viewpoints", (n, o)))
        out.append(("goals", (n,)))
    for k, name in enumerate(("intersection-multi-agent-v0", "intersection-multi-agent-v1")):
        for n in (1, 2, 3, 4):
            for s in range(2):
                out.append(("sequences", (name, n, seed + s, (0, 3, 3 - (k + s > 0), 2 - (k + s > 0), 1)[n] + (not q))))
    out += [("outcomes", (n, norm)) for n in (3, 2, 1) for norm in (False, True)]
    out += [("leaving", (p, m)) for p in range(2) for m in range(2)]
    out += [("appearing", (p, 6 if q else 40)) for p in range(4)]
    return out[::-1]


def multi(o, a):
    return dict(observation={"type": "MultiAgentObservation", "observation_config": o}, action={"type": "MultiAgentAction", "action_config": a})


def spread(env, name, n):
    """n controlled vehicles far from each other, and nobody else."""
    net = env.road.network
    cars = env.controlled_vehicles
    for k, car in enumerate(cars):
        if name == "highway-v0":
            lane, x, v = net.get_lane(("0", "1", (1, 2, 0)[k])), 300.0 + 400 * k, 21.0 + 3 * k
        elif name == "intersection-v0":
            lane, x, v = net.get_lane(("o%d" % k, "ir%d" % k, 0)), 5.0 + 7 * k, 3.0 + 2 * k
        else:
            lane, x, v = None, None, None
        if lane is not None:
            car.position, car.heading, car.speed = lane.position(x, 0.2), lane.heading_at(x), v
        else:
            car.position, car.heading, car.speed = np.array([30.0 * k - 30, 0.5 * k]), 0.7 * k, 1.0 + k
        car.on_state_update()
        if hasattr(car, "target_lane_index"):
            car.target_lane_index = car.lane_index
            car.speed_index = car.speed_to_index(car.speed)
            car.target_speed = car.index_to_speed(car.speed_index)
    env.road.vehicles = list(cars)
    if name == "parking-v0":
        env.goal.position = np.array([500.0, 500.0])
    env.time = env.steps = 0


def state(car):
    return tuple(np.round(np.concatenate([np.asarray(car.position, dtype=float), [car.heading, car.speed]]), 8)) + (
        getattr(car, "target_lane_index", None), round(float(getattr(car, "target_speed", 0)), 8), getattr(car, "speed_index", None), bool(car.crashed))


def own_action(ctx, name, n, kind):
    base = dict(vehicles_count=0, lanes_count=4) if name == "highway-v0" else dict(initial_vehicle_count=0, spawn_probability=0.0, destination="o2") if name[0] == "i" else {}
    obs = dict(c08_goal()) if name == "parking-v0" else {"type": "Kinematics", "vehicles_count": 2}
    env = ref.make(name, 0, controlled_vehicles=n, simulation_frequency=5, policy_frequency=1, duration=100, **base, **multi(obs, SETS[kind]))
    alone = ref.make(name, 0, controlled_vehicles=n, simulation_frequency=5, policy_frequency=1, duration=100, **base, **multi(obs, SETS[kind]))
    grid = itertools.product((-1.0, 0.0, 0.6), repeat=2) if n < 3 else [(-1.0, 0.6), (0.6, 0.0), (1.0, -0.8), (0.0, 0.3)]
    acts = [np.array(a) for a in grid] if kind == "continuous" else list(range(5 if kind == "full" else 3))
    want = {}
    idle = np.zeros(2) if kind == "continuous" else 1

    def reset(e):
        e.seed(5)
        e.reset()
        spread(e, name, n)
    for k in range(n):                       # agent k alone on the road with its own action, with the other agents away
        for i, a in enumerate(acts):
            reset(alone)
            car = alone.controlled_vehicles[k]
            alone.road.vehicles = [car]
            alone.controlled_vehicles = [car]
            alone.define_spaces()
            alone.step((a,))
            want[k, i] = state(car)
    ctx.check(all(len({want[k, i] for i in range(len(acts))}) > 1 for k in range(n)), "own-action/sensitive", "actions make no difference", env=name)
    reset(env)
    sp = env.action_space
    ctx.check(type(sp).__name__ == "Tuple" and len(sp.spaces) == n, "own-action/space", "action space %s for %d agents" % (sp, n), env=name)
    for joint in itertools.product(range(len(acts)), repeat=n):
        reset(env)
        cars = list(env.controlled_vehicles)
        env.step(tuple(acts[j] for j in joint))
        case = dict(env=name, agents=n, actions=kind, joint=[np.asarray(acts[j]).tolist() for j in joint])
        ctx.trans(n)
        ctx.check(env.controlled_vehicles == cars, "own-action/order", "the controlled vehicles changed", **case)
        for k, j in enumerate(joint):
            ctx.check(state(cars[k]) == want[k, j], "own-action/%s" % name, "agent %d is in state %s, expected %s (as when alone)" % (k, state(cars[k]), want[k, j]), **case)
        ctx.state((name, n, kind, joint))
        ctx.trace()
    ctx.outcome("%s %d agents %s" % (name, n, kind))
    ctx.sample(case)


def c08_goal():
    return {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": [100, 100, 5, 5, 1, 1], "normalize": False}


def viewpoints(ctx, n, o):
    for name in ("highway-v0", "intersection-v0"):
        if name == "highway-v0":
            base = dict(vehicles_count=6, vehicles_density=1.5, ego_spacing=1, lanes_count=3)
        else:
            base = dict(initial_vehicle_count=6, spawn_probability=0.0)   # traffic comes after the observation
        kind = "full" if name == "highway-v0" else "longitudinal"
        env = ref.make(name, 1, controlled_vehicles=n, simulation_frequency=5, policy_frequency=1, **base, **multi(OBS[o], SETS[kind]))
        for s in range(4):
            env.seed(s)
            obs = env.reset()
            for t in range(4):
                cars = env.controlled_vehicles
                case = dict(env=name, agents=n, observation=OBS[o], seed=s, step=t)
                ctx.check(isinstance(obs, tuple) and len(obs) == n == len(cars), "viewpoint/slots", "%d observations for %d agents" % (len(obs), n), **case)
                for k, me in enumerate(cars):
                    look = dict(case, agent=k)
                    if o in ("relative", "absolute"):
                        lanes = env.road.network.graph[me.lane_index[0]][me.lane_index[1]]
                        if t == 0:
                            first = first if k else []
                            first.append(len(lanes))
                        c04.judge(ctx, env, obs[k], env.road, me, OBS[o], first[k], "viewpoint/%s" % name, look)
                    elif o == "grid":
                        c05.judge(ctx, obs[k], env.road.vehicles, me, OBS[o], "viewpoint/%s" % name, look)
                    else:
                        grid, unsure = c06.reference(env.road, me, 1.0, 6)
                        c06.compare(ctx, obs[k], *c06.window_ref(grid, unsure, me.speed_index, me.lane_index[2]), "viewpoint/%s" % name, look)
                ctx.state((name, n, o, s, t))
                before = list(env.road.vehicles)
                obs, _, done, _ = env.step(tuple((s + t + k) % (5 if name == "highway-v0" else 3) for k in range(n)))
                if done or list(env.road.vehicles) != before:      # nor is a vehicle that has just left
                    break
            ctx.trace()
    ctx.sample(case)


def goals(ctx, n):
    """Parking with several agents: one goal observation for each."""
    env = ref.make("parking-v0", 1, controlled_vehicles=n, simulation_frequency=5, policy_frequency=1, **multi(c08_goal(), SETS["continuous"]))
    for s in range(3):
        env.seed(s)
        obs = env.reset()
        for t in range(4):
            case = dict(agents=n, seed=s, step=t)
            ctx.check(isinstance(obs, tuple) and len(obs) == n, "goals/slots", "%d observations" % len(obs), **case)
            for k, car in enumerate(env.controlled_vehicles):
                ctx.trans()
                ok = np.allclose(obs[k]["achieved_goal"], ref.goal_state(car), atol=1e-6) and np.allclose(obs[k]["observation"], ref.goal_state(car), atol=1e-6) \
                    and np.allclose(obs[k]["desired_goal"], ref.goal_state(env.goal), atol=1e-6)
                ctx.check(ok, "goals", "agent %d observes %s, expected %s" % (k, obs[k], ref.goal_state(car)), **case)
            ctx.state((n, s, t))
            obs, _, done, info = env.step(tuple(np.array([0.3 * k - 0.2, 0.5 - 0.4 * k]) for k in range(n)))
            ok = isinstance(info["is_success"], tuple) and len(info["is_success"]) == n
            ctx.check(ok, "goals/success", "is_success is %s" % (info["is_success"],), **case)
            if done:
                break
        ctx.trace()
    ctx.sample(case)


def agent_over(env, car):
    if car.crashed or env.steps >= env.config["duration"] * env.config["policy_frequency"]:
        return True
    return ref.arrived(car)


def judge(ctx, env, n, out, case, tuples=False, key="step"):
    """Rewards, flags and the end of the episode; env is unwrapped."""
    _, reward, done, info = out
    cars = env.controlled_vehicles
    ctx.trans()
    want = [ref.intersection_agent_reward(env, c) for c in cars]
    over = [agent_over(env, c) for c in cars]
    got_r, got_d = info["agents_rewards"], info["agents_dones"]
    ctx.check(len(got_r) == len(got_d) == n, key + "/slots", "%d rewards, %d flags for %d agents" % (len(got_r), len(got_d), n), **case)
    for k in range(n):
        if want[k] is not None:
            ctx.check(abs(float(got_r[k]) - want[k]) < 1e-6, key + "/reward", "agent %d gets %s, expected %s" % (k, got_r[k], want[k]), **case)
        if over[k] is not None:
            ctx.check(bool(got_d[k]) == over[k], key + "/done", "agent %d has done=%s, expected %s" % (k, got_d[k], over[k]), **case)
    ending = ref.terminal(env, "intersection-v0", env.steps)
    if tuples:
        ctx.check(isinstance(reward, tuple) and tuple(reward) == tuple(got_r) and isinstance(done, tuple) and tuple(done) == tuple(got_d), key + "/tuples",
                  "reward %s, done %s, expected those of the agents" % (reward, done), **case)
    else:
        if None not in want:
            ctx.check(abs(float(reward) - sum(want) / n) < 1e-6, key + "/shared", "reward %s, expected the mean of %s" % (reward, want), **case)
        if ending is not None:
            ctx.check(np.ndim(done) == 0 and bool(done) == ending, key + "/ending", "done %s, expected %s" % (done, ending), **case)
    ctx.outcome("%d agents, %s crashed, %s arrived" % (n, sum(c.crashed for c in cars), sum(bool(ref.arrived(c)) for c in cars)))
    return ending


def presence(ctx, env, agents, case, key="step"):
    vs = env.road.vehicles
    ctx.check(env.controlled_vehicles == agents, key + "/controlled", "the controlled vehicles changed", **case)
    ctx.check(all(sum(v is a for v in vs) == 1 for a in agents), key + "/removed", "a controlled vehicle is not on the road any more", **case)


def sequences(ctx, name, n, seed, depth):
    env, obs = envs.light(name, seed, controlled_vehicles=n, initial_vehicle_count=7, spawn_probability=1.0, duration=depth)
    joints = list(itertools.product(range(3), repeat=n)) if n < 4 else [(0, 1, 2, 1), (2, 2, 0, 1), (2, 2, 2, 2)]
    ctx.check(isinstance(obs, tuple) and len(obs) == n == len(env.unwrapped.controlled_vehicles), "step/slots", "%d observations" % len(obs), env=name, agents=n)

    def visit(env, seq):
        for joint in joints:
            e = copy.deepcopy(env)
            u = e.unwrapped
            agents = list(u.controlled_vehicles)
            before = list(u.road.vehicles)
            out = e.step(tuple(joint))
            case = dict(env=name, agents=n, seed=seed, sequence=seq + (joint,))
            ctx.check(isinstance(out[0], tuple) and len(out[0]) == n, "step/slots", "%d observations" % len(out[0]), **case)
            over = judge(ctx, u, n, out, case, tuples=name.endswith("v1"))
            presence(ctx, u, agents, case)
            traffic(ctx, u, before, case)
            ctx.state((name, n, seed, seq + (joint,)))
            if len(seq) + 1 < depth and not over:
                visit(e, seq + (joint,))
            else:
                ctx.trace()
    visit(env, ())
    ctx.sample(dict(env=name, agents=n, seed=seed, depth=depth))


def outcomes(ctx, n, norm):
    """Every combination of driving, arrived and crashed agents."""
    if True:
        env = ref.make("intersection-multi-agent-v0", 0, controlled_vehicles=n, initial_vehicle_count=0, spawn_probability=0, simulation_frequency=15, policy_frequency=15,
                       normalize_reward=norm, duration=20)
        net = env.road.network
        states = [(("il%d" % k, "o%d" % k, 0), x) for k in (1, 3) for x in (15.0, 40.0)] + [(("o0", "ir0", 0), 60.0), (("ir2", "il3", 0), 5.0)]
        speeds = (2.0, 9.0) if n < 3 else (2.0,) if norm else (9.0,)
        for combo in itertools.product(itertools.product(states if n < 3 else states[1:5], speeds, (False, True)), repeat=n):
            if len({c[0] for c in combo}) < n:
                continue
            for car, ((lane, x), speed, crashed) in zip(env.controlled_vehicles, combo):
                c08.place(car, net.get_lane(lane), x, 0, speed, crashed)
            env.time = env.steps = 0
            agents = list(env.controlled_vehicles)
            case = dict(agents=n, normalize=norm, states=combo)
            out = env.step(tuple([1] * n))
            judge(ctx, env, n, out, case, key="outcome")
            presence(ctx, env, agents, case, key="outcome")
            ctx.state((norm, combo))
    ctx.sample(case)


def exit_of(env, v):
    """Distance to the end of the exit lane, None elsewhere."""
    a, b = v.lane_index[0], v.lane_index[1]
    if not (a.startswith("il") and b.startswith("o")):
        return None
    lane = env.road.network.get_lane(v.lane_index)
    return lane.length - lane.local_coordinates(v.position)[0]


def traffic(ctx, env, before, case, key="traffic"):
    """What left and what came during a step."""
    vs = env.road.vehicles
    agents = env.controlled_vehicles
    for v in vs:
        if v in agents:
            continue
        e = exit_of(env, v)
        ctx.check(e is None or e > 15, key + "/not removed", "a vehicle %.1f m before the end of its exit lane is still there" % (e or 0), **case)
    gone = [v for v in before if not any(v is w for w in vs)]
    for v in gone:
        e = exit_of(env, v)
        ctx.check(v.route is None or e is not None and e < 30, key + "/removed", "a vehicle on lane %s was removed" % (v.lane_index,), **case)
    new = [v for v in vs if not any(v is w for w in before)]
    for v in new:
        d = min([np.linalg.norm(np.asarray(v.position) - w.position) for w in vs if w is not v] or [99.0])
        ctx.check(d > 15 - 1e-6, key + "/spawn", "a vehicle appeared %.2f m from another one" % d, **case)
        ctx.check(v.lane_index[0].startswith("o") and v.route and v.route[-1][1].startswith("o"), key + "/spawn lane", "a vehicle appeared on lane %s" % (v.lane_index,), **case)
    ctx.check(len(new) <= 1, key + "/spawn", "%d vehicles appeared in one step" % len(new), **case)
    if gone or new:
        ctx.outcome("%d left, %d came" % (len(gone), len(new)))


def leaving(ctx, part, half):
    env = ref.make("intersection-multi-agent-v0", 0, controlled_vehicles=2, initial_vehicle_count=0, spawn_probability=0, simulation_frequency=15, policy_frequency=15)
    net = env.road.network
    cls = (hw.IDMVehicle, hw.LinearVehicle)[part]
    lanes = [idx for a, tos in net.graph.items() for b in tos for idx in [(a, b, 0)]][half::2]
    for idx in lanes:
        L = net.get_lane(idx).length
        for x in (0.5, 4.0, 12.0, L - 45, L - 33, L - 31, L - 14, L - 10, L - 6, L - 2, L - 0.5, L + 2, L + 4) if L > 50 else (0.5, L / 2, L - 1):
            for speed in (0.0, 8.0):
                for ego_exit in (None, 60.0, L - 8):
                    env.seed(0)
                    env.reset()
                    agents = list(env.controlled_vehicles)
                    for k, car in enumerate(agents):
                        lane = net.get_lane(("o%d" % k, "ir%d" % k, 0))
                        net2 = env.road.network
                        lane = net2.get_lane(("o%d" % k, "ir%d" % k, 0)) if ego_exit is None else net2.get_lane(("il%d" % k, "o%d" % k, 0))
                        c08.place(car, lane, 30.0 + 20 * k if ego_exit is None else min(ego_exit, lane.length - 5) - 9 * k, 0, 5.0, False)
                    lane = env.road.network.get_lane(idx)
                    v = cls(env.road, lane.position(x, 0), lane.heading_at(x), speed)
                    v.plan_route_to(idx[1] if idx[1].startswith("o") else "o%d" % ((int(idx[1][2]) + 1) % 4) if idx[1].startswith("ir") else "o" + idx[1][2])
                    env.road.vehicles = agents[:1] + [v] + agents[1:]
                    before = list(env.road.vehicles)
                    case = dict(lane=idx, x=x, speed=speed, agents_at=ego_exit)
                    out = env.step((1, 1))
                    traffic(ctx, env, before, case, key="leaving")
                    presence(ctx, env, agents, case, key="leaving")
                    ctx.state((idx, x, speed, ego_exit))
    ctx.sample(case)


def appearing(ctx, part, seeds):
    env = ref.make("intersection-v0", 0, initial_vehicle_count=0, spawn_probability=1.0, simulation_frequency=15, policy_frequency=15)
    came = 0
    for blocked in itertools.product((0, 1), repeat=4):
        for x in (-3.0, 0.0, 6.0, 11.0, 17.0, 21.0, 27.0, 40.0)[part::4]:
            for s in range(seeds):
                env.seed(s)
                env.reset()
                net = env.road.network
                car = env.vehicle
                env.road.vehicles = [car]
                for k in range(4):
                    if blocked[k]:
                        lane = net.get_lane(("o%d" % k, "ir%d" % k, 0))
                        v = hw.IDMVehicle(env.road, lane.position(x, 0), lane.heading_at(0), 0.5)
                        v.plan_route_to("o%d" % ((k + 1) % 4))
                        env.road.vehicles.append(v)
                for t in range(3):
                    before = list(env.road.vehicles)
                    env.step(1)
                    case = dict(blocked=blocked, x=x, seed=s, step=t)
                    ctx.trans()
                    traffic(ctx, env, before, case, key="appearing")
                    came += len(env.road.vehicles) > len(before)
                    ctx.state((part, blocked, x, s, t))
                ctx.trace()
    ctx.check(came > 0, "appearing/never", "no traffic ever appears", seeds=seeds)
    env = ref.make("intersection-v0", 0, initial_vehicle_count=0, spawn_probability=0.0, simulation_frequency=15, policy_frequency=15)
    for s in range(seeds):
        env.seed(s)
        env.reset()
        n = len(env.road.vehicles)
        for t in range(3):
            env.step(1)
            ctx.check(len(env.road.vehicles) <= n, "appearing/probability", "traffic appears with a probability of 0", seed=s, step=t)
    ctx.sample(case)
