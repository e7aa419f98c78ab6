"""C31: every environment can be played with every type of action and of observation."""
import copy
import itertools

import numpy as np

from vk import envs, hw, ref
from checks.c03 import faults, shape
from checks.c12 import ref_step

PROP = "C31"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 environments x 12 action configurations (meta-actions on both axes or one; continuous actions on both axes or one, kinematic or dynamical; "
             "one or two agents) x 2-4 observation types: all sequences of 2 actions (out of 3-5) one frame each, and every constant sequence until the end of the episode "
             "(at most 14 decisions)",
    "thorough": "sequences of 4 actions, 3 seeds, 40 decisions"}
ASSUMPTIONS = ["the combinations excluded by the statement", "the motion of a crashed vehicle and of a vehicle of another agent is not judged"]

AXES = {"both": {}, "longitudinal": {"lateral": False}, "lateral": {"longitudinal": False}}
ACTS = {}
for _axes, _kw in AXES.items():
    ACTS["meta " + _axes] = dict({"type": "DiscreteMetaAction"}, **_kw)
    ACTS["continuous " + _axes] = dict({"type": "ContinuousAction"}, **_kw)
    ACTS["dynamical " + _axes] = dict({"type": "ContinuousAction", "dynamical": True}, **_kw)
for _k in ("meta both", "continuous both", "meta longitudinal"):
    ACTS["agents " + _k] = {"type": "MultiAgentAction", "action_config": ACTS[_k]}
LABELS = {"both": ("LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"), "longitudinal": ("SLOWER", "IDLE", "FASTER"), "lateral": ("LANE_LEFT", "IDLE", "LANE_RIGHT")}
KIN = {"type": "Kinematics", "vehicles_count": 3}
GRID = {"type": "OccupancyGrid"}
TTC = {"type": "TimeToCollision", "horizon": 4}
GRAY = {"type": "GrayscaleObservation", "weights": [0.3, 0.6, 0.1], "stack_size": 2, "observation_shape": (40, 20)}
GOAL = {"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": [100, 100, 5, 5, 1, 1], "normalize": False}
ATTR = {"type": "AttributesObservation", "attributes": ["state", "derivative", "reference_state"]}
KEPT = ("highway-v0", "roundabout-v0", "merge-v0", "two-way-v0", "intersection-v0", "parking-v0", "summon-v0", "lane-keeping-v0")
FREE = ("highway-v0", "roundabout-v0", "parking-v0", "summon-v0")
AGENTS = ("highway-v0", "intersection-v0", "parking-v0")
REFUSED = ("merge-v0", "two-way-v0", "intersection-v0")


def playable(name, act):
    if name == "lane-keeping-v0":
        return act.startswith("dynamical")
    if act.startswith("agents"):
        return name in AGENTS and not (name == "intersection-v0" and "continuous" in act)
    return name in FREE or act.startswith("meta")


def observations(name, act):
    kind = name.split("-")[0]
    if kind in ("parking", "summon"):
        out = [GOAL]
    elif kind == "lane":
        return [ATTR, KIN]
    else:
        out = [KIN, GRID] + ([TTC] if "meta" in act else [])
    if act.startswith("agents"):
        out = [{"type": "MultiAgentObservation", "observation_config": o} for o in out]
    elif kind in ("highway", "roundabout", "intersection"):
        out.append(GRAY)
    return out


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in KEPT:
        for act in ACTS:
            if playable(name, act):
                for k in range(len(observations(name, act))):
                    out.append(("play", (name, act, k, seed if q else seed + 1, 2 if q else 4, 14 if q else 40)))
    out += [("refused", (name,)) for name in REFUSED]
    out.append(("zero", ()))
    return out


def config(name, act, obs, rate):
    kind = name.split("-")[0]
    cfg = {"action": copy.deepcopy(ACTS[act]), "simulation_frequency": 5, "policy_frequency": rate}
    if obs:
        cfg["observation"] = copy.deepcopy(obs)
    if kind == "highway":
        cfg.update(vehicles_count=4, lanes_count=3, vehicles_density=1.5, duration=12)
    elif kind == "intersection":
        cfg.update(initial_vehicle_count=3, duration=12, spawn_probability=0.3)
    elif kind == "summon":
        cfg.update(vehicles_count=2, duration=12)
    elif kind == "lane":
        cfg.update(simulation_frequency=10, policy_frequency=10)
    elif kind in ("parking", "roundabout"):
        cfg.update(duration=12)
    if act.startswith("agents"):
        cfg["controlled_vehicles"] = 2
    if obs and obs["type"] == "GrayscaleObservation":
        cfg.update(offscreen_rendering=True, screen_width=40, screen_height=20, scaling=2.0)
    return cfg


def alphabet(act):
    one = [(0.0,), (1.0,), (-0.4,)]
    two = [(0.0, 0.0), (1.0, -0.3), (-1.0, 1.0), (0.2, 0.1)]
    kind, axes = act.split(" ")[-2:]
    if kind == "meta":
        base = list(range(len(LABELS[axes])))
    else:
        base = [np.array(a, dtype=np.float32) for a in (two if axes == "both" else one)]
    if act.startswith("agents"):
        return [(a, base[(i + 1) % len(base)]) for i, a in enumerate(base)]
    return base


def start(name, act, obs, rate, seed):
    # the simulation of the initial traffic of intersections follows the configuration given first
    import gym
    cfg = config(name, act, obs, rate)
    env = (gym.make(name, config=cfg) if name.startswith("intersection") else gym.make(name)).unwrapped
    env.configure(cfg)
    env.seed(seed)
    return env, env.reset()


def expected(env, act, action, dt):
    """The ego-vehicle after one frame, from a copy of its road, in case it does not hit anything."""
    kind, axes = act.split(" ")[-2:]
    car = env.vehicle
    if act.startswith("agents"):
        action = action[0]
    if kind == "continuous":
        acc = float(action[0]) * 5 if axes != "lateral" else 0.0
        steer = float(action[-1]) * np.pi / 4 if axes != "longitudinal" else 0.0
        return ref_step(car.position[0], car.position[1], car.heading, car.speed, steer, acc, dt, False)
    twin = copy.deepcopy(car)
    if kind == "meta":
        twin.act(LABELS[axes][action])
        twin.act()
    else:
        twin.act({"acceleration": float(action[0]) * 5 if axes != "lateral" else 0.0, "steering": float(action[-1]) * np.pi / 4 if axes != "longitudinal" else 0.0})
    twin.step(dt)
    return twin.position[0], twin.position[1], twin.heading, twin.speed


def judge(ctx, env, name, act, obs_cfg, out, case):
    obs, reward, done, info = out
    key = "%s/%s/%s" % (name, act, obs_cfg["type"])
    fault = faults(env.observation_space, obs, shape(obs_cfg, env))
    ctx.check(not fault, "observation/" + key, "the observation is not of the space: %s" % fault, **case)
    ok = np.ndim(reward) == 0 and np.isfinite(reward)
    if ok:
        kind = name.split("-")[0]
        lo, hi = (0, 1) if kind in ("highway", "roundabout", "two") else (-5, 1) if kind == "intersection" else (-np.inf, 0) if kind in ("parking", "summon") else (-np.inf, 1)
        ok = lo - 1e-6 <= reward <= hi + 1e-6
    ctx.check(ok, "reward/" + key, "the reward is %s" % (reward,), **case)
    ctx.check(np.ndim(done) == 0 and bool(done) in (True, False) and isinstance(info, dict), "answer/" + key, "done is %s, info is %s" % (done, info), **case)
    ctx.trans()


def play(ctx, name, act, k, seeds, depth, longest):
    obs_cfg = observations(name, act)[k]
    acts = alphabet(act)
    key = "%s/%s/%s" % (name, act, obs_cfg["type"])
    for seed in range(1, seeds + 1):
        env, obs = start(name, act, obs_cfg, 5, seed)
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(seed)
            obs = env.reset()
            fault = faults(env.observation_space, obs, shape(obs_cfg, env))
            ctx.check(not fault, "first/" + key, "the first observation is not of the space: %s" % fault, seed=seed)
            ctx.check(env.action_space.contains(acts[seq[0]]), "space/" + key, "%s is not in the action space %s" % (acts[seq[0]], env.action_space), seed=seed)
            for t, a in enumerate(seq):
                case = dict(env=name, action=act, observation=obs_cfg["type"], seed=seed, sequence=seq[:t + 1])
                ctx.state(tuple(case.values()))
                dt = 1 / env.config["simulation_frequency"]
                want = expected(env, act, acts[a], dt) if name != "lane-keeping-v0" else None
                out = env.step(copy.deepcopy(acts[a]))
                judge(ctx, env, name, act, obs_cfg, out, case)
                car = env.vehicle
                if want is not None and not car.crashed:
                    got = (car.position[0], car.position[1], car.heading, car.speed)
                    ctx.check(np.allclose(got, want, atol=1e-5), "motion/" + key, "the ego-vehicle is at %s instead of %s" % (np.round(got, 4), np.round(want, 4)), **case)
                    ctx.outcome("moves %s" % act)
                if out[2]:
                    break
            ctx.trace()
        if name == "lane-keeping-v0":
            continue
        env, obs = start(name, act, obs_cfg, 1, seed)
        for a in range(len(acts)):
            env.seed(seed)
            env.reset()
            for t in range(longest):
                if name == "two-way-v0" and env.vehicle.position[0] > 740:
                    break
                case = dict(env=name, action=act, observation=obs_cfg["type"], seed=seed, constant=a, step=t)
                ctx.state(tuple(case.values()))
                out = env.step(copy.deepcopy(acts[a]))
                judge(ctx, env, name, act, obs_cfg, out, case)
                if out[2]:
                    ctx.outcome("%s over after %d" % (name, t + 1))
                    break
            ctx.trace()
    ctx.sample(case)


def refused(ctx, name):
    """The combinations which the documentation promises and which are known to fail; any of them may work."""
    wanted = [a for a in ACTS if not playable(name, a) and not a.startswith("agents")]
    for act in wanted:
        ctx.state((name, act))
        try:
            env, _ = start(name, act, KIN, 1, 1)
            for a in alphabet(act):
                env.step(a)
            ctx.trans()
        except (AttributeError, KeyError, ValueError, TypeError, IndexError) as e:
            kind = act.split(" ")[0]
            ctx.violate("refused/%s/%s" % (name, kind), "%s with %s actions: %s: %s" % (name, act, type(e).__name__, e), env=name, action=act)


def zero(ctx):
    """A continuous action is never a lane change: what the action is worth does not depend on its value, at equal outcome."""
    for act in ("continuous longitudinal", "continuous lateral", "continuous both"):
        got = []
        n = 2 if act.endswith("both") else 1
        for v in (0.0, 1e-9, -1e-9):
            env, _ = start("roundabout-v0", act, KIN, 5, 1)
            out = env.step(np.full(n, v))
            got.append(out[1])
            ctx.state((act, v))
            ctx.trans()
        ctx.check(max(got) - min(got) < 1e-6, "zero/%s" % act, "the actions 0, 1e-9 and -1e-9 are rewarded %s" % got, action=act)
