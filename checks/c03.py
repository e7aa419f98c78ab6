"""C03: every observation belongs to the declared observation space."""
import itertools
import os

import numpy as np

from vk import envs, hw, ref

PROP = "C03"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "12 environments x 6-40 observation configurations (all types; 96 option combinations of Kinematics in highway-v0) x 2-4 traffic sizes: all sequences "
             "of 2 (3 for the default configurations) of 3 actions, plus whole episodes; lattice of 1200 placements and speeds of observer and traffic (off-road, far, "
             "reverse, on top of each other) per observation type",
    "thorough": "sequences of 3-4, all option combinations in 4 environments, two seeds, placements of two vehicles"}
ASSUMPTIONS = ["normalised features with a finite range (default or given for each feature); an explicit range that omits a feature is not bounded by the space",
               "TimeToCollision with discrete meta-actions only; Grayscale with offscreen rendering"]

ALL = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h", "cos_d", "sin_d"]
RANGE = {"x": [-100, 100], "y": [-100, 100], "vx": [-20, 20], "vy": [-20, 20]}


def kin(**kw):
    return dict({"type": "Kinematics"}, **kw)


def grid(**kw):
    return dict({"type": "OccupancyGrid"}, **kw)


def ttc(**kw):
    return dict({"type": "TimeToCollision"}, **kw)


GENERAL = [kin(), kin(vehicles_count=1), kin(vehicles_count=2, see_behind=True, order="shuffled"),
           kin(vehicles_count=15, features=ALL, features_range=RANGE, absolute=True, observe_intentions=True),
           kin(vehicles_count=4, features=["vx", "x"], normalize=False), kin(vehicles_count=6, clip=False, absolute=True),
           grid(), grid(features=["presence"], grid_size=[[-7, 10], [-20, 20]], grid_step=[3, 4]),
           grid(features=["vx", "vy", "presence", "cos_h", "sin_h"], grid_size=[[-50, 50], [-6, 6]], grid_step=[10, 4], features_range=RANGE)]
TTCS = [ttc(), ttc(horizon=5), ttc(horizon=1)]
GOAL = [{"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": [100, 100, 5, 5, 1, 1], "normalize": False}]
ATTR = [{"type": "AttributesObservation", "attributes": ["state", "derivative", "reference_state"]},
        {"type": "AttributesObservation", "attributes": ["reference_state"]}]
GRAY = [{"type": "GrayscaleObservation", "weights": [0.2989, 0.5870, 0.1140], "stack_size": 3, "observation_shape": (60, 30)}]
DISCRETE = ("highway", "merge", "roundabout", "two", "intersection")


def configs(name):
    kind = name.split("-")[0]
    out = [None] + GENERAL
    if kind in DISCRETE:
        out += TTCS
    if kind in ("parking", "summon"):
        return [None] + GOAL + [{"type": "MultiAgentObservation", "observation_config": GOAL[0]}]
    if kind == "lane":
        return [None] + ATTR
    if kind in ("intersection", "highway"):
        out += [{"type": "MultiAgentObservation", "observation_config": o} for o in (kin(vehicles_count=3), grid(), ttc())]
    if kind in ("highway", "roundabout"):
        out += GRAY
    return out


def options():
    out = []
    for ab, sh, no, cl, be, it in itertools.product((False, True), repeat=6):
        if not no and cl:
            continue
        for n in (1, 4):
            out.append(kin(vehicles_count=n, features=ALL, features_range=RANGE, absolute=ab, order="shuffled" if sh else "sorted", normalize=no, clip=cl,
                           see_behind=be, observe_intentions=it))
    return out


def traffics(name):
    kind = name.split("-")[0]
    if kind == "highway":
        return [dict(vehicles_count=0), dict(vehicles_count=1, controlled_vehicles=2), dict(vehicles_count=12, lanes_count=2)]
    if kind == "intersection":
        return [dict(initial_vehicle_count=0, spawn_probability=0.0), dict(initial_vehicle_count=9, spawn_probability=1.0)]
    if kind == "summon":
        return [dict(vehicles_count=0), dict(vehicles_count=6)]
    return [dict()]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in envs.NAMES:
        cs = configs(name)
        for k in range(len(cs)):
            out.append(("episodes", (name, k, seed if q else seed + 1, 2 if q and k else 3, False)))
    for name in (("highway-v0",) if q else ("highway-v0", "intersection-v0", "roundabout-v0", "merge-v0")):
        for part in range(8):
            out.append(("option_product", (name, part, 1 if q else 2)))
    for k in range(len(GENERAL + TTCS)):
        out.append(("placements", (k, 1 if q else 2)))
    return out


def shape(cfg, env):
    """The declared shape: a tuple, a dict of tuples or a list of shapes."""
    t = cfg["type"]
    if t == "Kinematics":
        return (cfg.get("vehicles_count", 5), len(cfg.get("features", range(5))))
    if t == "OccupancyGrid":
        (x0, x1), (y0, y1) = cfg.get("grid_size", [[-27.5, 27.5], [-27.5, 27.5]])
        sx, sy = cfg.get("grid_step", [5, 5])
        return (len(cfg.get("features", range(3))), int((y1 - y0) // sy), int((x1 - x0) // sx))
    if t == "TimeToCollision":
        return (3, 3, int(round(cfg.get("horizon", 10) * env.config["policy_frequency"])))
    if t == "KinematicsGoal":
        return {k: (len(cfg["features"]),) for k in ("observation", "achieved_goal", "desired_goal")}
    if t == "AttributesObservation":
        return {k: np.shape(getattr(env, k)) for k in cfg["attributes"]}
    if t == "GrayscaleObservation":
        return tuple(cfg["observation_shape"]) + (cfg["stack_size"],)
    if t == "MultiAgentObservation":
        return [shape(cfg["observation_config"], env) for _ in env.controlled_vehicles]
    raise ValueError(t)


def faults(space, obs, want):
    """Why obs is not in the space, or the space not of the expected shape; independent of Space.contains."""
    kind = type(space).__name__
    if kind == "Tuple":
        if not isinstance(obs, tuple) or not isinstance(want, list) or not len(obs) == len(space.spaces) == len(want):
            return "tuple of %s observations, %d spaces, %s agents" % (len(obs) if isinstance(obs, tuple) else type(obs), len(space.spaces), len(want))
        for s, o, w in zip(space.spaces, obs, want):
            f = faults(s, o, w)
            if f:
                return f
        return None
    if kind == "Dict":
        if not isinstance(obs, dict) or not isinstance(want, dict) or not set(obs) == set(space.spaces) == set(want):
            return "keys %s" % (sorted(obs) if isinstance(obs, dict) else type(obs))
        for k in obs:
            f = faults(space.spaces[k], obs[k], want[k])
            if f:
                return "%s: %s" % (k, f)
        return None
    if kind != "Box":
        return "space of type %s" % kind
    if not isinstance(obs, np.ndarray):
        return "observation of type %s" % type(obs)
    if tuple(space.shape) != tuple(want):
        return "space of shape %s, expected %s" % (space.shape, want)
    if obs.shape != tuple(want):
        return "observation of shape %s, expected %s" % (obs.shape, want)
    if obs.dtype == object or np.isnan(obs.astype(float)).any():
        return "invalid numbers"
    if not (np.all(obs >= space.low - 1e-6) and np.all(obs <= space.high + 1e-6)):
        return "values from %.4g to %.4g outside of [%.4g, %.4g]" % (obs.min(), obs.max(), space.low.min(), space.high.max())
    return None


def parts(obs):
    if isinstance(obs, (tuple, list)):
        return [x for o in obs for x in parts(o)]
    if isinstance(obs, dict):
        return [x for k in sorted(obs) for x in parts(obs[k])]
    return [obs]


class Kept:
    """Observations handed to the user; they may not change afterwards."""

    def __init__(self, ctx, key, case):
        self.ctx, self.key, self.case, self.kept = ctx, key + "/kept", case, []

    def add(self, obs):
        self.kept.append((parts(obs), [np.array(x) for x in parts(obs)]))

    def verify(self, **more):
        for i, (now, then) in enumerate(self.kept):
            ok = len(now) == len(then) and all(np.array_equal(a, b) for a, b in zip(now, then))
            self.ctx.check(ok, self.key, "the observation returned by step %d of the episode changed afterwards" % i, **dict(self.case, **more))


def judge(ctx, env, cfg, obs, key, case):
    u = env.unwrapped
    ctx.trans()
    f = faults(u.observation_space, obs, shape(cfg, u))
    if f:
        ctx.violate(key, f, **case)
    elif not u.observation_space.contains(obs):
        ctx.violate(key + "/contains", "observation_space.contains(observation) is False", **case)
    ctx.outcome(cfg["type"])


def scene_of(name, cfg, traffic, seed):
    extra = dict(traffic)
    if cfg is not None:
        extra["observation"] = cfg
        if cfg["type"] == "MultiAgentObservation":
            extra["action"] = {"type": "MultiAgentAction", "action_config": {
                "type": "ContinuousAction" if name[0] in "ps" else "DiscreteMetaAction"}}
            extra.setdefault("controlled_vehicles", 2)
        if cfg["type"] == "GrayscaleObservation":
            os.environ.pop("SDL_VIDEODRIVER", None)
            extra.update(offscreen_rendering=True, screen_width=60, screen_height=30)
    if cfg is None or cfg["type"] != "MultiAgentObservation":
        if name.startswith("intersection-multi") and cfg is not None:
            extra["action"] = {"type": "DiscreteMetaAction", "lateral": False}
            extra["controlled_vehicles"] = 1
    return envs.light(name, seed, **extra)


def acts_of(env, n):
    return envs.actions(env)[:n]


def episodes(ctx, name, k, seed, depth, full):
    cfg0 = configs(name)[k]
    for t, traffic in enumerate(traffics(name)):
        env, obs = scene_of(name, cfg0, traffic, seed)
        if name == "intersection-multi-agent-v1" and cfg0 is not None and cfg0["type"] != "MultiAgentObservation":
            env = env.unwrapped
        cfg = cfg0 or env.unwrapped.config["observation"]
        key = "%s/%s" % (name, cfg["type"])
        case = dict(env=name, observation=cfg, traffic=traffic, seed=seed)
        judge(ctx, env, cfg, obs, key, dict(case, sequence=[]))
        acts = acts_of(env, 3)
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(seed)
            obs = env.reset()
            kept = Kept(ctx, key, case)
            kept.add(obs)
            judge(ctx, env, cfg, obs, key, dict(case, sequence=[], second=True))
            for i, a in enumerate(seq):
                obs, _, done, _ = env.step(acts[a])
                judge(ctx, env, cfg, obs, key, dict(case, sequence=seq[:i + 1]))
                kept.verify(sequence=seq[:i + 1])
                kept.add(obs)
                ctx.state((name, k, t, seq[:i + 1]))
                if np.any(done):
                    break
            if sum(seq) % 3 == 0:
                env.reset()
                kept.verify(sequence=seq, reset=True)
            ctx.trace()
        for a in range(2):                       # whole episodes
            env.seed(seed + 7)
            env.reset()
            for i in range(40 if k < 2 else 12):
                obs, _, done, _ = env.step(acts[a])
                judge(ctx, env, cfg, obs, key, dict(case, whole=acts[a], step=i))
                if np.any(done):
                    break
            ctx.trace()
            ctx.state((name, k, t, "whole", a))
        if env.unwrapped.viewer is not None:
            env.unwrapped.close()
    ctx.sample(case)


def option_product(ctx, name, part, depth):
    for j, cfg in enumerate(options()[part::8]):
        for t, traffic in enumerate(traffics(name)):
            env, obs = scene_of(name, cfg, traffic, 3)
            acts = acts_of(env, 3)
            case = dict(env=name, observation=cfg, traffic=traffic)
            judge(ctx, env, cfg, obs, "options/%s" % name, case)
            for seq in itertools.product(range(len(acts)), repeat=depth):
                env.seed(4)
                env.reset()
                for i, a in enumerate(seq):
                    obs, _, done, _ = env.step(acts[a])
                    judge(ctx, env, cfg, obs, "options/%s" % name, dict(case, sequence=seq[:i + 1]))
                    ctx.state((name, part, j, t, seq[:i + 1]))
                    if done is True:
                        break
                ctx.trace()
    ctx.sample(case)


def placements(ctx, k, n):
    """The observation of a lattice of scenes; vehicles far, off-road, reverse, on top of each other."""
    cfg = (GENERAL + TTCS)[k]
    env, _ = envs.light("highway-v0", 0, observation=cfg, vehicles_count=0, lanes_count=3, policy_frequency=1)
    net = env.road.network
    places = [(-1e4, 0.0), (-100.0, 4.0), (-3.0, -9.0), (0.0, 0.0), (1.0, 30.0), (12.0, 4.0), (27.4, 8.0), (179.0, -1.0), (5e3, 100.0)]
    speeds = [(0.0, -40.0), (0.0, 0.0), (1.6, 25.0), (3.1, 40.0)]
    traffic = [[]] + [[p] for p in itertools.product(places, speeds)]
    if n == 2:
        traffic += [list(p) for p in itertools.combinations(itertools.product(places, speeds[::2]), 2)]
    traffic.append(list(itertools.product(places, speeds)))
    for lane, x, off, head, speed in itertools.product(range(0, 3, 3 - n), (0.0, 10000.0), (0.0, 14.0), (0.0, -0.7), (-5.0, 40.0)):
        env.road.vehicles = []
        car = env.action_type.vehicle_class(env.road, np.array([x, 4.0 * lane + off]), head, speed)
        env.vehicle = car
        kept = None
        for i, t in enumerate(traffic):
            env.road.vehicles = [car] + [hw.IDMVehicle(env.road, car.position + np.array(p), h, v) for p, (h, v) in t]
            env.define_spaces()
            case = dict(observation=cfg, lane=lane, x=x, offset=off, heading=head, speed=speed, traffic=t)
            obs = env.observation_type.observe()
            judge(ctx, env, cfg, obs, "placement/%s" % cfg["type"], case)
            if kept:
                kept.verify()
            kept = Kept(ctx, "placement/%s" % cfg["type"], case)
            kept.add(obs)
            ctx.state((k, lane, x, off, head, speed, i))
    ctx.sample(case)
