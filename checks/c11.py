"""C11: continuous actions are mapped linearly to bounded commands."""
import itertools

import gym
import numpy as np

from vk import hw
from checks.c12 import ref_step

PROP = "C11"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "parking-v0, summon-v0 and highway-v0: 9 x 9 actions (inside, on and outside of the bounds) x 3 axis combinations x 4 pairs of ranges x "
             "clipping on/off x 2 frequencies x 2 starts, every frame compared with the bicycle model; all sequences of 3 actions out of 4; lane-keeping-v0: "
             "all sequences of 3 actions out of 5; manual control: all sequences of 3 actions in 5 environments",
    "thorough": "15 x 15 actions, sequences of length 5"}
ASSUMPTIONS = ["without clipping, only actions within [-1, 1] are judged",
               "the last step of an episode (one frame only) is not part of the sequences"]

RANGES = [(None, None), ((-3, 6), (-0.3, 0.5)), ((0, 4), (-np.pi / 3, np.pi / 3)), ((-8, -1), (0.1, 0.4))]
DEF_ACC, DEF_STEER = (-5.0, 5.0), (-np.pi / 4, np.pi / 4)
FREQ = [(15, 5), (10, 2)]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for env in ("parking-v0", "highway-v0", "summon-v0"):
        for axes in ("both", "longitudinal", "lateral"):
            for r in range(len(RANGES) if env != 'summon-v0' else 2):
                out.append(("lattice", (env, axes, r, 9 if q else 15)))
            out.append(("sequences", (env, axes, 3 if q else 5)))
    out.append(("keeping", (3 if q else 5,)))
    for env in ("parking-v0", "highway-v0", "merge-v0", "intersection-v0", "lane-keeping-v0"):
        out.append(("manual", (env, 3 if q else 4)))
    return out


def values(n):
    """n values per component: the bounds, the middle and points inside and outside."""
    base = [-1.0, -0.37, 0.0, 0.61, 1.0, 1.7, -2.5, 0.95, -0.8, 0.05, -0.05, 40.0, -11.0, 0.33, -0.62]
    return base[:n]


def config(name, axes, r, clip, freq):
    act = {"type": "ContinuousAction", "longitudinal": axes != "lateral", "lateral": axes != "longitudinal", "clip": clip}
    acc, st = RANGES[r]
    if acc:
        act["acceleration_range"] = list(acc)
        act["steering_range"] = list(st)
    cfg = {"action": act, "simulation_frequency": freq[0], "policy_frequency": freq[1], "duration": 10000}
    if name == "highway-v0":
        cfg.update(vehicles_count=0, lanes_count=3, observation={"type": "Kinematics", "vehicles_count": 1})
    if name == "summon-v0":
        cfg.update(vehicles_count=0)
    return cfg


def make(name, cfg):
    env = gym.make(name).unwrapped
    env.configure(cfg)
    env.seed(3)
    env.reset()
    return env


def put(env, pos, heading, speed):
    """A fresh ego-vehicle alone on the road."""
    v = env.action_type.vehicle_class(env.road, np.array(pos, dtype=float), heading, speed)
    env.road.vehicles = [v]
    env.vehicle = v
    env.define_spaces()
    env.time = env.steps = 0
    return v


def command(action, axes, r):
    acc, st = RANGES[r]
    acc, st = acc or DEF_ACC, st or DEF_STEER

    def m(a, rg):
        a = min(max(a, -1.0), 1.0)
        return rg[0] + (a + 1) / 2 * (rg[1] - rg[0])
    if axes == "both":
        return m(action[0], acc), m(action[1], st)
    if axes == "longitudinal":
        return m(action[0], acc), 0.0
    return 0.0, m(action[0], st)


def drive(ctx, env, action, axes, r, freq, case):
    """One environment step against the model, frame by frame when the road is stepped."""
    v = env.vehicle
    acc, st = command(action, axes, r)
    s = (v.position[0], v.position[1], v.heading, v.speed)
    env.step(np.array(action, dtype=float))
    k = freq[0] // freq[1]
    for _ in range(k):
        s = ref_step(*s, st, acc, 1 / freq[0], False)
    got = (v.position[0], v.position[1], v.heading, v.speed)
    err = max(abs(got[0] - s[0]), abs(got[1] - s[1]), abs(hw.wrap(got[2] - s[2])), abs(got[3] - s[3]))
    ctx.check(err < 1e-6, "motion/%s" % axes, "after %d frames: %s, expected %s (acceleration %.4f, steering %.4f)" % (k, got, s, acc, st), **case)
    ctx.check(abs(v.action["acceleration"] - acc) < 1e-6 and abs(v.action["steering"] - st) < 1e-6, "command/%s" % axes,
              "command %s, expected acceleration %.6f, steering %.6f" % (v.action, acc, st), **case)
    ctx.trans(k)


def lattice(ctx, name, axes, r, n):
    vals = values(n)
    for freq in FREQ:
        for clip in (True, False):
            env = make(name, config(name, axes, r, clip, freq))
            want = 2 if axes == "both" else 1
            sp = env.action_space
            ctx.check(sp.shape == (want,) and np.all(sp.low == -1) and np.all(sp.high == 1), "space/%s" % axes, "%s" % sp, env=name, axes=axes)
            for start in (((0.0, 0.0), 0.3, 0.0), ((-5.0, 2.0), -1.9, 7.0)):
                for action in itertools.product(vals, repeat=want):
                    if not clip and max(abs(a) for a in action) > 1:
                        continue
                    case = dict(env=name, axes=axes, ranges=RANGES[r], clip=clip, freq=freq, start=start, action=action)
                    put(env, *start)
                    if name != "highway-v0":
                        env.goal.position = np.array([500.0, 0.0])
                    drive(ctx, env, action, axes, r, freq, case)
                    ctx.state((name, axes, r, clip, freq, start, action))
                    ctx.outcome("%s %s" % (axes, "beyond the bounds" if max(abs(a) for a in action) > 1 else "inside"))
    ctx.sample(case)
    ctx.trace()


def sequences(ctx, name, axes, depth):
    vals = [(0.7, -0.2), (-1.0, 1.0), (0.0, 0.0), (3.0, -0.6)] if axes == "both" else [(0.7,), (-1.0,), (0.0,), (3.0,)]
    freq, r = (10, 2), 1
    env = make(name, config(name, axes, r, True, freq))
    for seq in itertools.product(range(len(vals)), repeat=depth):
        put(env, (0.0, 0.0), 0.3, 5.0)
        if name != "highway-v0":
            env.goal.position = np.array([500.0, 0.0])
        for t, a in enumerate(seq):
            case = dict(env=name, axes=axes, sequence=seq, step=t)
            drive(ctx, env, vals[a], axes, r, freq, case)
            ctx.state((name, axes, seq[:t + 1]))
            ctx.outcome("%s action %d" % (axes, a))
        ctx.trace()
    ctx.sample(case)


def keeping(ctx, depth):
    """The dynamical vehicle: the command itself is judged."""
    for rng, lim in (((-np.pi / 3, np.pi / 3), None), ((-0.2, 0.6), None)):
        env = make("lane-keeping-v0", {"action": {"type": "ContinuousAction", "steering_range": list(rng), "longitudinal": False, "lateral": True,
                                                  "dynamical": True}})
        vals = [-1.0, 0.0, 0.3, 1.0, 2.2]
        for seq in itertools.product(range(len(vals)), repeat=depth):
            env.reset()
            for t, a in enumerate(seq):
                env.step(np.array([vals[a]]))
                st = rng[0] + (min(vals[a], 1.0) + 1) / 2 * (rng[1] - rng[0])
                v = env.vehicle
                ctx.check(abs(v.action["steering"] - st) < 1e-6 and abs(v.action["acceleration"]) < 1e-9, "keeping", "command %s, expected steering %.6f" %
                          (v.action, st), range=rng, sequence=seq, step=t)
                ctx.trans()
                ctx.state((rng, seq[:t + 1]))
                ctx.outcome("keeping %d" % a)
            ctx.trace()
    ctx.sample(dict(range=rng, sequence=seq))


def manual(ctx, name, depth):
    """The same course whatever the actions."""
    cont = name in ("parking-v0", "lane-keeping-v0")
    cfgs = [{}]
    if name == "highway-v0":
        cfgs = [{"vehicles_count": 3}, {"vehicles_count": 3, "action": {"type": "ContinuousAction"}}]
    for cfg in cfgs:
        c = "action" in cfg or cont
        cfg = dict(cfg, manual_control=True, simulation_frequency=10, policy_frequency=5)
        if name == "intersection-v0":
            cfg.update(initial_vehicle_count=3, spawn_probability=0)
        env = make(name, cfg)
        size = env.action_space.shape[0] if c else env.action_space.n
        acts = [np.full(size, x) for x in (0.0, 1.0, -0.7)] if c else list(range(min(size, 5)))
        ref = None
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(1)
            env.reset()
            course = []
            for a in seq:
                env.step(acts[a])
                for v in env.road.vehicles:
                    course += [v.position[0], v.position[1], v.heading, v.speed, getattr(v, "target_speed", 0)]
                course += [float(env.vehicle.action["steering"]), float(env.vehicle.action["acceleration"])]
                course.append(getattr(env.vehicle, "target_lane_index", None) and env.vehicle.target_lane_index[2] or 0)
                ctx.trans()
            course = np.array(course, dtype=float)
            if ref is None:
                ref = course
            ctx.check(course.shape == ref.shape and np.allclose(course, ref, atol=1e-9), "manual/%s" % name,
                      "the actions %s changed the course of the simulation" % (seq,), env=name, config=cfg, sequence=seq)
            ctx.state((name, str(sorted(cfg)), seq))
            ctx.outcome("manual")
            ctx.trace()
    ctx.sample(dict(env=name, sequence=seq))
