"""C22: goal environments expose a consistent goal, reward and success."""
import copy
import itertools

import numpy as np

from vk import hw, ref
from checks.c21 import c08_goal, multi

PROP = "C22"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all action sequences (9 actions, 1 agent: length 3; 16 joint actions, 2 agents: length 2; 8 joint actions, 3 agents: length 2) in 3 parking and 2 summon "
             "environments, with all relabellings of the goals of each trajectory with one another; 8000 poses around the goal (offsets, headings, speeds, crashed) for 31 goals; "
             "pairs of poses for 2 agents; 60 resets; 5 scales; 3 norms",
    "thorough": "sequences of length 5, 3 and 3; 30000 poses"}
ASSUMPTIONS = ["six features (x, y, vx, vy, cos_h, sin_h), as required by the weights of the reward", "rewards within 1e-6 of the success threshold are not judged",
               "summon-v0 has one agent"]
NAMES = ["parking-v0", "parking-ActionRepeat-v0", "summon-v0", "summon-ActionRepeat-v0"]
SCALES = ([100, 100, 5, 5, 1, 1], [1, 1, 1, 1, 1, 1], [10, 200, 2, 7, 1, 1], [50, 50, 5, 5, 2, 0.5], [100, 25, 1, 1, 0.25, 0.25])


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in NAMES:
        for first in range(9):
            out.append(("sequences", (name, 1, first, (3 if q else 5) - ("Repeat" in name and not q), seed)))
    for n in (2, 3):
        for first in range(16 if n == 2 else 8):
            out.append(("sequences", ("parking-v0", n, first, 2 if q else 3, seed)))
    for name in ("parking-v0", "summon-v0"):
        for part in range(8):
            out.append(("poses", (name, part, 1 if q else 2)))
        out.append(("goals", (name, 30 if q else 200)))
        for s in range(len(SCALES)):
            out.append(("scaled", (name, s)))
    out += [("agents", (n,)) for n in (2, 3)]
    out += [("norms", (name,)) for name in NAMES]
    return out


def make(name, n=1, seed=0, **cfg):
    if name.startswith("summon"):
        cfg.setdefault("vehicles_count", 4)
    if n > 1:
        cfg = dict(multi(c08_goal(), {"type": "ContinuousAction"}), controlled_vehicles=n, **cfg)
    if "Repeat" not in name:
        cfg.setdefault("policy_frequency", 5)
        cfg.setdefault("simulation_frequency", 5)
    return ref.make(name, seed, **cfg)


def as_tuple(x):
    return x if isinstance(x, tuple) else (x,)


def judge_obs(ctx, env, obs, case, key, scales=SCALES[0]):
    cars = env.controlled_vehicles
    obs = as_tuple(obs)
    ctx.check(len(obs) == len(cars), key + "/slots", "%d observations for %d agents" % (len(obs), len(cars)), **case)
    for k, (o, car) in enumerate(zip(obs, cars)):
        ctx.trans()
        for field, body in (("observation", car), ("achieved_goal", car), ("desired_goal", env.goal)):
            want = ref.goal_state(body, scales)
            ctx.check(np.shape(o[field]) == (6,) and np.allclose(o[field], want, rtol=0, atol=1e-7), key + "/" + field,
                      "agent %d: %s is %s, expected %s" % (k, field, o[field], want), **case)


def judge_step(ctx, env, name, out, case, key="step", scales=SCALES[0]):
    obs, reward, done, info = out
    judge_obs(ctx, env, obs, case, key, scales)
    crashed = bool(env.vehicle.crashed)
    summon = name.startswith("summon")
    wants, said = [], []
    for o in as_tuple(obs):
        wants.append(ref.goal_reward(o["achieved_goal"], o["desired_goal"], crashed, summon))
        said.append(float(env.compute_reward(o["achieved_goal"], o["desired_goal"], info)))
    ctx.check(np.allclose(said, wants, rtol=0, atol=1e-7), key + "/compute_reward", "compute_reward gives %s, expected %s" % (said, wants), **case)
    ctx.check(np.ndim(reward) == 0 and abs(float(reward) - sum(wants)) < 1e-7, key + "/reward",
              "reward %s, but compute_reward gives %s for the goals that were returned" % (reward, wants), **case)
    flags = info["is_success"]
    ctx.check(isinstance(flags, tuple) == isinstance(obs, tuple), key + "/is_success", "is_success is %s for %d agents" % (flags, len(wants)), **case)
    flags = as_tuple(flags)
    ctx.check(len(flags) == len(wants), key + "/is_success", "is_success is %s for %d agents" % (flags, len(wants)), **case)
    for f, w in zip(flags, wants):
        if abs(w + 0.12) > 1e-6:
            ctx.check(bool(f) == (w > -0.12), key + "/is_success", "is_success is %s with reward %s" % (f, w), **case)
        ctx.outcome("%s success=%s crashed=%s" % (name, w > -0.12, crashed))
    return as_tuple(obs)


def sequences(ctx, name, n, first, depth, seed):
    env = make(name, n, seed, duration=depth + 1)
    obs = env.reset()
    judge_obs(ctx, env, obs, dict(env=name, agents=n), "reset")
    acts = [np.array(a) for a in itertools.product((-1.0, 0.2, 1.0), repeat=2)]
    if n == 2:
        acts = list(itertools.product([np.array(a) for a in ((-1.0, 1.0), (0.5, -0.5), (1.0, 0.0), (0.0, 0.7))], repeat=2))
    elif n == 3:
        acts = list(itertools.product([np.array(a) for a in ((-1.0, 1.0), (1.0, -0.3))], repeat=3))

    def visit(env, trail, seq):
        for k, a in enumerate(acts) if seq else [(first, acts[first])]:
            e = copy.deepcopy(env)
            case = dict(env=name, agents=n, seed=seed, sequence=seq + (k,))
            out = e.step(a)
            obs = judge_step(ctx, e, name, out, case)
            now = trail + [(obs, [{f: np.array(x) for f, x in o.items()} for o in obs])]
            ctx.state((name, n, seq + (k,)))
            if len(seq) + 1 < depth and not out[2]:
                visit(e, now, seq + (k,))
            else:
                ctx.trace()
                relabel(ctx, e, name, now, out[3], case)
    visit(env, [(as_tuple(obs), [{f: np.array(x) for f, x in o.items()} for o in as_tuple(obs)])], ())
    ctx.sample(dict(env=name, agents=n, first=first, depth=depth))


def relabel(ctx, env, name, trail, info, case):
    """Every goal achieved along the trajectory, as the goal of every step of every agent."""
    crashed, summon = bool(env.vehicle.crashed), name.startswith("summon")
    for got, kept in trail:
        for o, c in zip(got, kept):
            ctx.check(all(np.array_equal(o[f], c[f]) for f in c), "relabel/overwritten", "an observation changed after it was returned", **case)
    flat = [o for got, _ in trail for o in got]
    for a in flat:
        for d in [o["achieved_goal"] for o in flat] + [a["desired_goal"]]:
            w = ref.goal_reward(a["achieved_goal"], d, crashed, summon)
            for i in (info, {}):
                g = float(env.compute_reward(a["achieved_goal"], d, i))
                ctx.check(abs(g - w) < 1e-7, "relabel", "compute_reward(%s, %s) = %s, expected %s" % (a["achieved_goal"], d, g, w), **case)
            ctx.trans()


def put(env, car, pos, heading, speed, crashed):
    car.position, car.heading, car.speed, car.crashed = np.array(pos, dtype=float), heading, speed, crashed
    car.on_state_update()


def poses(ctx, name, part, fine):
    env = make(name, seed=part, vehicles_count=0) if name[0] == "s" else make(name, seed=part)
    g = env.goal
    xs = (0.0, 0.3, -0.7, 1.43, -1.45, 6.0, -20.0) if fine == 1 else (0.0, 0.3, -0.7, 1.1, 1.43, -1.45, 2.0, 6.0, -20.0)
    for dx, dy in list(itertools.product(xs, (0.0, 0.8, -3.0, 12.0)))[part % 4::4]:
        for h, v, c in itertools.product(np.concatenate([np.linspace(-3, 3, 5 * fine), [0.0, 0.1, -0.02]]), (0.0, 0.5, -2.0, 6.0) if fine == 1 else (0.0, 0.5, -2.0, 6.0, 12.0), (False, True)):
            for a in ((0.0, 0.0), (-0.5, 0.4)) if fine == 1 else ((0.0, 0.0), (-0.5, 0.4), (1.0, -1.0)):
                env.time = env.steps = 0
                put(env, env.vehicle, g.position + (dx, dy), g.heading + h, v, c)
                case = dict(env=name, seed=part, offset=(dx, dy), heading=h, speed=v, crashed=c, action=a)
                out = env.step(np.array(a))
                judge_step(ctx, env, name, out, case, "pose")
                r, crash = float(out[1]), bool(env.vehicle.crashed)
                floor = -5.0 if crash and name[0] == "s" else 0.0
                ctx.check(r <= floor + 1e-9, "pose/positive", "the reward is %s" % r, **case)
                on = np.allclose(ref.goal_state(env.vehicle), ref.goal_state(g), rtol=0, atol=1e-12)
                ctx.check(not on or abs(r - floor) < 1e-5, "pose/on goal", "the reward is %s exactly on the goal" % r, **case)
                ctx.state((name, part, dx, dy, h, v, c, a))
    ctx.sample(case)


def goals(ctx, name, seeds):
    """The goal of an episode is fixed, and the vehicle placed on it succeeds with a reward of zero."""
    env = make(name, duration=50)
    for s in range(seeds):
        env.seed(s)
        obs = env.reset()
        case = dict(env=name, seed=s)
        judge_obs(ctx, env, obs, case, "reset")
        want = np.array(obs["desired_goal"])
        for t in range(2):
            obs, _, _, _ = env.step(np.array([0.5, 0.3]))
            ctx.check(np.array_equal(obs["desired_goal"], want), "goal moved", "the desired goal changed from %s to %s" % (want, obs["desired_goal"]), **case)
        env.road.vehicles = [env.vehicle]
        put(env, env.vehicle, env.goal.position, env.goal.heading, 0, False)
        out = env.step(np.zeros(2))
        judge_step(ctx, env, name, out, case, "goal")
        ctx.check(abs(float(out[1])) < 1e-5 and bool(out[3]["is_success"]), "goal/reached", "reward %s, is_success %s on the goal" % (out[1], out[3]["is_success"]), **case)
        ctx.state((name, s, tuple(np.round(want, 6))))
        ctx.trace()
    ctx.sample(case)


def scaled(ctx, name, s):
    env = make(name, observation={"type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": SCALES[s], "normalize": False})
    for seed in range(4):
        env.seed(seed)
        case = dict(env=name, scales=SCALES[s], seed=seed)
        judge_obs(ctx, env, env.reset(), case, "scaled/reset", SCALES[s])
        for t in range(5):
            out = env.step(np.array([0.8, 0.5 - 0.3 * t]))
            judge_step(ctx, env, name, out, dict(case, step=t), "scaled", SCALES[s])
            ctx.state((name, s, seed, t))
            if out[2]:
                break
        ctx.trace()
    ctx.sample(case)


def agents(ctx, n):
    """Every combination of agents at, near and far from the goal."""
    env = make("parking-v0", n)
    places = [(0.0, 0.0, 0.0, False), (0.9, 0.0, 0.0, False), (1.42, 0.1, 0.02, False), (8.0, 2.0, 1.0, False), (-30.0, -6.0, 3.0, True), (0.0, 6.0, 0.0, True)]
    around = [(8.0, 0.0, 0.0, False), (-8.0, 0.0, 0.0, False), (0.5, 7.0, 0.0, False), (0.5, -7.0, 0.0, False), (0.0, 14.0, 0.0, False)]
    combos = list(itertools.product(places, repeat=n))
    combos += [tuple(around[:1]) * (n - 2) + c for c in itertools.product(around, repeat=2)] if n > 1 else []      # on both sides of the goal
    if n > 2:
        combos += [(around[4],) + tuple(around[3:1:-1]) + (around[3],) * (n - 3), (around[4], around[3], around[3]) + (around[3],) * (n - 3)]
    for combo in combos:
        env.time = env.steps = 0
        for car, (dx, dy, h, c) in zip(env.controlled_vehicles, combo):
            put(env, car, env.goal.position + (dx, dy), env.goal.heading + h, 0.0, c)
        case = dict(agents=n, states=combo)
        judge_step(ctx, env, "parking-v0", env.step(tuple(np.zeros(2) for _ in range(n))), case, "agents")
        ctx.state(combo)
    ctx.sample(case)


def norms(ctx, name):
    env = make(name)
    base = np.array([0.2, -0.1, 0.3, -0.2, 0.6, 0.8])
    vals = [np.zeros(6)] + [s * np.eye(6)[k] for k in range(6) for s in (0.01, -0.5, 3.0)] + [np.array(v) for v in itertools.product((-0.4, 0.7), repeat=6)]
    for crashed in (False, True):
        env.vehicle.crashed = crashed
        for d in vals:
            for p in (0.5, 1.0, 0.25):
                for a, b in ((base + d, base), (base, base + d)):
                    w = ref.goal_reward(a, b, crashed, name[0] == "s", p)
                    x, y = a.copy(), b.copy()
                    g = float(env.compute_reward(x, y, {}, p=p))
                    ctx.check(abs(g - w) < 1e-7, "norm", "compute_reward(%s, %s, p=%s) = %s, expected %s" % (a, b, p, g, w), env=name, crashed=crashed)
                    ctx.check(np.array_equal(x, a) and np.array_equal(y, b), "norm/arguments", "compute_reward changed its arguments", env=name)
                    ctx.trans()
                ctx.state((name, crashed, tuple(d), p))
    ctx.sample(dict(env=name))
