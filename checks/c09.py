"""C09: simulation clock, configuration and reset."""
import copy
import inspect
import itertools

import gym
import numpy as np

from vk import envs, hw, ref
from highway_env.road.objects import Obstacle
from vk.freeze import freeze, scene, value
from checks.c03 import shape

PROP = "C09"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "12 environments x 11 pairs of frequencies: frames, their length, clock and step count of all steps of all action sequences of length 2; the frame at which every discrete "
             "and continuous action takes effect; the frame at which a step stops when the ego-vehicle crashes; all sequences of 3 operations among 3 configurations, step, reset, crash, close, then seed and reset, "
             "compared with a fresh instance given the merged configuration, for 12 environments; every pair of instances with every nested configuration changed",
    "thorough": "sequences of 4 operations, action sequences of length 3"}
ASSUMPTIONS = ["nested configurations (observation, action) replace the previous ones as a whole", "between configure and the next reset the behaviour is not judged",
               "a step that ends the episode otherwise than by a crash may stop at any frame"]

FREQS = [(1, 1), (2, 1), (5, 1), (15, 1), (10, 5), (15, 4), (7, 3), (6, 6), (20, 3), (4, 2), (30, 10)]
K = {"type": "Kinematics", "vehicles_count": 3}
LINEAR = "highway_env.vehicle.behavior.LinearVehicle"
DELTAS = {
    "highway": [dict(lanes_count=2, vehicles_count=3, simulation_frequency=6, policy_frequency=2, observation=K),
                dict(initial_lane_id=1, other_vehicles_type=LINEAR, action={"type": "ContinuousAction"}, show_trajectories=True),
                dict(lanes_count=5, controlled_vehicles=2, duration=2, action={"type": "DiscreteMetaAction", "lateral": False}, ego_spacing=1, vehicles_density=2)],
    "merge": [dict(simulation_frequency=6, policy_frequency=2, observation=K), dict(other_vehicles_type=LINEAR, action={"type": "DiscreteMetaAction", "lateral": False}),
              dict(policy_frequency=3, observation={"type": "TimeToCollision"}, action={"type": "DiscreteMetaAction"}, show_trajectories=True)],
    "roundabout": [dict(simulation_frequency=6, policy_frequency=2, observation=K, incoming_vehicle_destination=1), dict(other_vehicles_type=LINEAR, incoming_vehicle_destination=2),
                   dict(policy_frequency=3, observation={"type": "OccupancyGrid"}, duration=2, show_trajectories=True)],
    "two": [dict(simulation_frequency=6, policy_frequency=2, observation=K), dict(other_vehicles_type=LINEAR, action={"type": "DiscreteMetaAction", "longitudinal": False}),
            dict(policy_frequency=3, observation={"type": "TimeToCollision", "horizon": 3}, show_trajectories=True)],
    "intersection": [dict(initial_vehicle_count=2, policy_frequency=5, destination="o2"), dict(other_vehicles_type=LINEAR, spawn_probability=0.0),
                     dict(destination="o3", duration=2, show_trajectories=True)],
    "parking": [dict(simulation_frequency=6, policy_frequency=2), dict(controlled_vehicles=2, action={"type": "ContinuousAction", "steering_range": [-0.3, 0.3]}),
                dict(policy_frequency=3, duration=2, show_trajectories=True)],
    "summon": [dict(simulation_frequency=6, policy_frequency=2, vehicles_count=2), dict(other_vehicles_type=LINEAR, vehicles_count=7),
               dict(policy_frequency=3, duration=2, show_trajectories=True)],
    "lane": [dict(simulation_frequency=20, policy_frequency=5), dict(state_noise=0.0, derivative_noise=0.0, observation={"type": "AttributesObservation", "attributes": ["state"]}),
             dict(policy_frequency=10, state_noise=0.5, show_trajectories=True)],
}


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in envs.NAMES:
        out.append(("clock", (name, 2 if q else 3)))
        for first in range(7):
            out.append(("operations", (name, first, 3 if q else 4, seed)))
        out.append(("isolation", (name,)))
        if not name.startswith("lane") and "ActionRepeat" not in name:
            out.append(("early", (name,)))
    out += [("first_frame", (p,)) for p in range(4)]
    return out


class Frames:
    """Records the frames simulated on any road."""

    def __enter__(self):
        from highway_env.road.road import Road
        self.cls, self.real, self.seen, self.on_frame = Road, Road.step, [], None
        me = self

        def step(road, dt):
            out = me.real(road, dt)
            me.seen.append(dt)
            if me.on_frame:
                me.on_frame()
            return out
        Road.step = step
        return self

    def __exit__(self, *a):
        self.cls.step = self.real


def clock(ctx, name, depth):
    for sim, pol in FREQS:
        env, _ = envs.light(name, 2, simulation_frequency=sim, policy_frequency=pol)
        u = env.unwrapped
        acts = envs.actions(env)[:2]
        n = sim // pol
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(3)
            env.reset()
            case = dict(env=name, simulation_frequency=sim, policy_frequency=pol, sequence=seq)
            ctx.check(u.time == 0 and u.steps == 0, "clock/reset/%s" % name, "time %s, steps %s after reset" % (u.time, u.steps), **case)
            for k, a in enumerate(seq):
                before = (u.time, u.steps)
                with Frames() as f:
                    done = np.any(env.step(acts[a])[2])
                ctx.trans()
                ok = len(f.seen) == n or (done and 1 <= len(f.seen) < n)
                ctx.check(ok, "clock/frames/%s" % name, "%d frames simulated, expected %d" % (len(f.seen), n), **case)
                ctx.check(all(abs(dt - 1 / sim) < 1e-12 for dt in f.seen), "clock/period/%s" % name, "frames of %s s" % sorted(set(f.seen)), **case)
                ctx.check(u.time - before[0] == len(f.seen), "clock/time/%s" % name, "time advanced by %s for %d frames" % (u.time - before[0], len(f.seen)), **case)
                if not name.startswith("lane"):
                    ctx.check(u.steps - before[1] == 1, "clock/steps/%s" % name, "steps advanced by %s" % (u.steps - before[1]), **case)
                ctx.outcome("%d frames%s" % (len(f.seen), " (over)" if done else ""))
                ctx.state((name, sim, pol, seq[:k + 1]))
                if done:
                    break
            ctx.trace()
    ctx.sample(case)


def early(ctx, name):
    """A step in which the ego-vehicle crashes stops at that frame, whichever it is."""
    for sim, pol in ((5, 1), (10, 1), (15, 4), (6, 3)):
        env, _ = envs.light(name, 2, simulation_frequency=sim, policy_frequency=pol)
        acts = envs.actions(env)
        n = sim // pol
        for gap, a in itertools.product((0.3, 1.5, 3.1, 5.2, 8.3, 14.0, 22.0), range(min(len(acts), 3))):
            env.seed(3)
            env.reset()
            u = env.unwrapped
            car = u.vehicle
            ahead = np.array([np.cos(car.heading), np.sin(car.heading)])
            u.road.objects = [o for o in u.road.objects if type(o).__name__ == "Landmark"]
            u.road.vehicles = list(u.controlled_vehicles)
            wall = Obstacle(u.road, car.position + (car.LENGTH / 2 + 1.1 + gap) * ahead, heading=car.heading)
            u.road.objects.append(wall)
            hits = []
            for step in range(3):
                case = dict(env=name, simulation_frequency=sim, policy_frequency=pol, gap=gap, action=a, step=step)
                with Frames() as f:
                    f.on_frame = lambda: hits.append(bool(car.crashed))
                    out = env.step(acts[a])
                ctx.trans()
                if any(hits):
                    ctx.check(hits.index(True) == len(hits) - 1 and np.any(out[2]), "early/%s" % name,
                              "the ego-vehicle crashes at frame %d and the step goes on for %d more" % (hits.index(True) + 1, len(hits) - 1 - hits.index(True)), **case)
                    ctx.outcome("crash at frame %d of %d" % ((len(hits) - 1) % n + 1, n))
                    break
                if np.any(out[2]):
                    break
            ctx.state((name, sim, pol, gap, a))
            ctx.trace()
    ctx.sample(case)


def first_frame(ctx, part):
    """Every action takes effect at the first frame of the step, once."""
    for sim, pol in FREQS[part::4]:
        n = sim // pol
        env, _ = envs.light("highway-v0", 0, vehicles_count=0, simulation_frequency=sim, policy_frequency=pol, lanes_count=4, initial_lane_id=1, duration=1000)
        car = env.vehicle
        log = []
        for seq in itertools.product(range(5), repeat=3):
            env.seed(0)
            env.reset()
            car = env.vehicle
            want = (car.target_lane_index[2], car.speed_index)
            for k, a in enumerate(seq):
                log.clear()
                with Frames() as f:
                    f.on_frame = lambda: log.append((env.vehicle.target_lane_index[2], round((env.vehicle.target_speed - 20) / 5, 6)))
                    env.step(a)
                lane, idx = want
                if car.lane_index[2] == lane or a not in (0, 2):      # from the middle of a manoeuvre, see C10
                    lane += {0: -1, 2: 1}.get(a, 0) if 0 <= lane + {0: -1, 2: 1}.get(a, 0) < 4 else 0
                    if a in (3, 4):
                        idx = None
                    ctx.trans()
                    ctx.check(len(set(log)) == 1, "first-frame/discrete", "set-points over the frames of a step: %s" % log, sequence=seq[:k + 1],
                              simulation_frequency=sim, policy_frequency=pol)
                want = (car.target_lane_index[2], car.speed_index)
                ctx.state((sim, pol, seq[:k + 1]))
            ctx.trace()
        env, _ = envs.light("highway-v0", 0, vehicles_count=0, simulation_frequency=sim, policy_frequency=pol, action={"type": "ContinuousAction"}, duration=1000)
        for seq in itertools.product((-0.6, 0.0, 0.4), repeat=3):
            env.seed(0)
            env.reset()
            car = env.vehicle
            for k, a in enumerate(seq):
                v, log = car.speed, []
                with Frames() as f:
                    f.on_frame = lambda: log.append(car.speed)
                    env.step(np.array([a, 0.0]))
                want = [v + 5.0 * a * (i + 1) / sim for i in range(n)]
                ctx.trans()
                ctx.check(len(log) == n and np.allclose(log, want, atol=1e-9), "first-frame/continuous", "speeds %s, expected %s" % (log, want), sequence=seq[:k + 1],
                          simulation_frequency=sim, policy_frequency=pol)
                ctx.state((sim, pol, seq[:k + 1]))
            ctx.trace()
        # the same over several seconds: every rotation of a cycle of commands
        menu = [0.3, -0.2, 0.5, 0.0, -0.4, 0.1, -0.3]
        for shift in range(len(menu)):
            env.seed(0)
            env.reset()
            car = env.vehicle
            for k in range(4 * pol + 2):
                a = menu[(k + shift) % len(menu)]
                v, log = car.speed, []
                with Frames() as f:
                    f.on_frame = lambda: log.append(car.speed)
                    env.step(np.array([a, 0.0]))
                want = [v + 5.0 * a * (i + 1) / sim for i in range(n)]
                ctx.trans()
                ctx.check(len(log) == n and np.allclose(log, want, atol=1e-9), "first-frame/continuous", "speeds %s, expected %s" % (log, want), step=k,
                          first=shift, simulation_frequency=sim, policy_frequency=pol)
                ctx.state((sim, pol, "long", shift, k))
            ctx.trace()
        ctx.outcome("%d frames per step" % n)
    ctx.sample(dict(simulation_frequency=sim, policy_frequency=pol))


def kind_of(name):
    return name.split("-")[0]


def deltas(name):
    ds = copy.deepcopy(DELTAS[kind_of(name)])
    if "multi" in name:
        ds[0]["controlled_vehicles"] = 1
        ds[2]["controlled_vehicles"] = 3
    return ds


def explicit(ctx, env, cfg, obs, case):
    """What the configuration says about the scene, independently of any other instance."""
    u, kind = env.unwrapped, kind_of(case["env"])

    def ok(cond, what, text):
        ctx.check(bool(cond), "effect/%s/%s" % (what, case["env"]), text, **case)
    ok(u.time == 0 and u.steps == 0 and not u.done, "clock", "time %s, steps %s, done %s after reset" % (u.time, u.steps, u.done))
    agents = u.controlled_vehicles
    ok(agents and not any(a.crashed for a in agents), "crash", "crashed controlled vehicles after reset")
    ok(all(sum(v is a for v in u.road.vehicles) == 1 for a in agents), "agents", "controlled vehicles are not (once) on the road")
    want = cfg.get("controlled_vehicles", 1) if kind != "summon" else 1
    ok(len(agents) == want, "agents", "%d controlled vehicles, expected %d" % (len(agents), want))
    if kind == "highway":
        ok(len(u.road.network.graph["0"]["1"]) == cfg["lanes_count"], "lanes", "lanes")
        ok(len(u.road.vehicles) == cfg["vehicles_count"] + want, "vehicles", "%d vehicles" % len(u.road.vehicles))
        if cfg["initial_lane_id"] is not None:
            ok(all(a.lane_index[2] == cfg["initial_lane_id"] for a in agents), "initial lane", "initial lane")
    if kind == "intersection" and cfg["destination"]:
        ok(all(a.route[-1][1] == cfg["destination"] for a in agents if a.lane_index[0] != cfg["destination"]), "destination", "routes %s" % [a.route for a in agents])
    if kind == "roundabout" and cfg["incoming_vehicle_destination"] is not None:
        ok(any(v.route and v.route[-1][1] == ["exr", "sxr", "nxr"][cfg["incoming_vehicle_destination"]] for v in u.road.vehicles[1:2]), "destination",
           "routes %s" % [v.route for v in u.road.vehicles])
    if kind in ("highway", "merge", "roundabout", "two", "intersection"):
        others = {type(v).__name__ for v in u.road.vehicles if v not in agents}
        ok(others <= {cfg["other_vehicles_type"].split(".")[-1]}, "type", "other vehicles are %s" % others)
    ok(bool(u.road.record_history) == bool(cfg["show_trajectories"]), "history", "record_history is %s" % u.road.record_history)
    rng = u.np_random.get_state()
    sp, w = u.observation_space, shape(cfg["observation"], u)
    u.np_random.set_state(rng)                      # reading noisy attributes draws from the generator
    got = [s.shape for s in sp.spaces] if isinstance(w, list) else {k: s.shape for k, s in sp.spaces.items()} if isinstance(w, dict) else sp.shape
    ok(got == w, "space", "observation space of shape %s, expected %s" % (got, w))
    a, multi = cfg["action"], cfg["action"]["type"] == "MultiAgentAction"
    a = a["action_config"] if multi else a
    sps = u.action_space.spaces if multi else [u.action_space]
    ok(len(sps) == (want if multi else 1), "space", "%d action spaces" % len(sps))
    lo, la = a.get("longitudinal", True), a.get("lateral", True)
    for s in sps:
        if a["type"] == "DiscreteMetaAction":
            ok(getattr(s, "n", None) == (5 if lo and la else 3), "space", "action space %s" % s)
        else:
            ok(s.shape == (2 if lo and la else 1,), "space", "action space %s" % s)
    for v in agents:
        ok(isinstance(v, hw.MDPVehicle) == (a["type"] == "DiscreteMetaAction"), "agents", "controlled vehicles of type %s" % type(v).__name__)
    n = cfg["simulation_frequency"] // cfg["policy_frequency"]
    with Frames() as f:
        out = env.step(envs.actions(env)[0])
    ok(len(f.seen) == n or np.any(out[2]) and 1 <= len(f.seen) < n, "frames", "%d frames in the first step, expected %d" % (len(f.seen), n))
    ok(all(abs(dt - 1 / cfg["simulation_frequency"]) < 1e-12 for dt in f.seen), "period", "frames of %s s" % set(f.seen))
    return out


def bare(name, cfg):
    """A fresh instance, given the whole configuration at construction where the class allows it."""
    spec = gym.envs.registry.env_specs[name].entry_point
    cls = getattr(__import__("highway_env.envs", fromlist=["x"]), spec.split(":")[1]) if isinstance(spec, str) else spec
    if "config" in inspect.signature(cls.__init__).parameters:
        return cls(config=copy.deepcopy(cfg))
    env = cls()
    env.unwrapped.configure(copy.deepcopy(cfg))
    return env


def operations(ctx, name, first, depth, seed):
    ds = deltas(name)
    base = dict(envs.LIGHT[name])
    defaults = copy.deepcopy(envs.raw(name).unwrapped.config)
    fresh = {}

    def reference(merged):
        k = repr(sorted(merged.items(), key=str))
        if k not in fresh:
            env = bare(name, merged)
            env.seed(seed + 3)
            obs = env.reset()
            got = [value(obs), scene(env.unwrapped), str(env.unwrapped.observation_space), str(env.unwrapped.action_space), freeze(env.unwrapped.config)]
            fresh[k] = (got, value(env.step(envs.actions(env.unwrapped)[0])[:3]), scene(env.unwrapped))
        return fresh[k]

    env = envs.raw(name)
    for seq in itertools.product(range(7), repeat=depth - 1):
        ops = (first,) + seq
        if first > 2 and sum(o < 3 for o in ops) == 0 and ops != (first,) * depth:
            continue
        env = envs.raw(name) if sum(ops) % 3 == 0 else env
        u = env.unwrapped
        u.config.clear()
        u.config.update(copy.deepcopy(defaults))
        u.configure(dict(base))
        env.seed(1)
        env.reset()
        merged = dict(base)
        over = False
        for o in ops:
            if o < 3:
                given = copy.deepcopy(ds[o])
                frozen = freeze(given)
                u.configure(given)
                merged.update(ds[o])
                ctx.check(freeze(given) == frozen, "argument/%s" % name, "configure changed its argument", env=name, operations=ops)
                over = True                     # stepping across two configurations is not judged, only survived where the spaces allow
            elif o == 3 and not over:
                over = bool(np.any(env.step(envs.actions(u)[0])[2]))
            elif o == 4:
                env.reset()
                over = False
            elif o == 5 and not over:
                u.vehicle.crashed = True
                env.step(envs.actions(u)[1])
                over = True
            elif o == 6:
                u.close()
        case = dict(env=name, operations=["configure %s" % ds[o] if o < 3 else ("step", "reset", "crash", "close")[o - 3] for o in ops])
        env.seed(seed + 3)
        obs = env.reset()
        u = env.unwrapped
        want_cfg = dict(copy.deepcopy(defaults), **merged)
        ctx.check({k: v for k, v in u.config.items()} == want_cfg, "config/%s" % name, "configuration %s, expected %s" % (u.config, want_cfg), **case)
        ctx.trans()
        got = [value(obs), scene(u), str(u.observation_space), str(u.action_space)]
        want, step1, after = reference(merged)
        for i, what in enumerate(("first observation", "scene", "observation space", "action space")):
            ctx.check(got[i] == want[i], "fresh/%s/%s" % (what, name), "%s differs from a fresh instance with the same configuration" % what, **case)
        out = explicit(ctx, u, want_cfg, obs, case)
        if name != "intersection-multi-agent-v1":
            ctx.check(value(out[:3]) == step1, "fresh/step/%s" % name, "the first step differs from a fresh instance with the same configuration", **case)
        ctx.check(scene(u) == after, "fresh/next scene/%s" % name, "the next scene differs from a fresh instance with the same configuration", **case)
        ctx.state((name, ops))
        ctx.outcome("%s, %d configurations" % (name, sum(o < 3 for o in ops)))
        ctx.trace()
    ctx.sample(case)


def isolation(ctx, name):
    """Changing the configuration of an instance, at any depth, changes nothing else."""
    a, b = envs.raw(name).unwrapped, envs.raw(name).unwrapped
    cls = type(a)
    default = freeze(cls.default_config())
    b0 = freeze(b.config)
    ctx.check(freeze(a.config) == b0, "isolation/initial/%s" % name, "two new instances have different configurations", env=name)

    def look(what):
        ctx.trans()
        ctx.check(freeze(b.config) == b0, "isolation/instance/%s" % name, "%s changed the configuration of another instance" % what, env=name)
        ctx.check(freeze(cls.default_config()) == default, "isolation/default/%s" % name, "%s changed the default configuration" % what, env=name)
        c = envs.raw(name).unwrapped
        ctx.check(freeze(c.config) == b0, "isolation/new/%s" % name, "%s changed the configuration of a new instance" % what, env=name)
        ctx.state((name, what))
        ctx.outcome(name)

    def paths(d, prefix=()):
        for k, v in d.items():
            yield prefix + (k,)
            if isinstance(v, dict):
                yield from paths(v, prefix + (k,))
            if isinstance(v, list):
                yield prefix + (k, 0)
    for p in list(paths(a.config)):
        d = a.config
        for k in p[:-1]:
            d = d[k]
        old = copy.deepcopy(d[p[-1]])
        d[p[-1]] = "changed"
        look("config%s" % (list(p),))
        d[p[-1]] = old
    for d in deltas(name):
        a.configure(copy.deepcopy(d))
        look("configure(%s)" % d)
        a.seed(0)
        a.reset()
        look("reset")
        a.step(envs.actions(a)[0])
        look("step")
    ctx.trace()
    ctx.sample(dict(env=name))
