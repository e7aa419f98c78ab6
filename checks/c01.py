"""C01: a seed and an action sequence determine the whole episode."""
import itertools
import os
import random
import subprocess
import sys
import time

import numpy as np

from vk import core, envs
from vk.freeze import value, scene, digest

PROP = "C01"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "12 environments: all action sequences of length 3 (2 actions), seeds 0-1, repeated after every history of a menu (previous episodes of the same object, "
             "with other seeds, actions and configurations; other objects); all 20 interleavings of reset-step-step with reset-step-step of itself, of highway-v0, of intersection-v0 "
             "and of two other environments; the global generators and the clock changed before every operation (4 patterns, in up to 8 variants per environment: driver types, shuffled observations, traffic without routes, random destinations, planning preprocessors); 3 hash seeds in separate processes",
    "thorough": "length 4, seeds 0-3, interleavings of 3 steps (70 schedules) for all 12 x 12 pairs, 10 hash seeds"}
ASSUMPTIONS = ["each environment is seeded explicitly before reset",
               "known finding: creating traffic for an intersection changes three parameters of the class of the other vehicles"]

IDM_FIELDS = ("DISTANCE_WANTED", "COMFORT_ACC_MAX", "COMFORT_ACC_MIN")


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in envs.NAMES:
        for s in range(2 if q else 4):
            out.append(("histories", (name, s + seed - 1, 3 if q else 4)))
        out += [("globals_", (name,) + v) for v in variants(name)]
        k = envs.NAMES.index(name)
        for other in (sorted({"intersection-v0", "highway-v0", name, envs.NAMES[(k + 1) % 12], envs.NAMES[(k + 5) % 12]}) if q else envs.NAMES):
            out.append(("schedules", (name, other, 2 if q else 3)))
    out += [("hashes", (h,)) for h in (range(1, 4) if q else range(1, 11))]
    return out


def outcome(env, out):
    u = env.unwrapped
    return (value(out), scene(u))


def start(env, s):
    env.seed(s)
    return outcome(env, env.reset())


def do(env, acts, a):
    o, r, d, i = env.step(acts[a])
    return outcome(env, (o, r, d, i))


def episode(env, s, seq):
    acts = envs.actions(env)
    res = [start(env, s)]
    for a in seq:
        res.append(do(env, acts, a))
    return res


def differ(ctx, key, got, want, what, case):
    ctx.trans(len(got))
    if got != want:
        i = next(i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i])
        ctx.violate(key, "%s: the episode differs at %s" % (what, "reset" if i == 0 else "step %d" % i), **case)


def histories(ctx, name, s, depth):
    ref = {}
    env, _ = envs.light(name, s)
    n = 2
    for seq in itertools.product(range(n), repeat=depth):
        ref[seq] = episode(env, s, seq)
        ctx.trace()
    seqs = sorted(ref)

    def h_none(e):
        pass

    def h_same(e):
        episode(e, s, seqs[-1])

    def h_seed(e):
        episode(e, s + 17, seqs[1])

    def h_half(e):
        e.seed(3)
        e.reset()
        e.step(envs.actions(e)[0])
        e.reset()

    def h_long(e):
        e.seed(5)
        e.reset()
        for k in range(12):
            if e.step(envs.actions(e)[k % 2])[2] is True:
                break

    def h_unseeded(e):
        e.reset()
        e.step(envs.actions(e)[1])

    def h_config(e):
        u = e.unwrapped
        old = {k: u.config[k] for k in ("simulation_frequency", "policy_frequency", "other_vehicles_type")}
        u.configure({"simulation_frequency": 10, "policy_frequency": 10})
        e.seed(2)
        e.reset()
        e.step(envs.actions(e)[0])
        u.configure(old)

    def h_copy(e):
        import copy
        c = copy.deepcopy(e.unwrapped)
        acts = envs.actions(e)
        c.step(acts[0])
        c.reset()

    for hist in (h_none, h_same, h_seed, h_half, h_long, h_unseeded, h_config, h_copy):
        for fresh in (False, True):
            e = env
            if fresh:
                e, _ = envs.light(name, 99)
            hist(e)
            for seq in seqs if not fresh else seqs[:2] + seqs[-1:]:
                if not fresh and seq not in (seqs[0], seqs[3], seqs[-2]):
                    continue
                case = dict(env=name, seed=s, sequence=seq, history=hist.__name__, fresh=fresh)
                differ(ctx, "history/%s/%s" % (hist.__name__, name), episode(e, s, seq), ref[seq], "after %s" % hist.__name__, case)
                ctx.state((name, s, seq, hist.__name__, fresh))
                ctx.outcome("%s %s" % (name, digest(ref[seq])[:4]))
                hist(e) if not fresh else None
    ctx.check(len({repr(v) for v in ref.values()}) > 1, "sensitive/%s" % name, "all action sequences give the same episode", env=name, seed=s)
    ctx.sample(case)


LINEAR, DEFENSIVE = "highway_env.vehicle.behavior.LinearVehicle", "highway_env.vehicle.behavior.DefensiveVehicle"


def variants(name):
    """Configurations and uses of an environment, all of which involve randomness in a different way."""
    kin = dict(type="Kinematics", vehicles_count=6, order="shuffled")
    out = [("default", {}, 3)]
    if name in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0", "intersection-multi-agent-v0"):
        multi = "multi" in name
        out += [("linear", dict(other_vehicles_type=LINEAR), 4), ("defensive", dict(other_vehicles_type=DEFENSIVE), 3), ("planner", {}, 2), ("unrouted", {}, 9)]
        if not multi:
            out += [("shuffled", dict(observation=kin), 3)]
        if name.startswith("intersection"):
            out += [("busy", dict(spawn_probability=1.0, initial_vehicle_count=14, other_vehicles_type=LINEAR), 5), ("random destination", dict(destination=None), 3)]
        if name == "roundabout-v0":
            out += [("random destination", dict(incoming_vehicle_destination=None), 3)]
        if name == "highway-v0":
            out += [("random lane", dict(initial_lane_id=None, vehicles_density=2, lanes_count=5), 3)]
    return out


def globals_(ctx, name, kind, config, steps):
    """Different answers of the global generators and of the clock before every operation."""
    seq = ((0, 1, 0, 1, 1, 0, 0, 1, 0) if kind != "unrouted" else (1,) * 9)[:steps]
    real = {f: getattr(time, f) for f in ("time", "perf_counter", "monotonic")}
    ref = None
    for pattern in range(5):
        try:
            env, _ = envs.light(name, 1)
            u = env.unwrapped
            u.configure(config)

            def disturb(k):
                np.random.seed((pattern * 7919 + k * 31) % 1000)
                random.seed(pattern * 104729 + k)
                np.random.rand(pattern + k)
                for f in real:
                    setattr(time, f, (lambda v: (lambda: v))(1e6 * pattern + k * 13.7))
            disturb(0)
            got = [start(env, 11)]
            acts = envs.actions(env)
            if kind == "unrouted":
                for v in u.road.vehicles:
                    v.route = v.route if v in u.controlled_vehicles else []
            for k, a in enumerate(seq):
                disturb(k + 1)
                got.append(do(env, acts, a))
                if got[-1][0][2] is True or kind == "unrouted" and got[-1][0][2]:
                    break
            if kind == "planner":
                for k, (what, arg) in enumerate([("set_route_at_intersection", ("random",)), ("randomize_behaviour", ()), ("simplify", ()),
                                                 ("change_vehicles", (LINEAR,)), ("change_vehicles", ("highway_env.vehicle.behavior.AggressiveVehicle",))]):
                    disturb(100 + k)
                    c = getattr(u, what)(*arg)
                    got.append((what, scene(c)))
                    for b in (0, 1):
                        disturb(200 + 2 * k + b)
                        got.append(do(c, acts, b))
                    disturb(300 + k)
                    got.append((what, [[str(getattr(v, "route", 0)) for v in c.road.vehicles]]))
        finally:
            for f in real:
                setattr(time, f, real[f])
        ref = ref or got
        differ(ctx, "globals/%s" % name, got, ref, "with other global generators and clock (%s)" % kind, dict(env=name, pattern=pattern, variant=kind))
        ctx.state((name, kind, pattern))
        ctx.outcome("%s globals" % name)
        ctx.trace()
    ctx.sample(dict(env=name, variant=kind, sequence=seq))


def schedules(ctx, name, other, steps):
    """All interleavings of an episode with an episode of another environment object."""
    from highway_env.vehicle.behavior import IDMVehicle
    seq = (0, 1, 0)[:steps]
    env, _ = envs.light(name, 1)
    ref = episode(env, 4, seq)
    polluter = other.startswith("intersection") and not name.startswith("intersection")
    modes = ["guarded", "raw"] if polluter else ["raw"]
    clean = {k: getattr(IDMVehicle, k) for k in IDM_FIELDS}
    for mode in modes:
        def guard():
            if mode == "guarded":
                for k, v in clean.items():
                    setattr(IDMVehicle, k, v)
        b, _ = envs.light(other, 2)
        guard()
        n = steps + 1
        for pos in itertools.combinations(range(2 * n), n):
            got, got_b = [], []
            for t in range(2 * n):
                if t in pos:
                    k = len(got)
                    got.append(start(env, 4) if k == 0 else do(env, envs.actions(env), seq[k - 1]))
                else:
                    k = len(got_b)
                    got_b.append(start(b, 6) if k == 0 else do(b, envs.actions(b), seq[k - 1]))
                    guard()
            case = dict(env=name, other=other, schedule="".join("AB"[t not in pos] for t in range(2 * n)), parameters=mode)
            key = "interference/%s/%s" % (other, name) if mode == "raw" else "interference-guarded/%s/%s" % (other, name)
            differ(ctx, key, got, ref, "interleaved with %s" % other, case)
            ctx.state((name, other, pos, mode))
            ctx.outcome("%s with %s" % (name, other))
            ctx.trace()
    ctx.sample(case)


PROBE = r"""
import sys
sys.path.insert(0, %r)
from vk import core
core.bootstrap()
from vk import envs
from vk.freeze import digest
from checks import c01
for name in envs.NAMES:
    if name.startswith("intersection"):
        continue
    env, _ = envs.light(name, 1)
    print(name, digest(c01.episode(env, 8, (0, 1, 1))))
for name in envs.NAMES:
    if name.startswith("intersection"):
        env, _ = envs.light(name, 1)
        print(name, digest(c01.episode(env, 8, (0, 1, 1))))
"""


def probe(h):
    e = dict(os.environ, PYTHONHASHSEED=str(h), PYTHONDONTWRITEBYTECODE="1")
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", PROBE % core.VERIF], env=e, cwd=core.VERIF, capture_output=True, text=True, timeout=300)
    if out.returncode:
        raise RuntimeError("probe failed: " + out.stderr[-1500:])
    return dict(l.split() for l in out.stdout.splitlines() if len(l.split()) == 2)


def hashes(ctx, h):
    a, b = probe(0), probe(h * 1000 + 7)
    for name in sorted(a):
        ctx.trans()
        ctx.state((h, name))
        ctx.check(a[name] == b.get(name), "hashseed/%s" % name, "the episode depends on the hash seed of the process", env=name, hash_seed=h * 1000 + 7)
        ctx.outcome("hash seeds agree")
    ctx.trace(2)
    ctx.sample(dict(hash_seed=h, digests=a))
