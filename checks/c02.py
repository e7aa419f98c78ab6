"""C02: copies of an environment are independent and evolve like the original."""
import copy
import itertools
import os

import numpy as np

from vk import hw, envs, ref
from vk.freeze import freeze, value, scene, body, scribble

PROP = "C02"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 environments, every state reached by action sequences of length 0-1 (0-2 in 3 of them; 2 actions), a deep copy taken there; all interleavings of 2 operations on "
             "the original and 2 on the copy (3 operation sequences each, out of steps, reseeded resets, reconfiguration), each against a twin that was never copied, and each leaving the other's "
             "whole object graph unchanged, and finally every array, container, object and random source of the copy written to or drawn from; copies of copies; all preprocessors x argument menus from every state reached by 0-2 actions; "
             "filmed originals and rendered copies, in all orders of 2 steps, by the pictures of both",
    "thorough": "3 actions, all pairs of operation sequences, 2 seeds"}
ASSUMPTIONS = ["change_vehicles to plain vehicles is not judged on regulated roads, which need routes", "the viewer and its callback are not part of the copy (documented)",
               "change_vehicles keeps the vehicles' dynamics and targets only (documented)",
               "call_vehicle_method replaces a vehicle by what the method returns"]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for name in envs.MAIN:
        for s in range(1 if q else 2):
            for length in range(3):
                for first in range(2 if q else 3) if length else (0,):
                    if not q or length < 2 or name in ("merge-v0", "two-way-v0", "lane-keeping-v0"):
                        out.append(("copies", (name, s, length, first, 2 if q else 3, q)))
                    out.append(("prep", (name, s, length, first, 2 if q else 3)))
        out.append(("viewers", (name, q)))
    return out


def replay(name, s, prefix):
    env, _ = envs.light(name, s)
    acts = envs.actions(env)
    for a in prefix:
        env.step(acts[a])
    return env, acts


def apply(env, acts, op):
    """The visible outcome of an operation."""
    kind, arg = op
    if kind == "step":
        if env.road is None:
            return None
        o, r, d, i = env.step(acts[arg])
        return ("step", value(o), value(r), value(d), value({k: v for k, v in i.items()}), scene(env))
    if kind == "reset":
        if arg is not None:
            env.seed(arg)
        return ("reset", value(env.reset()), scene(env))
    if kind == "configure":
        env.configure({"policy_frequency": arg, "simulation_frequency": 2 * arg})
        return ("configure",)
    raise ValueError(op)


SEQS = [(("step", 0), ("step", 1)), (("step", 1), ("reset", None)), (("configure", 2), ("step", 0)),
        (("reset", 7), ("step", 0)), (("step", 0), ("step", 0)), (("reset", None), ("step", 1))]


def interleavings(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield ["orig" if i in pos else "copy" for i in range(n + m)]


def prefixes(length, first, n):
    return [()] if length == 0 else [(first,) + p for p in itertools.product(range(n), repeat=length - 1)]


def copies(ctx, name, s, length, first, n_acts, quick):
    heavy = name in ("roundabout-v0", "intersection-v0", "intersection-multi-agent-v0", "summon-v0")
    for prefix in prefixes(length, first, n_acts):
        solo = {}
        for ops in SEQS:
            env, acts = replay(name, s, prefix)
            solo[ops] = [apply(env, acts, op) for op in ops]
        pairs = [(a, b) for i, a in enumerate(SEQS) for j, b in enumerate(SEQS) if not quick or (i + j) % (6 if heavy else 3 if length < 2 else 6) == length % 3]
        for (so, sc) in pairs:
            for order in interleavings(2, 2):
                env, acts = replay(name, s, prefix)
                case = dict(env=name, seed=s, prefix=prefix, original=so, copy=sc, order=order)
                before = freeze(env)
                dup = copy.deepcopy(env)
                ctx.check(freeze(env) == before, "copying/%s" % name, "taking a copy changed the original", **case)
                ctx.check(freeze(dup) == before, "equal/%s" % name, "the copy differs from the original", **case)
                who = {"orig": [env, iter(zip(so, solo[so]))], "copy": [dup, iter(zip(sc, solo[sc]))]}
                for side in order:
                    me = who[side]
                    other = who["copy" if side == "orig" else "orig"][0]
                    frozen = freeze(other)
                    op, want = next(me[1])
                    got = apply(me[0], acts, op)
                    ctx.check(got == want, "evolution/%s/%s" % (side, name), "the %s diverges from an environment that was never copied at %s" % (side, op), **case)
                    ctx.check(freeze(other) == frozen, "independence/%s/%s" % (side, name), "%s on the %s changed the other one" % (op, side), **case)
                    ctx.trans()
                ctx.state((name, s, prefix, so, sc, tuple(order)))
                if order[-1] == "orig":
                    frozen = freeze(env)
                    scribble(dup)
                    ctx.check(freeze(env) == frozen, "shared/%s" % name, "writing into the copy, or drawing from its random source, changed the original", **case)
                ctx.outcome(name)
                ctx.trace()
        # a copy of a copy, after the copy has moved on
        env, acts = replay(name, s, prefix)
        one = copy.deepcopy(env)
        first_out = apply(one, acts, ("step", 0))
        two = copy.deepcopy(one)
        for ops in SEQS[:2]:
            c1, c2 = copy.deepcopy(two), copy.deepcopy(env)
            apply(c2, acts, ("step", 0))
            for op in ops:
                ctx.check(apply(c1, acts, op) == apply(c2, acts, op), "copy-of-copy/%s" % name, "diverges at %s" % (op,), env=name, prefix=prefix)
                ctx.trans()
    ctx.sample(dict(env=name, prefix=prefix, original=so, copy=sc, order=order))


def viewers(ctx, name, quick):
    """An environment that is filmed, and its copy that is shown too: neither appears on the film or on the screen of the other."""
    os.environ.pop("SDL_VIDEODRIVER", None)
    dims = dict(offscreen_rendering=True, screen_width=160, screen_height=80)
    n = 2 if quick else 3
    for taken in range(3):
        for order in itertools.product(("orig", "copy"), repeat=n):
            film, state = {}, {}
            for alone in (True, False):
                env, _ = envs.light(name, 0, **dims)
                u, acts = env.unwrapped, envs.actions(env)
                frames, dup = [], None

                def capture():
                    frames.append(u.render("rgb_array").tobytes())
                u.automatic_rendering_callback = capture
                u.render("rgb_array")
                if not alone and taken == 0:
                    dup = copy.deepcopy(u)
                env.step(acts[0])
                if not alone and taken:
                    dup = copy.deepcopy(u)
                case = dict(env=name, taken=taken, order=order)
                for side in order:
                    if side == "orig":
                        u.render("rgb_array")
                        env.step(acts[1])
                    elif dup is not None:
                        count, last = len(frames), u.render("rgb_array").copy()
                        if taken < 2:
                            dup.render("rgb_array")
                        dup.step(acts[0])
                        if taken < 2:
                            dup.render("rgb_array")
                        ctx.check(len(frames) == count, "viewer/film", "%d pictures of the copy on the film of the original" % (len(frames) - count), **case)
                        ctx.check(np.array_equal(u.viewer.get_image(), last), "viewer/screen", "the copy draws on the screen of the original", **case)
                    ctx.trans()
                film[alone], state[alone] = list(frames), freeze(u.road)
            ctx.check(film[True] == film[False], "viewer/film", "the film of the original is not the one made without a copy", **case)
            ctx.check(state[True] == state[False], "viewer/state", "the original is not where it is without a copy", **case)
            ctx.state((name, taken, order))
            ctx.trace()
    ctx.outcome("viewers")
    ctx.sample(case)


# -- preprocessors ----------------------------------------------------------------------------
P = "highway_env.vehicle."


def routes_at_intersection(net, route):
    """The possible routes at the first of the next three road ends which has several outgoing roads."""
    if not route:
        return None
    for i in range(min(3, len(route))):
        nxt = list(net.graph.get(route[i][1], {}))
        if len(nxt) >= 2:
            return [tuple(map(tuple, route[:i + 1])) + ((route[i][1], d),) for d in nxt]
    return [tuple(map(tuple, route))]


def prep(ctx, name, s, length, first, n_acts):
    for prefix in prefixes(length, first, n_acts):
        env, acts = replay(name, s, prefix)
        twin, _ = replay(name, s, prefix)
        twin_out = [apply(twin, acts, op) for op in SEQS[0]]
        base = freeze(env)
        n = len(env.road.vehicles)
        olds = list(env.road.vehicles)
        multi = len(env.controlled_vehicles) > 1

        def run(label, fn, judge):
            case = dict(env=name, seed=s, prefix=prefix, preprocessor=label)
            dup = fn()
            ctx.check(dup is not env and dup.road is not env.road, "prep/copy/%s" % label.split()[0], "no copy was made", **case)
            ctx.check(freeze(env) == base, "prep/original/%s" % label.split()[0], "the original was changed", **case)
            ctx.check(dup.time == env.time and dup.steps == env.steps and dup.config == env.config, "prep/clock/%s" % label.split()[0], "clock or configuration differ", **case)
            for o, p in zip(env.road.objects, dup.road.objects):
                ctx.check(body(o) == body(p), "prep/objects/%s" % label.split()[0], "an object changed", **case)
            for v in dup.road.vehicles:
                ctx.check(v.road is dup.road and all(v is not o for o in olds), "prep/linked/%s" % label.split()[0],
                          "%s of the copy belongs to the original" % v, **case)
            judge(dup, case)
            if not multi or label.split()[0] != "change_vehicles":
                for op in SEQS[0]:
                    apply(dup, acts, op)
                ctx.check(freeze(env) == base, "prep/independence/%s" % label.split()[0], "stepping the copy changed the original", **case)
            scribble(dup)
            ctx.check(freeze(env) == base, "prep/shared/%s" % label.split()[0], "writing into the copy, or drawing from its random source, changed the original", **case)
            ctx.trans()
            ctx.state((name, s, prefix, label))
            ctx.outcome("%s %s" % (label.split()[0], "ok"))

        def same(dup, case, concerned, changed, label):
            """Vehicles that are not concerned are identical; the others differ at most in the fields ``changed``."""
            ctx.check(len(dup.road.vehicles) == n, "prep/count/%s" % label, "%d vehicles instead of %d" % (len(dup.road.vehicles), n), **case)
            for o, p in zip(olds, dup.road.vehicles):
                d1 = {k: freeze(x) for k, x in vars(o).items() if k not in ("road", "lane") and not (concerned(o) and k in changed)}
                d2 = {k: freeze(x) for k, x in vars(p).items() if k not in ("road", "lane") and not (concerned(o) and k in changed)}
                ctx.check(type(o) is type(p) and d1 == d2, "prep/others/%s" % label, "%s and %s differ in %s" %
                          (o, p, [k for k in set(d1) | set(d2) if d1.get(k) != d2.get(k)]), **case)

        # simplify
        for shrink in (None, 40.0, 12.0):
            def go(shrink=shrink):
                return env.simplify()
            old_distance = env.PERCEPTION_DISTANCE
            if shrink is not None:
                env.PERCEPTION_DISTANCE = shrink
                base = freeze(env)

            def judge(dup, case, dist=shrink or old_distance):
                keep = [o for o in olds if o is env.vehicle or np.linalg.norm(o.position - env.vehicle.position) < dist]
                got = sorted(repr(body(v)) for v in dup.road.vehicles)
                ctx.check(got == sorted(repr(body(o)) for o in keep), "prep/simplify", "%d vehicles kept, expected %d" % (len(got), len(keep)), **case)
                ctx.check(dup.road.vehicles[0] is dup.vehicle, "prep/simplify/ego", "the ego-vehicle is not first", **case)
            run("simplify %s" % shrink, go, judge)
            if shrink is not None:
                del env.PERCEPTION_DISTANCE
                base = freeze(env)

        # change_vehicles
        for cls in ("behavior.IDMVehicle", "behavior.LinearVehicle", "controller.ControlledVehicle", "kinematics.Vehicle")[:3 if name.startswith("intersection") else 4]:
            def judge(dup, case, cls=cls):
                ctx.check(len(dup.road.vehicles) == n, "prep/count/change_vehicles", "%d vehicles" % len(dup.road.vehicles), **case)
                for i, (o, p) in enumerate(zip(olds, dup.road.vehicles)):
                    if o is env.vehicle:
                        ctx.check(body(o) == body(p) and p is dup.vehicle, "prep/change_vehicles/ego", "the ego-vehicle changed", **case)
                        continue
                    ctx.check(type(p).__name__ == cls.split(".")[1], "prep/change_vehicles/type", "%s" % type(p), **case)
                    fields = [x(o) == x(p) for x in (lambda v: value(v.position), lambda v: value(v.heading), lambda v: value(v.speed))]
                    if isinstance(o, hw.ControlledVehicle) and isinstance(p, hw.ControlledVehicle):
                        fields += [value(getattr(o, k)) == value(getattr(p, k)) for k in ("target_lane_index", "target_speed", "route")]
                    ctx.check(all(fields), "prep/change_vehicles/state", "vehicle %d: %s became %s" % (i, body(o), body(p)), **case)
            run("change_vehicles %s" % cls, lambda cls=cls: env.change_vehicles(P + cls), judge)

        # set_preferred_lane
        idm = lambda v: isinstance(v, hw.IDMVehicle)  # noqa
        for k in (None, 0, 1):
            def judge(dup, case, k=k):
                same(dup, case, lambda v: idm(v) and k is not None, ("route", "LANE_CHANGE_MAX_BRAKING_IMPOSED"), "set_preferred_lane")
                for o, p in zip(olds, dup.road.vehicles):
                    if idm(o) and k is not None:
                        want = [(r[0], r[1], k) for r in (o.route or [o.lane_index])]
                        ctx.check([tuple(r) for r in p.route] == want, "prep/set_preferred_lane/route", "%s, expected %s" % (p.route, want), **case)
            # stepping towards a lane that the road does not have is not judged
            if k is None or all(len(env.road.network.graph[r[0]][r[1]]) > k for o in olds if idm(o) for r in (o.route or [o.lane_index])):
                run("set_preferred_lane %s" % k, lambda k=k: env.set_preferred_lane(k), judge)

        # set_route_at_intersection
        taken = {}
        for to in (0, 1, 2, 3, "random"):
            def judge(dup, case, to=to):
                same(dup, case, idm, ("route",), "set_route_at_intersection")
                for i, (o, p) in enumerate(zip(olds, dup.road.vehicles)):
                    if idm(o):
                        opts = routes_at_intersection(env.road.network, o.route)
                        if opts is None:
                            ctx.check(p.route == o.route, "prep/set_route/none", "%s" % p.route, **case)
                            continue
                        got = tuple(tuple(r) for r in p.route)
                        short = got[:-1] + (got[-1][:2],) if len(opts) > 1 else got
                        ctx.check(short in opts, "prep/set_route/choice", "%s is not one of %s" % (got, opts), **case)
                        if to != "random":
                            taken.setdefault(i, {})[to] = (short, len(opts))
            run("set_route_at_intersection %s" % to, lambda to=to: env.set_route_at_intersection(to), judge)
        for i, t in taken.items():
            cnt = t[0][1]
            ctx.check(len({r for r, _ in t.values()}) == min(cnt, 4), "prep/set_route/distinct", "%s" % (t,), env=name, prefix=prefix, vehicle=i)

        # set_vehicle_field
        for field, val in (("target_speed", 3.25), ("crashed", True), ("note", "x")):
            def judge(dup, case, field=field, val=val):
                same(dup, case, lambda v: v is not env.vehicle, (field,), "set_vehicle_field")
                for o, p in zip(olds, dup.road.vehicles):
                    if o is not env.vehicle:
                        ctx.check(getattr(p, field, None) == val, "prep/set_vehicle_field/%s" % field, "%s" % getattr(p, field, None), **case)
            run("set_vehicle_field %s" % field, lambda field=field, val=val: env.set_vehicle_field((field, val)), judge)

        # call_vehicle_method
        node = sorted(env.road.network.graph)[-1]
        def judge(dup, case):
            same(dup, case, lambda v: hasattr(v, "plan_route_to"), ("route",), "call_vehicle_method")
            for o, p in zip(olds, dup.road.vehicles):
                if hasattr(o, "plan_route_to"):
                    q = copy.deepcopy(o).plan_route_to(node)
                    ctx.check(value(q.route) == value(p.route), "prep/call_vehicle_method/route", "%s, expected %s" % (p.route, q.route), **case)
        run("call_vehicle_method plan_route_to", lambda: env.call_vehicle_method(("plan_route_to", (node,))), judge)
        run("call_vehicle_method nothing", lambda: env.call_vehicle_method(("no_such_method", ())),
            lambda dup, case: same(dup, case, lambda v: False, (), "call_vehicle_method"))

        # randomize_behaviour
        def judge(dup, case):
            same(dup, case, idm, ("ACCELERATION_PARAMETERS", "STEERING_PARAMETERS", "DELTA"), "randomize_behaviour")
        run("randomize_behaviour", lambda: env.randomize_behaviour(), judge)
        lin = env.change_vehicles(P + "behavior.LinearVehicle")
        lb = freeze(lin)
        one = lin.randomize_behaviour()
        ctx.check(freeze(lin) == lb, "prep/original/randomize_behaviour", "the original was changed", env=name, prefix=prefix)
        for o, p in zip(lin.road.vehicles, one.road.vehicles):
            if idm(o):
                for key, rng in (("ACCELERATION_PARAMETERS", "ACCELERATION_RANGE"), ("STEERING_PARAMETERS", "STEERING_RANGE")):
                    v, (lo, hi) = np.asarray(getattr(p, key)), np.asarray(getattr(p, rng))
                    ctx.check(v.shape == lo.shape and np.all(v >= np.minimum(lo, hi) - 1e-9) and np.all(v <= np.maximum(lo, hi) + 1e-9),
                              "prep/randomize_behaviour/range", "%s %s" % (key, v), env=name, prefix=prefix)

        # replacing drivers by drivers of the same kind changes nothing
        rest = [v for v in olds if v is not env.vehicle]
        if rest and all(type(v) is hw.IDMVehicle and v.enable_lane_change and not v.crashed and not getattr(v, "is_yielding", False) for v in rest):
            dup = env.change_vehicles(P + "behavior.IDMVehicle")
            for op, want in zip(SEQS[0], twin_out):
                ctx.check(apply(dup, acts, op) == want, "prep/change_vehicles/evolution", "replacing each driver by its like changes what they do, at %s" % (op,),
                          env=name, prefix=prefix)
            ctx.outcome("drivers replaced by their like")
        # the original has not been disturbed
        for op, want in zip(SEQS[0], twin_out):
            ctx.check(apply(env, acts, op) == want, "prep/evolution/%s" % name, "the original diverges after preprocessing", env=name, prefix=prefix)
        ctx.trace()
    ctx.sample(dict(env=name, seed=s, prefix=prefix))
