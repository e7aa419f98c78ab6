"""C24: rendering shows the state, and never influences it."""
import copy
import itertools
import os

import numpy as np

from vk import envs, hw, ref
from vk.freeze import freeze, scene, value
from highway_env.road.lane import LineType, StraightLane
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
from highway_env.vehicle.controller import MDPVehicle
from highway_env.vehicle.dynamics import BicycleVehicle
from highway_env.road.objects import Landmark, Obstacle

PROP = "C24"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all placements of {nothing, human, rgb_array} before, between and after step-step-reset-step (3^5) in 12 environments offscreen, and of 6 rendering operations "
             "(human, rgb, human+rgb, rgb twice, a plan, a deep copy) in up to two places around step-reset offscreen and with a window; pictures of all states of episodes against the scene "
             "(6 screen sizes and scales, 4 centrings); 8 kinds of bodies x 20 headings seen from close; all plans of two actions and the trails of vehicles on pictures of 5 environments; image observations of 20 configurations over all placements of up to one or two renderings in steps and resets",
    "thorough": "placements around 7 operations changing at most 3 times, around step-step-reset, longer episodes"}
ASSUMPTIONS = ["the window is created with the screen configured at the first rendering", "pictures of a window are taken on the SDL dummy display",
               "a body is judged where no other body is closer than 7 m, and shows its colour at its centre and 1 m around"]

SIZES = [(600, 150, 5.5, (0.3, 0.5)), (300, 300, 4.0, (0.5, 0.5)), (84, 84, 3.0, (0.5, 0.5)), (250, 120, 7.15, (0.5, 0.6)), (120, 333, 5.0, (0.1, 0.9)), (64, 40, 6.0, (0.7, 0.2))]


def screen(window):
    """With a window: on SDL's dummy display; the environment disables itself when it sees it in the variables."""
    if window:
        import pygame
        os.environ["SDL_VIDEODRIVER"] = "dummy"
        pygame.display.init()
    os.environ.pop("SDL_VIDEODRIVER", None)
    return dict(offscreen_rendering=not window)


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for n in envs.NAMES:
        minor = n.endswith("ActionRepeat-v0") or n.startswith("intersection-multi-agent")
        for h in range((1 if minor else 3) if q else 9):
            out.append(("schedules", (n, "srs" if q else "ssrssrs", 5 if q else 7, h, 3 if q else 9)))
        for window in (False, True):
            if minor and q and window:
                continue
            out.append(("operations", (n, window, 3 if q else 4)))
        for k, size in enumerate(SIZES):
            out.append(("pictures", (n, size, seed + k, 4 if q else 12)))
    for k in range(10):
        out.append(("images", (k, 10, 4 if q else 6)))
    out.append(("films", ()))
    out += [("shadows", (n, window)) for n in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0") for window in (False, True)]
    out += [("poses", (window, k, 4)) for window in (False, True) for k in range(4)]
    return out


def small(name):
    out = dict(screen_width=160, screen_height=100, scaling=4.0)
    if name.startswith("intersection"):
        out.update(initial_vehicle_count=2, simulation_frequency=3)
    elif name.startswith("summon"):
        out.update(vehicles_count=1)
    return out


def fresh(name, seed, **extra):
    np.random.seed(11)
    return envs.light(name, seed, **dict(small(name), **extra))


def operate(env, op, k):
    """One operation of the simulation itself, and what it returned."""
    if op == "s":
        acts = envs.actions(env)
        return value(env.step(acts[k % len(acts)]))
    return value(env.reset())


def inside(env):
    """The whole simulation, random generators included."""
    st = np.random.get_state()
    u = env.unwrapped
    return (scene(u), freeze([u.road, u.controlled_vehicles, u.np_random, u.done, u.time, u.steps, u.config]), st[1].tobytes(), st[2])


def baseline(name, ops, extra):
    """The simulation without rendering, and the only picture of a twin at each point."""
    env, obs = fresh(name, 3, **extra)
    trace = [(value(obs), inside(env))]
    for k, op in enumerate(ops):
        trace.append((operate(env, op, k), inside(env)))
    pics = []
    for m in range(len(ops) + 1):
        twin, _ = fresh(name, 3, **extra)
        for k in range(m):
            operate(twin, ops[k], k)
        pics.append(twin.unwrapped.render("rgb_array").copy())
    return trace, pics


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def schedules(ctx, name, ops, slots, part, parts):
    extra = screen(False)
    ops = "s" + ops if len(ops) < slots - 1 else ops[:slots - 1]
    trace, pics = baseline(name, ops, extra)
    ctx.check(len({p.tobytes() for p in pics}) > 1, "schedule/sensitive", "all pictures are the same", env=name)
    plans = itertools.product("-hr", repeat=slots)
    if slots > 6:
        # with many slots: every pair of placements and everything in between alike
        plans = ["".join(p) for p in itertools.product("-hr", repeat=slots) if sum(a != b for a, b in zip(p, p[1:])) <= 3]
    for i, plan in enumerate(plans):
        if i % parts != part:
            continue
        env, obs = fresh(name, 3, **extra)
        for k in range(slots):
            case = dict(env=name, operations=ops, renderings="".join(plan), at=k)
            if k:
                got = (operate(env, ops[k - 1], k - 1), inside(env))
                ctx.trans()
                ctx.check(got[0] == trace[k][0], "schedule/results", "an operation returns something else when the environment is rendered", **case)
                ctx.check(got[1] == trace[k][1], "schedule/state", "the simulation is in another state when the environment is rendered", **case)
            if plan[k] == "h":
                r = env.render()
                ctx.check(r is None, "schedule/human", "render() returned %s" % type(r), **case)
            elif plan[k] == "r":
                r = env.render(mode="rgb_array")
                ctx.check(same(r, pics[k]), "schedule/picture", "the picture differs from the one of the same state without earlier renderings", **case)
            if plan[k] != "-":
                ctx.check(inside(env) == trace[k][1], "schedule/untouched", "rendering changed the state", **case)
        ctx.state((name, ops, tuple(plan)))
        ctx.trace()
    ctx.outcome("%s %s" % (name, ops))
    ctx.sample(case)


OPS = ["-", "h", "r", "hr", "rr", "p", "c"]


def operations(ctx, name, window, slots):
    extra = screen(window)
    ops = "sr" if slots == 3 else "ssr"
    trace, pics = baseline(name, ops, extra)
    discrete = hasattr(envs.light(name)[0].action_space, "n")
    ctx.check(name == "merge-v0" or len({p.tobytes() for p in pics}) > 1, "operations/sensitive", "all pictures are the same", env=name, window=window)
    for plan in itertools.product(OPS, repeat=slots):
        if slots - plan.count("-") > 2 or not window and set(plan) <= set("-hr"):
            continue
        env, obs = fresh(name, 3, **extra)
        u = env.unwrapped
        planned = False
        for k in range(slots):
            case = dict(env=name, window=window, operations=ops, renderings=plan, at=k)
            if k:
                got = (operate(env, ops[k - 1], k - 1), inside(env))
                ctx.trans()
                ctx.check(got[0] == trace[k][0], "operations/results", "an operation returns something else when the environment is rendered", **case)
                ctx.check(got[1] == trace[k][1], "operations/state", "the simulation is in another state when the environment is rendered", **case)
            if plan[k] == "c":
                st = np.random.get_state()
                twin = copy.deepcopy(env)
                r = twin.unwrapped.render("rgb_array")
                ctx.check(same(r, pics[k]) or planned, "operations/copied", "a copy looks different", **case)
                operate(twin, "s", k)
                twin.unwrapped.render("rgb_array")
                np.random.set_state(st)
            elif plan[k] == "p":
                # the plan of an agent, shown on the following pictures
                if discrete and isinstance(u.vehicle, MDPVehicle):
                    u.render()
                    u.viewer.set_agent_action_sequence([1, 2, 0])
                    planned = True
                    env.render()
            else:
                for op in plan[k].replace("-", ""):
                    r = env.render(mode="rgb_array" if op == "r" else "human")
                    if op == "r":
                        ctx.check(r.shape == pics[k].shape and (planned or same(r, pics[k])), "operations/picture",
                                  "the picture differs from the one of the same state without earlier renderings", **case)
                    else:
                        ctx.check(r is None, "operations/human", "render() returned %s" % type(r), **case)
            ctx.check(inside(env) == trace[k][1], "operations/untouched", "rendering changed the state", **case)
        ctx.state((name, window, ops, plan))
        ctx.trace()
    ctx.outcome("%s %s" % (name, "window" if window else "offscreen"))
    ctx.sample(case)


# -- what is on a picture -------------------------------------------------------------------------

COLORS = {"red": (255, 100, 100), "green": (50, 200, 0), "blue": (100, 200, 255), "yellow": (200, 200, 0), "purple": (200, 0, 150)}
GREY, WHITE = (100, 100, 100), (255, 255, 255)


def color_of(b):
    if not isinstance(b, hw.Vehicle):
        mark = type(b).__name__ == "Landmark"
        return COLORS["green" if mark and b.hit else "red" if b.hit else "blue" if mark else "yellow"]
    if getattr(b, "color", None):
        return tuple(b.color)
    if b.crashed:
        return COLORS["red"]
    if isinstance(b, LinearVehicle):
        return COLORS["yellow"]
    if isinstance(b, IDMVehicle):
        return COLORS["blue"]
    return COLORS["green" if isinstance(b, MDPVehicle) else "yellow"]


def picture(ctx, env, pic, size, case):
    u = env.unwrapped
    w, h, scale, center = size
    ctx.check(pic.shape == (h, w, 3) and pic.dtype == np.uint8, "picture/shape", "%s of %s for %d x %d" % (pic.shape, pic.dtype, w, h), **case)
    corner = u.vehicle.position - np.array([center[0] * w, center[1] * h]) / scale

    def pixel(p):
        return (np.asarray(p, dtype=float) - corner) * scale

    def at(p, r=0):
        """Colours of the pixels around a place; None when it is not on the picture."""
        x, y = pixel(p)
        if not (r + 1 < x < w - r - 2 and r + 1 < y < h - r - 2):
            return None
        x, y = int(x), int(y)
        return pic[y - r:y + r + 1, x - r:x + r + 1].reshape(-1, 3)
    bodies = list(u.road.vehicles) + list(u.road.objects)
    seen = 0
    for b in bodies:
        others = [np.linalg.norm(b.position - o.position) for o in bodies if o is not b]
        if others and min(others) < 7:
            continue
        want = np.array(color_of(b))
        d = np.array([np.cos(b.heading), np.sin(b.heading)])
        n = np.array([-d[1], d[0]])
        reach = 1.0 if isinstance(b, hw.Vehicle) else 0.4
        for p in (b.position, b.position + reach * d, b.position - reach * d):
            c = at(p)
            if c is None:
                continue
            seen += 1
            ctx.trans()
            ctx.check((at(p, 1) == want).all(axis=1).any() if at(p, 1) is not None else True, "picture/body", "the %s at %s shows %s instead of %s" % (type(b).__name__, p, c[0], want), **case)
        for p in (b.position + 2.2 * n, b.position - 2.2 * n, b.position + 4.2 * d, b.position - 4.2 * d):
            c = at(p)
            if c is None or min([9.0] + [np.linalg.norm(p - o.position) for o in bodies if o is not b]) < 4:
                continue
            ctx.check(not np.array_equal(c[0], want), "picture/around", "the %s is drawn as far as %s" % (type(b).__name__, p), **case)
    # colours of bodies appear nowhere else
    for c in COLORS.values():
        ys, xs = np.where((pic == np.array(c)).all(axis=2))
        if len(xs):
            mine = [b.position for b in bodies if np.array_equal(color_of(b), c)]
            if not ctx.check(mine, "picture/ghost", "something in %s is drawn" % (c,), **case):
                continue
            places = np.stack([xs + 0.5, ys + 0.5], axis=1) / scale + corner
            far = np.min([np.linalg.norm(places - m, axis=1) for m in mine], axis=0).max()
            ctx.check(far < 3.5 + 2 / scale, "picture/ghost", "something in %s is drawn %.1f m from every body" % (c, far), **case)
    # the sides of the lanes
    lines = 0
    for a in u.road.network.graph:
        for b in u.road.network.graph[a]:
            for lane in u.road.network.graph[a][b]:
                if not isinstance(lane, StraightLane):
                    continue                  # the sides of curves are drawn up to some distance
                mid, _ = lane.local_coordinates(u.vehicle.position)
                for s in np.arange(0, 60, 1.75):
                    for s in {mid + s, mid - s}:
                        if not 4 < s < lane.length - 4:
                            continue
                        for side in (0, 1):
                            kind = lane.line_types[side]
                            p = lane.position(s, (side - 0.5) * lane.width_at(s))
                            c = at(p, 2 + int(0.4 * scale))
                            if c is None or min(np.linalg.norm(p - o.position) for o in bodies) < 5:
                                continue
                            on = kind in (LineType.CONTINUOUS, LineType.CONTINUOUS_LINE) or kind == LineType.STRIPED and 0.5 < s % 5 < 2.5
                            if not on or type(lane) is not StraightLane and kind == LineType.CONTINUOUS_LINE:
                                continue
                            lines += 1
                            ctx.check((c == 255).all(axis=1).any(), "picture/line", "no line at %s, side %d of lane %s at %.2f" % (p, side, (a, b), s), **case)
    ctx.trans(lines)
    return seen, lines


def pictures(ctx, name, size, seed, steps):
    extra = screen(False)
    w, h, scale, center = size
    cars = lines = 0
    for window in (False, True):
        if window:
            extra = screen(True)
        for s in range(2):
            np.random.seed(11)
            env, _ = envs.light(name, seed + s, screen_width=w, screen_height=h, scaling=scale, centering_position=list(center), **extra)
            acts = envs.actions(env)
            for t in range(steps):
                case = dict(env=name, size=size, seed=seed + s, step=t, window=window)
                pic = env.unwrapped.render("rgb_array")
                a, b = picture(ctx, env, pic, size, case)
                cars += a
                lines += b
                ctx.state((name, size, seed + s, t, window))
                # bodies as they would appear otherwise
                if t == 1:
                    v = env.unwrapped.vehicle
                    keep = v.crashed
                    v.crashed = True
                    picture(ctx, env, env.unwrapped.render("rgb_array"), size, dict(case, crashed=True))
                    v.crashed = keep
                    for o in env.unwrapped.road.objects:
                        o.hit = not o.hit
                    picture(ctx, env, env.unwrapped.render("rgb_array"), size, dict(case, hit=True))
                    for o in env.unwrapped.road.objects:
                        o.hit = not o.hit
                env.step(acts[(t + s) % len(acts)])
            ctx.trace()
    ctx.check(cars > 0, "picture/sensitive", "nothing was judged", env=name, size=size)
    ctx.outcome("%s bodies %s lines %s" % (name, cars > 0, lines > 0))
    ctx.sample(dict(env=name, size=size, bodies=cars, lines=lines))


POSES = [0.0, 0.03, 0.06, 0.1, 0.16, 0.3, 0.8, 1.57, 2.0, 2.9, 3.14, -0.03, -0.06, -0.1, -0.16, -0.3, -0.8, -1.57, -2.4, -3.0]
KINDS = [hw.Vehicle, BicycleVehicle, hw.MDPVehicle, hw.IDMVehicle, LinearVehicle, hw.ControlledVehicle, Obstacle, Landmark]


def poses(ctx, window, part, parts):
    """Every kind of body, at every heading and seen from close, covers the pixels of its rectangle and no others; wheels as steered."""
    extra = screen(window)
    w, h, scale = 400, 300, 20.0
    extra.update(screen_width=w, screen_height=h, scaling=scale, centering_position=[0.5, 0.5])
    env, _ = envs.light("highway-v0", 0, vehicles_count=1, **extra)
    u = env.unwrapped
    ego = u.vehicle
    black = np.array((60, 60, 60))
    for n, (kind, heading, ego_heading) in enumerate(itertools.product(KINDS, POSES, (0.0, 0.35, -2.2))):
        if n % parts != part:
            continue
        place = ego.position + np.array([6.43, 3.8]) if n % 2 else ego.position - np.array([6.37, -3.7])
        if issubclass(kind, hw.Vehicle):
            b = kind(u.road, place, heading, 20.0)
            steer = (0.0, 0.6, -0.5)[n % 3]
            b.action = {"acceleration": 0.0, "steering": steer}
            b.crashed = n % 5 in (1, 3)
            if n % 5 in (2, 3):
                b.color = (200, 0, 150)
            bodies = [ego, b]
            u.road.vehicles, u.road.objects = ([ego, b] if n % 4 < 2 else [b, ego]), []
        else:
            b = kind(u.road, place, heading, 0.0)
            b.hit = n % 5 in (1, 3)
            bodies = [ego, b]
            u.road.vehicles, u.road.objects = [ego], [b]
        ego.heading = ego_heading
        u.should_update_rendering = True
        pic = u.render("rgb_array")
        corner = ego.position - np.array([0.5 * w, 0.5 * h]) / scale
        case = dict(kind=kind.__name__, heading=heading, ego=ego_heading, window=window, look=n % 5, steering=getattr(b, "action", {}).get("steering") if isinstance(b, hw.Vehicle) else None)

        def around(p, r=1):
            x, y = ((p - corner) * scale).astype(int)
            return pic[y - r:y + r + 1, x - r:x + r + 1].reshape(-1, 3) if r <= x < w - r and r <= y < h - r else None
        for body in bodies:
            want = np.array(color_of(body))
            d = np.array([np.cos(body.heading), np.sin(body.heading)])
            q = np.array([-d[1], d[0]])
            plain = type(body) in (hw.Vehicle, BicycleVehicle)
            a, c = body.LENGTH / 2, body.WIDTH / 2
            for x, y in itertools.product(np.linspace(-1, 1, 9), np.linspace(-1, 1, 5)):
                p = body.position + x * (a - 0.25) * d + y * (c - 0.25) * q
                if plain and abs(x) > 0.6 and abs(y) > 0.4 or around(p) is None:
                    continue
                ctx.trans()
                ctx.check((around(p) == want).all(axis=1).any(), "pose/inside", "the picture shows %s in the %s, at %s" % (around(p)[4], type(body).__name__, p), **case)
            for x, y in itertools.product(np.linspace(-1, 1, 9), np.linspace(-1, 1, 5)):
                if abs(x) < 1 and abs(y) < 1:
                    continue
                p = body.position + x * (a + 0.3) * d + y * (c + 0.3) * q
                if around(p) is None:
                    continue
                ctx.check(not (around(p, 0) == want).all(axis=1).any(), "pose/outside", "the %s covers %s" % (type(body).__name__, p), **case)
            if plain:
                for x, y in itertools.product((-a, a), (-c, c)):
                    turn = body.heading + (steer if x > 0 else 0.0)
                    for s in (-0.35, 0.0, 0.35):
                        p = body.position + x * d + y * q + s * np.array([np.cos(turn), np.sin(turn)])
                        if around(p) is None:
                            continue
                        ctx.check((around(p) == black).all(axis=1).any(), "pose/wheel", "no wheel of the %s at %s" % (type(body).__name__, p), **case)
        ctx.state((kind.__name__, heading, ego_heading, window))
    ctx.outcome("poses")
    ctx.sample(case)


# -- image observations -----------------------------------------------------------------------------

GRAYS = [(wt, st, sh, env) for env, wt in (("highway-v0", [0.2989, 0.5870, 0.1140]), ("merge-v0", [1, 0, 0]), ("roundabout-v0", [0.2, 0.3, 0.5]), ("intersection-v0", [0, 0, 1]),
                                           ("two-way-v0", [0.1, 0.8, 0.1]))
         for st, sh in ((1, (84, 84)), (2, (60, 40)), (3, (40, 60)), (4, (84, 42)))]


def images(ctx, part, parts, steps):
    extra = screen(False)
    for wt, stack, shape, name in GRAYS[part::parts]:
        o = {"type": "GrayscaleObservation", "weights": wt, "stack_size": stack, "observation_shape": shape}
        common = dict(screen_width=shape[0], screen_height=shape[1], scaling=2.5, **extra)
        common.update({k: v for k, v in small(name).items() if not k.startswith("sc")})
        twin, _ = envs.light(name, 5, **common)
        acts = envs.actions(twin)
        films = []                            # the frames of the episode so far, at each step
        for t in range(steps + 1):
            film = [] if t in (0, 3) else list(films[-1])
            films.append(film + [np.dot(np.moveaxis(twin.unwrapped.render("rgb_array"), 0, 1).astype(float), wt)])
            if t == 2:                        # an episode begins: earlier frames are forgotten
                twin.reset()
            else:
                twin.step(acts[t % len(acts)])
        for plan in itertools.product(("", "h", "r", "rh"), repeat=steps):
            if sum(bool(p) for p in plan) > (2 if stack == 1 + part % 4 else 1):
                continue                      # placements of up to two, or of one
            env, obs = envs.light(name, 5, observation=o, **common)
            kept = []
            for t in range(steps + 1):
                case = dict(env=name, observation=o, renderings=plan, step=t)
                frames = films[t]
                want = np.zeros(shape + (stack,))
                for j, f in enumerate(frames[-stack:][::-1]):
                    want[:, :, stack - 1 - j] = f
                ctx.trans()
                ok = ctx.check(np.shape(obs) == want.shape and np.allclose(obs, want, atol=1e-3), "image/%s" % ("first" if t == 0 else "stack"),
                               "the image observation is not the weighted sum of the last pictures", **case)
                if not ok:
                    break
                sp = env.unwrapped.observation_space
                ctx.check(sp.shape == want.shape and obs.min() >= sp.low.min() and obs.max() <= sp.high.max() + 1e-6, "image/space", "outside of %s" % sp, **case)
                kept.append((obs, obs.copy()))
                if t == steps:
                    break
                for op in plan[t]:
                    env.unwrapped.render("rgb_array" if op == "r" else "human")
                obs = env.reset() if t == 2 else env.step(acts[t % len(acts)])[0]
            for a, b in kept:
                ctx.check(np.array_equal(a, b), "image/kept", "a returned observation changed later", **case)
            ctx.state((name, stack, shape, plan))
            ctx.trace()
        ctx.outcome("%s stack %d" % (name, stack))
    ctx.sample(case)


def films(ctx):
    """Frames of a film: one per simulation step, each of the state at that time; trajectories and pictures change nothing."""
    extra = screen(False)
    for name in envs.NAMES:
        plain, _ = fresh(name, 3, **extra)
        acts = envs.actions(plain)
        want = []
        for t in range(3):
            want.append((value(plain.step(acts[t % len(acts)])), inside(plain)))
        for trails in (False, True):
            env, _ = fresh(name, 3, show_trajectories=trails, **extra)
            u = env.unwrapped
            frames = []

            def capture():
                f = u.render("rgb_array")
                frames.append((u.time, f.copy(), inside(env)))
            u.automatic_rendering_callback = capture
            for t in range(3):
                u.render("rgb_array")
                start, n = u.time, len(frames)
                got = value(env.step(acts[t % len(acts)]))
                case = dict(env=name, trajectories=trails, step=t)
                ctx.check(got == want[t][0], "film/results", "filming or keeping trajectories changes what a step returns", **case)
                if name != "lane-keeping-v0" and not name.endswith("ActionRepeat-v0") or u.time > start:
                    ctx.check([f[0] for f in frames[n:]] == list(range(start + 1, u.time + 1)), "film/frames", "frames at %s, the step went from %d to %d"
                              % ([f[0] for f in frames[n:]], start, u.time), **case)
                ctx.trans(len(frames) - n)
                ctx.state((name, trails, t))
            if not trails:
                a, b = inside(env), want[-1][1]
                ctx.check(a == b, "film/state", "filming changes the simulation", **case)
                # each frame is the picture of a twin brought there without filming
                if name not in ("lane-keeping-v0",):
                    for i, f in list(enumerate(frames))[::3]:
                        twin, _ = fresh(name, 3, **extra)
                        tu = twin.unwrapped
                        shot = []
                        count = [0]
                        tu.render("rgb_array")

                        def late():
                            if count[0] == i:
                                shot.append(tu.render("rgb_array").copy())
                            count[0] += 1
                        tu.automatic_rendering_callback = late
                        for t in range(3):
                            tu.enable_auto_render = True
                            twin.step(acts[t % len(acts)])
                        ctx.check(shot and same(shot[0], f[1]), "film/picture", "frame %d of the film is not the picture of its state" % i, env=name)
            ctx.trace()
        ctx.outcome(name)
    ctx.sample(case)


def shadows(ctx, name, window):
    """The plan of an agent and the past of the vehicles are drawn where they are, and nothing else changes on the picture."""
    extra = screen(window)
    scale, w, h = 4.0, 400, 300
    extra.update(screen_width=w, screen_height=h, scaling=scale, centering_position=[0.4, 0.5], simulation_frequency=15)
    judged = 0

    def compare(plain, shown, states, now, corner, case):
        """Differences are at the places of the states, and every state that no other body hides makes one."""
        count = 0
        ctx.check(plain.shape == shown.shape, "shadow/shape", "%s" % (shown.shape,), **case)
        diff = (plain.astype(int) != shown.astype(int)).any(axis=2)
        ys, xs = np.where(diff)
        if len(xs):
            places = np.stack([xs + 0.5, ys + 0.5], axis=1) / scale + corner
            near = np.full(len(places), 99.0)
            for p in states:
                near = np.minimum(near, np.linalg.norm(places - p, axis=1))
            ctx.check(near.max() < 2.8 + 2.5 / scale, "shadow/elsewhere", "the picture changes %.1f m from every state shown" % near.max(), **case)
        for p in states:
            x, y = (p - corner) * scale
            if not (3 < x < w - 4 and 3 < y < h - 4) or min(np.linalg.norm(p - q) for q in now) < 5:
                continue
            count += 1
            ctx.trans()
            ctx.check(diff[int(y) - 1:int(y) + 2, int(x) - 1:int(x) + 2].all(), "shadow/missing", "nothing is drawn at %s" % p, **case)
        return count

    def corner_of(u):
        return u.vehicle.position - np.array([0.4 * w, 0.5 * h]) / scale

    for s in range(2):
        for plan in itertools.product(range(5 if not name.startswith("inter") else 3), repeat=2):
            np.random.seed(11)
            env, _ = envs.light(name, s, policy_frequency=1, **extra)
            u = env.unwrapped
            env.step(1)
            if u.vehicle.crashed:
                continue
            plain = u.render("rgb_array").copy()
            actions = list(plan) + [1]
            u.viewer.set_agent_action_sequence(actions)
            labels = [u.action_type.actions[a] for a in actions]
            states = [v.position.copy() for v in u.vehicle.predict_trajectory(labels, 1.0, 1 / 3, 1 / 15)]
            u.should_update_rendering = True
            shown = u.render("rgb_array")
            case = dict(env=name, window=window, seed=s, plan=actions)
            judged += compare(plain, shown, states, [v.position for v in u.road.vehicles], corner_of(u), case)
            ctx.state((name, window, s, plan))
        env, _ = envs.light(name, s, policy_frequency=5, show_trajectories=True, **extra)
        twin, _ = envs.light(name, s, policy_frequency=5, **extra)
        past = []
        for t in range(14):
            u = env.unwrapped
            frames = []

            def capture():
                frames.append([(v, v.position.copy()) for v in u.road.vehicles])
            u.automatic_rendering_callback = capture
            env.render()
            done = env.step(1)[2]
            twin.step(1)
            past += frames
            shown = u.render("rgb_array").copy()
            plain = twin.unwrapped.render("rgb_array")
            case = dict(env=name, window=window, seed=s, trajectories=True, step=t)
            here = u.road.vehicles
            # one position each third of a second over the last two seconds, the current one first
            trails = []
            for v in here:
                mine = [p for f in past[-30:] for x, p in f if x is v][::-1]
                trails += mine[::5]
            if len(past) >= 30 or not name.startswith("inter"):       # intersections are simulated before they begin
                judged += compare(plain, shown, trails, [v.position for v in here], corner_of(u), case)
            ctx.state((name, window, s, "trail", t))
            if np.any(done):
                break
        ctx.trace()
    ctx.check(judged > 0, "shadow/sensitive", "nothing was judged", env=name)
    ctx.outcome("%s shadows" % name)
    ctx.sample(dict(env=name, judged=judged))
