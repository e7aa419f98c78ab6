"""C25: the keyboard drives the vehicle and moves the view in manual control."""
import itertools
import os

import numpy as np

from vk import hw, ref

PROP = "C25"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "discrete actions: all sequences of 4 keys (arrows, another key, none) for the 3 enabled axes, with one frame or three frames per step, posted before a rendering or during a "
             "step, on 2 lanes from the first or last; continuous actions: all sequences of 3 events (4 with both axes) among presses and releases of the arrows, for 3 axes x kinematic or dynamical x 2 ranges; "
             "view: all sequences of 3 of the view keys, closing of the window at each point, 2 modes",
    "thorough": "sequences of length 5 (discrete), 4 (continuous), 4 (view)"}
ASSUMPTIONS = ["events are delivered by pygame, on SDL's dummy display, when the environment is rendered or renders itself between two frames",
               "one agent: the keyboard is not specified for several agents"]


def window():
    """A window on SDL's dummy display; the viewer draws nothing when it sees it in the variables."""
    import pygame
    os.environ["SDL_VIDEODRIVER"] = "dummy"
    pygame.display.init()
    os.environ.pop("SDL_VIDEODRIVER", None)
    return pygame


AXES = [(True, True), (True, False), (False, True)]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for axes in range(3):
        for lane in (0, 1):
            for first in range(6):
                out.append(("discrete", (axes, lane, first, 4 if q else 5)))
        for dyn in (False, True):
            for first in range(9):
                out.append(("continuous", (axes, dyn, first, 4 if not q or (axes == 0 and not dyn) else 3)))
    for first in range(6):
        out.append(("view", (first, 3 if q else 4)))
    return out


def build(action, frames=1, **extra):
    config = dict(offscreen_rendering=False, vehicles_count=2, lanes_count=2, manual_control=True, simulation_frequency=5 * frames, policy_frequency=5, duration=1000,
                  screen_width=120, screen_height=60, action=action, real_time_rendering=False,
                  observation={"type": "AttributesObservation", "attributes": ["time"]})
    config.update(extra)
    env = ref.make("highway-v0", 4, **config)
    env.road.vehicles = [env.vehicle]
    return env


def place(env, lane):
    v = env.vehicle
    lanes = env.road.network.all_side_lanes(v.lane_index)
    v.position = np.array(env.road.network.get_lane(lanes[lane]).position(150.0, 0.0), dtype=float)
    v.heading, v.speed = 0.0, 25.0
    v.on_state_update()
    v.lateral_speed = v.yaw_rate = 0.0
    env.define_spaces()         # no key is held
    v.action = {"steering": 0.0, "acceleration": 0.0}
    if isinstance(v, hw.ControlledVehicle):
        v.target_lane_index = lanes[lane]
        v.speed_index = 1
        v.target_speed = v.index_to_speed(1)


def picture(v):
    return np.array([v.position[0], v.position[1], v.heading, v.speed, getattr(v, "lateral_speed", 0.0), getattr(v, "yaw_rate", 0.0), getattr(v, "target_speed", 0.0),
                     getattr(v, "target_lane_index", (0, 0, 0))[2]], dtype=float)


def discrete(ctx, axes, lane, first, depth):
    pg = window()
    longi, lateral = AXES[axes]
    keys = {"right": (pg.K_RIGHT, "FASTER", longi), "left": (pg.K_LEFT, "SLOWER", longi), "down": (pg.K_DOWN, "LANE_RIGHT", lateral),
            "up": (pg.K_UP, "LANE_LEFT", lateral), "other": (pg.K_a, None, False), "none": (None, None, False)}
    names = sorted(keys)
    action = dict(type="DiscreteMetaAction", longitudinal=longi, lateral=lateral)
    pairs = {}
    for frames in (1, 3):
        pairs[frames] = (build(action, frames), build(action, 1, offscreen_rendering=True, simulation_frequency=5 * frames, policy_frequency=5 * frames))
    for rest in itertools.product(names, repeat=depth - 1):
        seq = (names[first],) + rest
        for frames, during in ((1, False), (3, True)):
            env, twin = pairs[frames]
            for e in (env, twin):
                place(e, lane)
            pg.event.clear()
            env.render()
            for k, name in enumerate(seq):
                key, meaning, enabled = keys[name]
                if key is not None:
                    pg.event.post(pg.event.Event(pg.KEYDOWN, key=key))
                    pg.event.post(pg.event.Event(pg.KEYUP, key=key))        # releases mean nothing
                if not during:
                    env.render()
                    if enabled:
                        twin.vehicle.act(meaning)
                # the action given to step is ignored
                env.step(env.action_space.n - 1 - k % 2)
                for f in range(frames):
                    twin.step(1)
                    if f == 0 and during and enabled:
                        twin.vehicle.act(meaning)
                if during:
                    env.render()
                ctx.trans()
                got, want = picture(env.vehicle), picture(twin.vehicle)
                ctx.check(np.allclose(got, want, atol=1e-7), "discrete/%s/%s" % (("both", "longitudinal", "lateral")[axes], name),
                          "after the %s key: %s, expected %s" % (name, got, want), keys=seq[:k + 1], during=during, lane=lane)
                ctx.state((axes, lane, frames, tuple(np.round(want, 4))))
            ctx.trace()
            ctx.outcome("lane %d, speed index %d" % (env.vehicle.target_lane_index[2], env.vehicle.speed_index))
    ctx.sample(dict(keys=seq, axes=AXES[axes]))


def continuous(ctx, axes, dyn, first, depth):
    pg = window()
    longi, lateral = AXES[axes]
    arrows = {"right": pg.K_RIGHT, "left": pg.K_LEFT, "down": pg.K_DOWN, "up": pg.K_UP}
    events = [(way, a) for way in ("press", "release") for a in sorted(arrows)] + [("press", "other")]
    for ranges in (None, ((-2.0, 6.0), (-0.3, 0.5))):
        action = dict(type="ContinuousAction", longitudinal=longi, lateral=lateral, dynamical=dyn)
        if ranges:
            action.update(acceleration_range=ranges[0], steering_range=ranges[1])
        acc, steer = ranges or ((-5.0, 5.0), (-np.pi / 4, np.pi / 4))
        env, twin = build(action), build(action, offscreen_rendering=True)
        for rest in itertools.product(events, repeat=depth - 1):
            seq = (events[first],) + rest
            if ranges and seq[-1][0] == "release":
                continue
            for e in (env, twin):
                place(e, 0)
            pg.event.clear()
            env.render()
            held, moved = [0.0, 0.0], False
            for k, (way, name) in enumerate(seq):
                pg.event.post(pg.event.Event(pg.KEYDOWN if way == "press" else pg.KEYUP, key=arrows.get(name, pg.K_a)))
                env.render()
                if longi and name in ("up", "down"):
                    held[0] = 0.0 if way == "release" else 0.7 if name == "up" else -0.7
                if lateral and name in ("left", "right"):
                    held[1] = 0.0 if way == "release" else 0.7 if name == "right" else -0.7
                command = {"acceleration": ref.lmap(held[0], (-1, 1), acc) if longi else 0.0, "steering": ref.lmap(held[1], (-1, 1), steer) if lateral else 0.0}
                twin.vehicle.act(command)
                got = env.vehicle.action
                ctx.check(abs(got["acceleration"] - command["acceleration"]) < 1e-6 and abs(got["steering"] - command["steering"]) < 1e-6,
                          "continuous/command/%s" % ("both", "longitudinal", "lateral")[axes], "command %s, expected %s" % (got, command), events=seq[:k + 1], ranges=ranges)
                env.step(np.full(env.action_space.shape, 1.0 - 2 * (k % 2), dtype=np.float32))      # ignored
                twin.step(np.zeros(twin.action_space.shape, dtype=np.float32))                      # ignored
                ctx.trans()
                got, want = picture(env.vehicle), picture(twin.vehicle)
                ctx.check(np.allclose(got, want, atol=1e-6), "continuous/state/%s" % ("both", "longitudinal", "lateral")[axes],
                          "state %s, expected %s" % (got, want), events=seq[:k + 1], ranges=ranges)
                moved = moved or any(held)
                ctx.state((axes, dyn, ranges, tuple(np.round(want, 4))))
            ctx.trace()
            ctx.outcome("driven" if moved else "coasting")
    ctx.sample(dict(events=seq, axes=AXES[axes]))


def differ(a, b):
    """Fraction of the pixels that differ."""
    return float(np.mean(np.any(np.asarray(a) != np.asarray(b), axis=-1))) if np.shape(a) == np.shape(b) else 1.0


def view(ctx, first, depth):
    pg = window()
    from highway_env.road.graphics import WorldSurface
    keys = [("l", pg.K_l), ("o", pg.K_o), ("m", pg.K_m), ("k", pg.K_k), ("a", pg.K_a), ("close", None)]
    action = dict(type="ContinuousAction")
    initial = list(WorldSurface.INITIAL_CENTERING)
    for rest in itertools.product(range(len(keys)), repeat=depth - 1):
        seq = (first,) + rest
        if any(keys[k][1] is None for k in seq[:-1]) and seq.index(5) != depth - 1 and seq[-1] == 5:
            continue
        for given in (True, False):
            scaling, centre = 4.17, [0.313, 0.487]
            extra = dict(scaling=scaling, centering_position=list(centre)) if given else {}
            mode = ("human", "rgb_array")[sum(seq) % 2]
            env = build(action, **extra)
            place(env, 0)
            pg.event.clear()
            asked = list(env.config["centering_position"])
            env.render(mode)
            if not given:
                scaling, centre = env.config["scaling"], list(asked)
            s, c = scaling, list(centre)
            case = dict(keys=[keys[k][0] for k in seq], mode=mode, given=given)
            for k in seq:
                name, key = keys[k]
                if key is None:
                    pg.event.post(pg.event.Event(pg.QUIT))
                else:
                    pg.event.post(pg.event.Event(pg.KEYDOWN, key=key))
                    pg.event.post(pg.event.Event(pg.KEYUP, key=key))
                out = env.render(mode)
                if mode == "rgb_array":
                    ctx.check(np.shape(out) == (60, 120, 3), "view/image", "an image of shape %s" % (np.shape(out),), **case)
                if key is None:
                    # closed: the next rendering opens a new window
                    s, c = scaling, list(centre)
                    pg = window()
                else:
                    s *= {"l": 1 / 1.3, "o": 1.3}.get(name, 1)
                    c[0] += {"m": -0.1, "k": 0.1}.get(name, 0)
                ctx.trans()
                ctx.state((given, mode, round(s, 6), tuple(np.round(c, 6))))
                ctx.check(list(env.config["centering_position"]) == asked and env.config["scaling"] == scaling, "view/config",
                          "the view keys changed the configuration: %s" % (env.config["centering_position"],), **case)
                ctx.check(list(WorldSurface.INITIAL_CENTERING) == initial, "view/default", "the view keys changed the default view: %s" % WorldSurface.INITIAL_CENTERING, **case)
            # the picture is the one of an environment configured in this way
            # (rendering anew, because a window does not redraw a frame that it already shows)
            env.should_update_rendering = True
            got = env.render("rgb_array")
            twin = build(action, offscreen_rendering=True, scaling=s, centering_position=list(c))
            place(twin, 0)
            want = twin.render("rgb_array")
            d = differ(got, want)
            ctx.check(d <= 0.02, "view/picture", "the picture differs on %.1f%% of the pixels from the one of scaling %.3f and centering %s" % (100 * d, s, c), **case)
            ctx.check(len(np.unique(want.reshape(-1, 3), axis=0)) >= 3, "view/blank", "a blank picture", **case)
            env.close()
            twin.close()
            pg = window()
            ctx.trace()
            ctx.outcome("zoom %.2f" % (s / scaling))
    ctx.sample(case)
