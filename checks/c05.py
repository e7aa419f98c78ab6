"""C05: occupancy grids show each vehicle in the cell that contains it."""
import itertools

import numpy as np

from vk import envs, hw, ref

PROP = "C05"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "9 grids (square or not, off-centre, steps from 0.5 to 10, sizes not a multiple of the step) x 6 feature/range settings (ranges of features that are not observed included): one vehicle at every point of a "
             "half-cell lattice extending two cells outside of the grid, relative to 3 observer poses; all pairs and triples of vehicles of a 12 position menu "
             "including a shared cell; all action sequences of length 2 in 5 environments",
    "thorough": "quarter-cell lattice, all sets of 4 vehicles, sequences of length 3"}
ASSUMPTIONS = ["vehicles within 1e-6 of the limit of a cell are not judged (both cells are accepted)",
               "when several vehicles share a cell the cell may show any of them",
               "the default range of velocities is 60 m/s; other features have no default range"]

GRIDS = [dict(), dict(grid_size=[[-20, 20], [-20, 20]], grid_step=[5, 5]), dict(grid_size=[[-30, 60], [-6, 6]], grid_step=[10, 4]),
         dict(grid_size=[[-5, 12], [-22, 9]], grid_step=[3, 7]), dict(grid_size=[[-1, 2.5], [-4, 2]], grid_step=[0.5, 1.5]),
         dict(grid_size=[[-40, 40], [-8, 16]], grid_step=[8, 8]), dict(grid_size=[[5, 45], [-10, 10]], grid_step=[10, 5]),
         dict(grid_size=[[-12, 12], [-30, -6]], grid_step=[6, 4]), dict(grid_size=[[-10, 10], [-10, 10]], grid_step=[20, 20])]
SETTINGS = [dict(), dict(features=["presence", "x", "y", "vx", "vy", "cos_h", "sin_h"], features_range={"x": [-100, 100], "y": [-50, 80], "vx": [-20, 30], "vy": [-20, 20]}),
            dict(features=["vy", "presence", "heading", "vx"], features_range={"vx": [-5, 5], "vy": [-8, 2]}),
            dict(features=["presence", "vx"], features_range={"vy": [-20, 20], "x": [-100, 90], "y": [-7, 7], "vx": [-25, 25], "heading": [-1, 1]}),
            dict(features=["presence", "cos_h", "x"], features_range={"y": [-3, 4], "vx": [0, 25], "x": [-80, 90]}),
            dict(features=["y", "sin_h", "presence"], features_range={"x": [-4, 5], "vx": [0, 25], "y": [-40, 45]})]


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for g in range(len(GRIDS)):
        for s in range(len(SETTINGS)):
            out.append(("single", (g, s, 2 if q else 4)))
    for g in range(len(GRIDS)):
        out.append(("several", (g, 3 if q else 4)))
    for name in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0"):
        out.append(("episodes", (name, seed, 2 if q else 3)))
    return out


def shape_of(g):
    (x0, x1), (y0, y1) = g.get("grid_size", [[-27.5, 27.5], [-27.5, 27.5]])
    sx, sy = g.get("grid_step", [5, 5])
    return (x0, y0, sx, sy, int((x1 - x0) // sx), int((y1 - y0) // sy))


def feature(v, me, f, ranges):
    c, s = np.cos(v.heading), np.sin(v.heading)
    mc, ms = np.cos(me.heading), np.sin(me.heading)
    x = {"presence": 1.0, "x": v.position[0] - me.position[0], "y": v.position[1] - me.position[1], "vx": v.speed * c - me.speed * mc,
         "vy": v.speed * s - me.speed * ms, "heading": v.heading, "cos_h": c, "sin_h": s}[f]
    if f in ranges:
        x = ref.lmap(x, ranges[f], (-1, 1))
    return ref.clip(x, -1, 1)


def judge(ctx, obs, vehicles, me, cfg, key, case):
    x0, y0, sx, sy, nx, ny = shape_of(cfg)
    feats = cfg.get("features") or ["presence", "vx", "vy"]
    ranges = cfg.get("features_range") or {"vx": [-60, 60], "vy": [-60, 60]}
    ctx.trans()
    if np.shape(obs) != (len(feats), ny, nx):
        return ctx.violate(key + "/shape", "shape %s, expected %s" % (np.shape(obs), (len(feats), ny, nx)), **case)
    cells, unsure = {}, set()
    for v in vehicles:
        u, w = (v.position[0] - me.position[0] - x0) / sx, (v.position[1] - me.position[1] - y0) / sy
        us = {int(np.floor(u + e)) for e in (-1e-7, 1e-7)}
        ws = {int(np.floor(w + e)) for e in (-1e-7, 1e-7)}
        here = [(j, i) for i in us for j in ws if 0 <= i < nx and 0 <= j < ny]
        if len(us) * len(ws) > 1:
            unsure.update(here)
            for c in here:
                cells.setdefault(c, []).append(v)
            continue
        for c in here:
            cells.setdefault(c, []).append(v)
    empty = np.ones((ny, nx), dtype=bool)
    for (j, i), vs in cells.items():
        empty[j, i] = False
        got = np.asarray(obs)[:, j, i]
        ok = any(np.allclose(got, [feature(v, me, f, ranges) for f in feats], atol=1e-6) for v in vs)
        if not ok and (j, i) in unsure:
            ok = np.allclose(got, 0)
        if not ok:
            ctx.violate(key, "cell %s shows %s, but contains %s" % ((j, i), np.round(got, 5).tolist(), [
                np.round([feature(v, me, f, ranges) for f in feats], 5).tolist() for v in vs]), **case)
    if np.any(np.asarray(obs)[:, empty]):
        j, i = [(a, b) for a, b in zip(*np.nonzero(np.any(np.asarray(obs) != 0, axis=0))) if empty[a, b]][0]
        ctx.violate(key + "/empty", "cell (%d, %d) shows %s, but contains no vehicle" % (j, i, np.asarray(obs)[:, j, i].tolist()), **case)
    ctx.outcome("%d vehicles in the grid" % sum(len(c) for c in cells.values()))


def scene(cfg):
    from highway_env.envs.common.observation import observation_factory
    env, _ = envs.light("highway-v0", 0, vehicles_count=0)
    env.road = hw.make_road(hw.straight(3, 1000))
    return env, lambda: observation_factory(env, dict(cfg, type="OccupancyGrid"))


POSES = [((200.0, 4.0), 0.0, 20.0), ((37.25, -3.5), 0.6, 9.0), ((0.0, 0.0), 3.0, -4.0)]


def single(ctx, g, s, per):
    cfg = dict(GRIDS[g], **SETTINGS[s])
    env, observer = scene(cfg)
    x0, y0, sx, sy, nx, ny = shape_of(cfg)
    n = 0
    for pose, (p, h, v) in enumerate(POSES):
        me = hw.MDPVehicle(env.road, np.array(p), h, v)
        env.vehicle = me
        ob = observer()
        for a, b in itertools.product(range(-2 * per, (nx + 2) * per), range(-2 * per, (ny + 2) * per)):
            if not (-2 <= a / per <= 2 or nx - 2 <= a / per or pose == 0) or not (-2 <= b / per <= 2 or ny - 2 <= b / per or pose == 0):
                continue
            n += 1
            rel = (x0 + sx * (a + 0.37) / per, y0 + sy * (b + 0.61) / per)
            other = hw.IDMVehicle(env.road, me.position + rel, (n % 7) * 0.9, (n % 5) * 8.0)
            env.road.vehicles = [me, other] if n % 2 else [other, me]
            if n % 11 == 0:
                ob = observer()
            case = dict(grid=cfg, observer=(p, h, v), relative_position=rel)
            judge(ctx, ob.observe(), env.road.vehicles, me, cfg, "cell", case)
            ctx.state((g, s, pose, a, b))
    ctx.sample(case)


def several(ctx, g, most):
    cfg = dict(GRIDS[g], **SETTINGS[g % len(SETTINGS)])
    env, observer = scene(cfg)
    x0, y0, sx, sy, nx, ny = shape_of(cfg)
    menu = [(0.3, 0.4), (0.7, 0.2), (nx - 0.4, ny - 0.6), (nx + 0.3, ny - 0.5), (-0.2, 0.5), (0.5, -0.3), (nx / 2 + 0.1, ny / 2 + 0.2), (0.4, ny + 0.1),
            (nx - 0.3, 0.3), (nx / 2 + 0.2, 0.45), (-1.2, -0.9), (0.35, ny - 0.2)]
    for pose, (p, h, v) in enumerate(POSES[:2]):
        me = hw.MDPVehicle(env.road, np.array(p), h, v)
        env.vehicle = me
        ob = observer()
        pool = [hw.IDMVehicle(env.road, me.position + (x0 + sx * u, y0 + sy * w), 0.5 * i, 4.0 * i) for i, (u, w) in enumerate(menu)]
        for count in range(most + 1):
            for combo in itertools.combinations(range(len(menu)), count):
                env.road.vehicles = [pool[c] for c in combo]
                env.road.vehicles.insert(sum(combo) % (count + 1), me)
                case = dict(grid=cfg, observer=(p, h, v), cells=[menu[c] for c in combo])
                judge(ctx, ob.observe(), env.road.vehicles, me, cfg, "several", case)
                ctx.state((g, pose, combo))
    ctx.sample(case)


def episodes(ctx, name, seed, depth):
    for g in (0, 2, 3):
        cfg = dict(GRIDS[g], **SETTINGS[g % len(SETTINGS)])
        env, obs = envs.light(name, seed, observation=dict(cfg, type="OccupancyGrid"))
        acts = envs.actions(env)
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(seed)
            obs = env.reset()
            case = dict(env=name, grid=cfg, seed=seed)
            judge(ctx, obs, env.road.vehicles, env.vehicle, cfg, "episode/%s" % name, dict(case, sequence=[]))
            for i, a in enumerate(seq):
                obs, _, done, _ = env.step(acts[a])
                judge(ctx, obs, env.road.vehicles, env.vehicle, cfg, "episode/%s" % name, dict(case, sequence=seq[:i + 1]))
                ctx.state((name, g, seq[:i + 1]))
                if done:
                    break
            ctx.trace()
    ctx.sample(case)
