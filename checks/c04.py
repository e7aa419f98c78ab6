"""C04: Kinematics observations list the ego-vehicle first, then the nearest traffic."""
import itertools

import numpy as np

from vk import envs, hw, ref

PROP = "C04"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "5 road shapes x all placements of up to 3 vehicles on 13 slots (near, far, behind, beyond the perception distance) x 2 observer poses, each with 4 of 96 "
             "option combinations in rotation (every option combination on every placement count); all ordered subsets of features of size 2, full feature list, explicit and default ranges; all action "
             "sequences of length 2 in 6 environments x 4 options, observations compared with the state; every answer of the random source for the shuffled order of 0-4 vehicles",
    "thorough": "up to 4 vehicles, 12 option combinations per placement, sequences of length 4"}
ASSUMPTIONS = ["vehicles equally far along the lane, or within 1e-6 of a distance limit, are not judged",
               "default ranges: 150 m, 4 m times the number of lanes of the road, 60 m/s"]
FEATURES = ["presence", "x", "y", "vx", "vy", "heading", "cos_h", "sin_h", "cos_d", "sin_d"]
MOVING = ("x", "y", "vx", "vy")
PERCEPTION = 180.0


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for sh in range(5):
        for part in range(8):
            out.append(("placements", (sh, part, 8, 3 if q else 4, 4 if q else 12)))
    out += [("features", (sh,)) for sh in (0, 2)]
    out += [("shuffled", (n,)) for n in range(5)]
    for name in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0", "intersection-multi-agent-v0"):
        for o in range(4):
            out.append(("episodes", (name, o, seed, 2 if q else 4)))
    return out


def shapes():
    net3 = hw.RoadNetwork()
    for k in range(3):
        net3.add_lane("0", "1", hw.CircularLane([0, 0], 200 + 4 * k, 0.5, 4.5))
    net4 = hw.RoadNetwork()
    for k in range(2):
        net4.add_lane("0", "1", hw.SineLane([0, 4.0 * k], [1000, 4.0 * k], 3, 0.05, 0.4))
    net5 = hw.RoadNetwork()
    net5.add_lane("0", "1", hw.StraightLane([1000, 4], [0, 4]))
    net5.add_lane("1", "2", hw.StraightLane([0, 4], [-300, 4]))
    return [hw.straight(3, 1000), hw.straight(3, 1000, 0.7), net3, net4, net5]


def features_of(v, origin, intentions=True):
    c, s = np.cos(v.heading), np.sin(v.heading)
    dest = np.zeros(2)
    if getattr(v, "route", None):
        a, b, k = v.route[-1]
        lane = v.road.network.get_lane((a, b, k if k is not None else 0))
        dest = lane.position(lane.length, 0) - v.position
        dest = dest / np.linalg.norm(dest) if np.linalg.norm(dest) > 0 else dest
    d = {"presence": 1.0, "x": v.position[0], "y": v.position[1], "vx": v.speed * c, "vy": v.speed * s, "heading": v.heading, "cos_h": c, "sin_h": s,
         "cos_d": dest[0] if intentions else 0.0, "sin_d": dest[1] if intentions else 0.0}
    if origin is not None:
        o = features_of(origin, None)
        for k in MOVING:
            d[k] -= o[k]
    return d


def reference(road, me, cfg, lanes_for_default, others=None):
    """Rows expected, or None when too close to call."""
    lane = me.lane
    s0 = lane.local_coordinates(me.position)[0]
    near = []
    for v in (road.vehicles if others is None else others):
        if v is me:
            continue
        d, s = np.linalg.norm(np.asarray(v.position) - me.position), lane.local_coordinates(v.position)[0] - s0
        behind = s + 2 * me.LENGTH
        if abs(d - PERCEPTION) < 1e-6 or (abs(behind) < 1e-6 and not cfg.get("see_behind")):
            return None
        if d < PERCEPTION and (cfg.get("see_behind") or behind > 0):
            near.append((abs(s), v))
    near.sort(key=lambda t: t[0])
    if any(b[0] - a[0] < 1e-6 for a, b in zip(near, near[1:])):
        return None
    count = cfg.get("vehicles_count", 5)
    feats = cfg.get("features") or FEATURES[:5]
    rows = [features_of(me, None)]
    for _, v in near[:count - 1]:
        rows.append(features_of(v, None if cfg.get("absolute") else me, bool(cfg.get("observe_intentions"))))
    ranges = cfg.get("features_range") or {"x": [-150, 150], "y": [-4.0 * lanes_for_default, 4.0 * lanes_for_default], "vx": [-60, 60], "vy": [-60, 60]}
    out = np.zeros((count, len(feats)))
    for i, d in enumerate(rows):
        for j, f in enumerate(feats):
            x = d[f]
            if cfg.get("normalize", True) and f in ranges:
                x = ref.lmap(x, ranges[f], (-1, 1))
                if cfg.get("clip", True):
                    x = ref.clip(x, -1, 1)
            out[i, j] = x
    return out


def same(got, want, shuffled, rows):
    if np.shape(got) != want.shape:
        return False
    if not shuffled:
        return np.allclose(got, want, atol=1e-6)
    if not np.allclose(got[0], want[0], atol=1e-6):
        return False
    a, b = got[1:], want[1:]
    left = list(range(len(b)))
    for row in a:
        k = next((i for i in left if np.allclose(row, b[i], atol=1e-6)), None)
        if k is None:
            return False
        left.remove(k)
    return True


def judge(ctx, env, obs, road, me, cfg, n, key, case):
    want = reference(road, me, cfg, n)
    ctx.trans()
    if want is None:
        return ctx.outcome("not judged")
    if not same(np.asarray(obs), want, cfg.get("order") == "shuffled", None):
        ctx.violate(key, "observed %s, expected %s" % (np.round(obs, 4).tolist(), np.round(want, 4).tolist()), **case)
    ctx.outcome("%d rows" % int((np.abs(want).sum(axis=1) > 0).sum()))


def option_list():
    out = []
    rng = {"x": [-100, 120], "y": [-30, 20], "vx": [-20, 40], "vy": [-10, 15], "cos_h": [-2, 1]}
    for i, (ab, sh, (no, cl), be, it) in enumerate(itertools.product((False, True), (False, True), ((True, True), (True, False), (False, False)), (False, True), (False, True))):
        for j, n in enumerate((4, (1, 2, 3, 6)[i % 4])):
            out.append(dict(vehicles_count=n, features=FEATURES[:5] if j and i % 3 else FEATURES, features_range=None if (i + j) % 4 == 0 else rng, absolute=ab,
                            order="shuffled" if sh else "sorted", normalize=no, clip=cl, see_behind=be, observe_intentions=it))
    return out


SLOTS = [(-190.0, 0.3), (-171.0, 3.0), (-31.0, -1.0), (-11.3, 3.5), (-8.7, 0.2), (-1.9, 4.4), (2.3, -4.1), (6.9, 0.0), (23.0, 4.0), (57.0, -3.0), (141.0, 0.5),
         (177.3, 3.9), (183.1, 1.0)]


def placements(ctx, sh, part, parts, most, per):
    net = shapes()[sh]
    env, _ = envs.light("highway-v0", 0, vehicles_count=0)
    n_lanes = len(net.graph["0"]["1"])
    home = net.get_lane(("0", "1", n_lanes // 2))
    opts = option_list()
    road = hw.make_road(net)
    env.road = road
    env.observation_type = None
    from highway_env.envs.common.observation import observation_factory
    turn = part * 13 + sh * 5
    for pose in range(2):
        lat, dh, speed = ((0.3, 0.0, 21.0), (-1.1, 0.4, -3.0))[pose]
        me = hw.MDPVehicle(road, home.position(400.0, lat), home.heading_at(400.0) + dh, speed)
        if sh == 4:
            me.plan_route_to("2")
        pool = []
        for i, (s, r) in enumerate(SLOTS):
            v = hw.IDMVehicle(road, home.position(400.0 + s + 0.013 * i, r), home.heading_at(400.0 + s) + (i % 3 - 1) * 0.2, 3.0 * i)
            if i % 2:
                v.plan_route_to("2" if sh == 4 else "1")
            pool.append(v)
        k = 0
        for count in range(most + 1):
            for combo in itertools.permutations(range(len(pool)), count):
                k += 1
                if k % parts != part:
                    continue
                others = [pool[c] for c in combo]
                road.vehicles = others[:count // 2] + [me] + others[count // 2:]
                env.vehicle = me
                for _ in range(per if count < 3 else max(1, per // 4)):
                    turn += 1
                    cfg = opts[turn % len(opts)]
                    ob = observation_factory(env, dict(cfg, type="Kinematics"))
                    case = dict(shape=sh, observer=(lat, dh, speed), vehicles=[SLOTS[c] for c in combo], options=cfg)
                    judge(ctx, env, ob.observe(), road, me, cfg, n_lanes, "placement", case)
                    ctx.state((sh, pose, combo, turn % len(opts)))
    ctx.sample(case)


def features(ctx, sh):
    """Feature lists: every ordered pair, and every feature alone with a range of its own."""
    from highway_env.envs.common.observation import observation_factory
    net = shapes()[sh]
    env, _ = envs.light("highway-v0", 0, vehicles_count=0)
    n_lanes = len(net.graph["0"]["1"])
    home = net.get_lane(("0", "1", 1))
    road = hw.make_road(net)
    env.road = road
    me = hw.MDPVehicle(road, home.position(400.0, 0.4), home.heading_at(400.0) - 0.1, 22.0)
    others = [hw.IDMVehicle(road, home.position(400.0 + s, r), home.heading_at(400.0 + s) + 0.15, 17.0) for s, r in ((8.0, 3.0), (-3.0, -4.0), (60.0, 0.0))]
    others[0].plan_route_to("1")
    road.vehicles = others[:1] + [me] + others[1:]
    env.vehicle = me
    lists = [list(p) for n in (1, 2) for p in itertools.permutations(FEATURES, n)] + [FEATURES, FEATURES[::-1]]
    for fs in lists:
        for own in (None, {f: [-2.0 - i, 3.0 + 2 * i] for i, f in enumerate(fs)}):
            for base in (dict(), dict(normalize=False, absolute=True), dict(clip=False, observe_intentions=True)):
                cfg = dict(base, features=fs, features_range=own, vehicles_count=5)
                ob = observation_factory(env, dict(cfg, type="Kinematics"))
                judge(ctx, env, ob.observe(), road, me, cfg, n_lanes, "features", dict(shape=sh, options=cfg))
                ctx.state((sh, tuple(fs), own is None, tuple(base)))
    ctx.sample(dict(shape=sh, options=cfg))


def shuffled(ctx, n):
    """Over all the answers of the random source, the rows of n other vehicles come in every order."""
    from highway_env.envs.common.observation import observation_factory
    from vk.choice import explore
    env, _ = envs.light("highway-v0", 0, vehicles_count=0)
    road = env.road
    me = env.vehicle
    others = [hw.IDMVehicle(road, me.position + (11.0 * (i + 1), 4.0 * (i % 2)), 0, 20.0 + i) for i in range(n)]
    road.vehicles = others[::2] + [me] + others[1::2]
    for count in range(2, 5):
        cfg = dict(vehicles_count=count, order="shuffled")
        kept = min(n, count - 1)
        orders = set()

        def run(ch):
            env.np_random = ch
            obs = np.asarray(observation_factory(env, dict(cfg, type="Kinematics")).observe())
            judge(ctx, env, obs, road, me, cfg, len(road.network.graph["0"]["1"]), "shuffled", dict(vehicles=n, options=cfg))
            return tuple(int(round(r[1] * 150 / 11.0)) for r in obs[1:] if r[0])
        for script, order in explore(run):
            orders.add(order)
            ctx.state((n, count, script))
        want = set(itertools.permutations(range(1, kept + 1)))
        ctx.check(orders == want, "shuffled/orders", "orders of the rows of %d vehicles: %s" % (kept, sorted(orders)), vehicles=n, options=cfg)
        ctx.trace()
    ctx.sample(dict(vehicles=n, options=cfg))


EPISODE = [dict(vehicles_count=3, normalize=False, see_behind=True), dict(vehicles_count=8, absolute=True, clip=False, features=FEATURES,
                                                                        features_range={"x": [-100, 100], "vy": [-20, 30]}),
           dict(vehicles_count=5, order="shuffled", observe_intentions=True, features=FEATURES, features_range={"x": [-50, 50], "y": [-50, 50], "vx": [-20, 20], "vy": [-20, 20]}),
           dict(vehicles_count=1)]


def episodes(ctx, name, o, seed, depth):
    cfg = EPISODE[o]
    full = dict(cfg, type="Kinematics")
    multi = "multi" in name
    if multi:
        full = {"type": "MultiAgentObservation", "observation_config": full}
    env, obs = envs.light(name, seed, observation=full)
    acts = envs.actions(env)

    def look(obs, case):
        for i, me in enumerate(env.controlled_vehicles):
            if cfg.get("normalize", True) and not cfg.get("features_range"):
                n = len(env.road.network.graph[lanes0[i][0]][lanes0[i][1]])
            else:
                n = 1
            judge(ctx, env, obs[i] if multi else obs, env.road, me, cfg, n, "episode/%s" % name, dict(case, agent=i))

    for seq in itertools.product(range(len(acts)), repeat=depth):
        env.seed(seed)
        obs = env.reset()
        lanes0 = [c.lane_index for c in env.controlled_vehicles]
        case = dict(env=name, options=cfg, seed=seed)
        look(obs, dict(case, sequence=[]))
        for i, a in enumerate(seq):
            obs, _, done, _ = env.step(acts[a])
            look(obs, dict(case, sequence=seq[:i + 1]))
            ctx.state((name, o, seq[:i + 1]))
            if done:
                break
        ctx.trace()
    ctx.sample(case)
