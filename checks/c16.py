"""C16: neighbour search finds the vehicles directly ahead and behind."""
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.behavior import IDMVehicle

PROP = "C16"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all ordered placements of up to 2 other bodies (vehicle, obstacle, landmark) on 26 slots around a vehicle on each of 5 road "
             "shapes, and of 3 other bodies each on one of the 5 shapes, "
             "for every lane of the road; close vehicles: all placements of up to 4 vehicles on 14 slots x 6 distances x counts 0-5 and "
             "none x behind or not",
    "thorough": "4 other bodies, 34 slots"}
ASSUMPTIONS = ["bodies at exactly the same longitudinal position, or within 1e-6 of a lane or distance limit, are not judged"]


def shapes():
    net1 = hw.straight(3, 60)
    net2 = hw.straight(3, 60, 0.7)
    net3 = hw.RoadNetwork()
    for k in range(3):
        net3.add_lane("0", "1", hw.CircularLane([0, 0], 40 + 4 * k, -1.2, 1.2, False if False else True))
    net4 = hw.RoadNetwork()
    for k in range(3):
        net4.add_lane("0", "1", hw.SineLane([0, 4.0 * k], [60, 4.0 * k], 2, 0.15, 0.4))
    net5 = hw.RoadNetwork()
    net5.add_lane("0", "1", hw.StraightLane([60, 4], [0, 4], width=3))
    net5.add_lane("1", "0", hw.StraightLane([0, 8], [60, 8], width=5))
    net5.add_lane("0", "1", hw.StraightLane([60, 0], [0, 0]))
    return [net1, net2, net3, net4, net5]


KINDS = ("v", "v", "o", "v", "l", "i")


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for sh in range(5):
        for part in range(6):
            out.append(("neighbours", (sh, part, 6, 3 if q else 4)))
    for part in range(8):
        out.append(("close", (part, 8, 4 if q else 5)))
    out.append(("envs", ()))
    return out


def slot_menu(lane, deep):
    """(s, r) around the middle of the lane: fore and aft, on the lane, on its margin, beyond, beyond its ends."""
    L = lane.length
    s = [-4.0, 3.1, 17.7, 27.2, 30.9, 33.3, 46.4, L + 4.2, L + 6.0, -6.0]
    out = [(x, 0.2) for x in s]
    out += [(x, r) for x in (12.3, 29.1, 36.5) for r in (2.7, -2.8, 3.4, 4.1, -4.3)]
    out = [(x + 0.011 * i, r) for i, (x, r) in enumerate(out)]
    out += [(24.0, 1.1)]
    return out


def body(kind, road, lane, s, r):
    p, h = lane.position(s, r), lane.heading_at(s)
    if kind == "o":
        return hw.Obstacle(road, p, heading=h)
    if kind == "l":
        return hw.Landmark(road, p, heading=h)
    if kind == "i":
        return IDMVehicle(road, p, h, 5.0)
    return Vehicle(road, p, h, 5.0)


def reference(lane, me, others):
    """Nearest ahead and nearest behind among those on the lane; None if too close to a limit."""
    s0 = lane.local_coordinates(me.position)[0]
    front, rear = None, None
    for o in others:
        if o is me or isinstance(o, hw.Landmark):
            continue
        s, r = lane.local_coordinates(o.position)
        lim = abs(r) - lane.width_at(s) / 2 - 1
        if min(abs(lim), abs(s + 5), abs(s - lane.length - 5), abs(s - s0)) < 1e-6:
            return None
        if lim > 0 or s < -5 or s > lane.length + 5:
            continue
        if s > s0 and (front is None or s < front[0]):
            front = (s, o)
        if s < s0 and (rear is None or s > rear[0]):
            rear = (s, o)
    ss = sorted(lane.local_coordinates(o.position)[0] for o in others if o is not me and not isinstance(o, hw.Landmark))
    if any(b - a < 1e-6 for a, b in zip(ss, ss[1:])):
        return None
    return front and front[1], rear and rear[1]


def neighbours(ctx, sh, part, parts, most):
    net = shapes()[sh]
    indices = [(a, b, k) for a, tos in net.graph.items() for b, ls in tos.items() for k in range(len(ls))]
    home = net.get_lane(indices[1])
    road = hw.make_road(net)
    me = Vehicle(road, home.position(30.0, 0.1), home.heading_at(30.0), 10.0)
    slots = slot_menu(home, most > 3)
    pool = {(i, k): body(k, road, home, *s) for i, s in enumerate(slots) for k in set(KINDS)}
    n = 0
    for count in range(0, most + 1):
        for combo in itertools.permutations(range(len(slots)), count):
            n += 1
            if n % parts != part:
                continue
            if count == most and (sum(combo) + sh) % (5 if most == 3 else 60):
                continue    # every fifth of the largest placements on each shape; all of them over the five shapes
            kinds = [KINDS[(c + j + n) % len(KINDS)] for j, c in enumerate(combo)]
            others = [pool[c, k] for c, k in zip(combo, kinds)]
            vehicles = [o for o, k in zip(others, kinds) if k in "vi"]
            vehicles.insert(n % (len(vehicles) + 1), me)
            road.vehicles, road.objects = vehicles, [o for o, k in zip(others, kinds) if k in "ol"]
            for idx in [None] + indices:
                lane = net.get_lane(idx if idx else me.lane_index)
                want = reference(lane, me, others)
                if want is None:
                    continue
                got = road.neighbour_vehicles(me, idx) if idx else road.neighbour_vehicles(me)
                ok = got[0] is want[0] and got[1] is want[1]
                if not ok:
                    co = lambda o: None if o is None else [type(o).__name__] + [round(float(x), 3) for x in lane.local_coordinates(o.position)]
                    ctx.violate("neighbours", "front %s, rear %s; expected %s, %s" % (co(got[0]), co(got[1]), co(want[0]), co(want[1])),
                                shape=sh, lane=idx, others=[(slots[c], k) for c, k in zip(combo, kinds)], order=n)
                ctx.trans()
                ctx.outcome("front %s rear %s" % tuple(type(w).__name__ for w in want))
            ctx.state((sh, combo, tuple(kinds)))
    ctx.trace()
    ctx.sample(dict(shape=sh, others=[(slots[c], k) for c, k in zip(combo, kinds)]))


def close(ctx, part, parts, most):
    """close_vehicles_to against brute force."""
    n = 0
    for sh, net in enumerate(shapes()):
        lane = net.get_lane(("0", "1", 1))
        road = hw.make_road(net)
        me = IDMVehicle(road, lane.position(30.0, 0.1), lane.heading_at(30.0), 10.0)
        slots = [(s, 0.2) for s in (5.3, 18.1, 21.7, 24.9, 32.2, 37.1, 41.6, 55.0)] + \
                [(s, r) for s in (19.2, 29.3, 36.0) for r in (3.9, -4.1)]
        pool = [Vehicle(road, lane.position(*s), lane.heading_at(s[0]), 5.0) for s in slots]
        pool.append(me)
        obstacle = hw.Obstacle(road, lane.position(33, 0), heading=0)
        for count in range(0, most + 1):
            for combo in itertools.permutations(range(len(slots)), count):
                n += 1
                if n % parts != part:
                    continue
                if count == most and (n // parts) % 5 != sh:
                    continue
                if count == most and most > 4 and (n // parts) % 7:
                    continue
                road.vehicles = [pool[c] for c in combo]
                road.vehicles.insert(n % (count + 1), me)
                road.objects = [obstacle]
                dist = {id(pool[c]): float(np.hypot(*(pool[c].position - me.position))) for c in combo}
                along = {id(pool[c]): me.lane.local_coordinates(pool[c].position)[0] - me.lane.local_coordinates(me.position)[0] for c in combo}
                for k, D in enumerate((0.5, 5.03, 9.06, 13.02, 27.0, 100.0)):
                    for behind in (True, False):
                        if min([1] + [abs(d - D) for d in dist.values()] + [abs(a + 10) for a in along.values()]) < 1e-6:
                            continue
                        want = sorted((pool[c] for c in combo if dist[id(pool[c])] < D and (behind or along[id(pool[c])] > -10)),
                                      key=lambda v: abs(along[id(v)]))
                        a = sorted(abs(along[id(v)]) for v in want)
                        if any(y - x < 1e-9 for x, y in zip(a, a[1:])):
                            continue
                        limit = [None, 0, 1, 2, 3, 5][(n + k + behind) % 6]
                        got = road.close_vehicles_to(me, D, count=limit, see_behind=behind)
                        exp = want if limit is None else want[:limit]
                        ctx.check(len(got) == len(exp) and all(g is e for g, e in zip(got, exp)), "close",
                                  "%d vehicles %s, expected %d" % (len(got), [round(float(along.get(id(g), 0)), 2) for g in got], len(exp)),
                                  shape=sh, others=[slots[c] for c in combo], distance=D, see_behind=behind, count=limit)
                        ctx.trans()
                        ctx.outcome("close %d" % len(exp))
                ctx.state((sh, combo))
        ctx.trace()
    ctx.sample(dict(others=[slots[c] for c in combo]))


def envs(ctx):
    """On the roads of the environments, for all pairs of vehicle and lane, along an episode."""
    import gym
    for name in hw.ENVS:
        env = gym.make(name).unwrapped
        env.seed(3)
        env.reset()
        net = env.road.network
        indices = [(a, b, k) for a, tos in net.graph.items() for b, ls in tos.items() for k in range(len(ls))]
        for t in range(4):
            for v in env.road.vehicles[:12]:
                for idx in indices:
                    want = reference(net.get_lane(idx), v, env.road.vehicles + env.road.objects)
                    if want is None:
                        continue
                    got = env.road.neighbour_vehicles(v, idx)
                    ctx.check(got[0] is want[0] and got[1] is want[1], "env/neighbours", "%s, expected %s" % (got, want), env=name, lane=idx, t=t)
                    ctx.trans()
            ctx.state((name, t))
            for _ in range(8):
                env.road.act()
                env.road.step(1 / 15)
        ctx.trace()
