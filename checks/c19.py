"""C19: controlled vehicles converge to their target lane and speed."""
import copy
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle

PROP = "C19"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "lattice: 5 road shapes x 5 initial speeds x 4 target speeds x 3 offsets x 3 headings x 3 target lanes, run until settled; 5 lanes x 5 lanes at low speeds; all "
             "meta-action sequences of length 3 from 9 starts on 3 road shapes, each followed by a settling time; full drives over a chain "
             "of 6 roads and over every smooth route of the roundabout, intersection and merge networks",
    "thorough": "finer lattice (7 offsets, 5 headings), sequences of length 5"}
ASSUMPTIONS = ["curves are followed with a bounded lateral error (0.35 m for lateral accelerations below 2 m/s^2)",
               "initial headings within 0.35 rad of the lane"]
DT = 1 / 15
ACTIONS = ("IDLE", "LANE_LEFT", "LANE_RIGHT", "FASTER", "SLOWER")


def net(kind, lanes=3):
    n = hw.RoadNetwork()
    for k in range(lanes):
        if kind == "straight":
            n.add_lane("0", "1", hw.StraightLane([0, 4. * k], [5000, 4. * k]))
        if kind == "oblique":
            d = np.array([np.cos(2.4), np.sin(2.4)])
            nrm = np.array([-d[1], d[0]])
            n.add_lane("0", "1", hw.StraightLane(nrm * 4 * k, nrm * 4 * k + 4000 * d))
        if kind == "sine":
            n.add_lane("0", "1", hw.SineLane([0, 4. * k], [5000, 4. * k], 3, 0.03, 0.5))
        if kind == "left":
            n.add_lane("0", "1", hw.CircularLane([0, 0], 300 + 4 * k, 3.0, -3.0, False))
        if kind == "right":
            n.add_lane("0", "1", hw.CircularLane([0, 0], 300 - 4 * k, -3.0, 3.0, True))
    return n


KINDS = ("straight", "oblique", "sine", "left", "right")


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for kind in KINDS:
        for v0 in (1.0, 6.0, 14.0, 22.0, 30.0):
            out.append(("lattice", (kind, v0, q)))
    for kind in ("straight", "sine", "right"):
        for lane in range(3):
            for si in range(3):
                out.append(("sequences", (kind, lane, si, 3 if q else 4)))
    out += [("angles", (kind, v)) for kind in ("straight", "oblique") for v in (1.0, 4.0, 9.0)]
    for lane in range(2):
        for v in (6.0, 9.0, 12.0):
            out.append(("chain", (lane, v)))
    out += [("routes", (e,)) for e in ("roundabout-v0", "intersection-v0", "merge-v0")]
    return out


def limits(kind, speed):
    """(lateral error, heading error) once settled."""
    if kind in ("straight", "oblique"):
        return 0.02, 0.01
    return (0.06 if speed < 12 else 0.36 if speed < 22 else 0.7), 0.03


def settle(ctx, car, T, kind, target, seconds, key, case, others=None):
    """IDLE on a free road: checks every frame, then the final state."""
    s, r0 = T.local_coordinates(car.position)
    v_prev = car.speed
    prev_err = abs(car.speed - target)
    for f in range(int(seconds / DT)):
        car.act()
        ctx.check(abs(car.action["steering"]) <= car.MAX_STEERING_ANGLE + 1e-9, key + "/steering",
                  "steering %s" % car.action["steering"], **case)
        car.step(DT)
        s, r = T.local_coordinates(car.position)
        err = abs(car.speed - target)
        ctx.check(err <= prev_err + 1e-6, key + "/speed-monotone", "speed %s for a target of %s" % (car.speed, target), **case)
        prev_err = err
        # never further than it started (plus transients of the initial heading), never beyond half a lane on the other side
        ctx.check(r * np.sign(r0 or 1) > -2.2, key + "/overshoot", "at %.2f m on the other side of the lane" % r, **case)
        ctx.check(abs(r) < abs(r0) + 2.2, key + "/away", "at %.2f m from the lane, started at %.2f" % (r, r0), **case)
    ctx.trans(int(seconds / DT))
    lat, head = limits(kind, car.speed)
    ctx.check(abs(r) < lat, key + "/lateral", "%.3f m from the centre of the target lane after %s s" % (r, seconds), **case)
    ctx.check(abs(hw.wrap(car.heading - T.heading_at(s))) < head, key + "/heading", "heading error %.3f after %s s" %
              (hw.wrap(car.heading - T.heading_at(s)), seconds), **case)
    ctx.check(abs(car.speed - target) < 0.02, key + "/speed", "speed %.3f for a target of %.3f" % (car.speed, target), **case)
    ctx.check(tuple(car.lane_index) == tuple(car.target_lane_index), key + "/lane", "settled on lane %s instead of %s" %
              (car.lane_index, car.target_lane_index), **case)


def lattice(ctx, kind, v0, q):
    n = net(kind)
    road = hw.make_road(n)
    lane = n.get_lane(("0", "1", 1))
    for tgt in (5.0, 12.0, 20.0, 30.0):
        for r0 in (-1.6, 0.0, 1.6) if q else (-1.9, -1.2, -0.5, 0.0, 0.5, 1.2, 1.9):
            for h0 in (-0.3, 0.0, 0.3) if q else (-0.35, -0.2, 0.0, 0.2, 0.35):
                for tl in range(3):
                    car = ControlledVehicle(road, lane.position(30, r0), lane.heading_at(30) + h0, v0,
                                            target_lane_index=("0", "1", tl), target_speed=tgt)
                    T = n.get_lane(("0", "1", tl))
                    case = dict(kind=kind, v0=v0, target=tgt, offset=r0, heading=h0, lane=tl)
                    settle(ctx, car, T, kind, tgt, 11, "lattice", case)
                    ctx.state((kind, v0, tgt, r0, h0, tl))
                    ctx.trace()
                    ctx.outcome("%s lane change %+d" % (kind, tl - 1))
    ctx.sample(case)


def angles(ctx, kind, v0):
    """At low speeds and far from its lane, a vehicle never turns by more than 45 degrees from it."""
    n = net(kind, 5)
    road = hw.make_road(n)
    for tgt, start, tl, h0 in itertools.product((1.5, 3.0, 6.0), range(5), range(5), (0.0, 0.3, -0.3)):
        lane, T = n.get_lane(("0", "1", start)), n.get_lane(("0", "1", tl))
        car = ControlledVehicle(road, lane.position(30, 0), lane.heading_at(30) + h0, v0, target_lane_index=("0", "1", tl), target_speed=tgt)
        case = dict(kind=kind, v0=v0, target=tgt, start=start, lane=tl, heading=h0)
        worst = 0.0
        for f in range(450):
            car.act()
            ctx.check(abs(car.action["steering"]) <= car.MAX_STEERING_ANGLE + 1e-9, "angles/steering", "steering %s" % car.action["steering"], **case)
            car.step(DT)
            s, r = T.local_coordinates(car.position)
            worst = max(worst, abs(hw.wrap(car.heading - T.heading_at(s))))
        ctx.check(worst <= np.pi / 4 + 0.05, "angles/turn", "turned by %.2f rad from its lane" % worst, **case)
        ctx.check(abs(r) < 0.1 + 0.3 * abs(tl - start) * (tgt < 2), "angles/lateral", "%.2f m from its lane after 30 s" % r, **case)
        ctx.trans(450)
        ctx.state((kind, v0, tgt, start, tl, h0))
        ctx.trace()
        ctx.outcome("turned %.1f" % worst)
    ctx.sample(case)


def sequences(ctx, kind, lane_id, si, depth):
    """All meta-action sequences; after each, IDLE leads to the current targets."""
    n = net(kind)
    road = hw.make_road(n)
    lane = n.get_lane(("0", "1", lane_id))
    cls = MDPVehicle if si < 2 else ControlledVehicle
    v0 = (20.0, 30.0, 10.0)[si]
    first = cls(road, lane.position(30, 0), lane.heading_at(30), v0)
    edge_lo, edge_hi = n.get_lane(("0", "1", 0)), n.get_lane(("0", "1", 2))

    def clone(c):
        d = copy.copy(c)
        d.position = c.position.copy()
        d.action = dict(c.action)
        return d
    stack = [(first, ())]
    while stack:
        car, hist = stack.pop()
        if len(hist) == depth:
            continue
        for a in ACTIONS:
            c = clone(car)
            case = dict(kind=kind, lane=lane_id, start=si, actions=hist + (a,))
            for f in range(15):
                c.act(None if (f or a == "IDLE") else a)
                ctx.check(abs(c.action["steering"]) <= c.MAX_STEERING_ANGLE + 1e-9, "sequences/steering", "", **case)
                c.step(DT)
                lo, hi = edge_lo.local_coordinates(c.position)[1], edge_hi.local_coordinates(c.position)[1]
                ctx.check(lo > -2.0 and hi < 2.0, "sequences/offroad", "%.2f, %.2f m from the outermost lanes" % (lo, hi), **case)
            ctx.trans(15)
            ctx.check(0 <= c.target_lane_index[2] <= 2 and c.target_lane_index[:2] == ("0", "1"), "sequences/target", "%s" % (c.target_lane_index,), **case)
            ctx.state((kind, lane_id, si, hist + (a,)))
            d = clone(c)
            if d.target_speed > 1:
                settle(ctx, d, n.get_lane(d.target_lane_index), kind, d.target_speed, 8 if kind == "straight" else 10, "settle", case)
            ctx.outcome("%s lane %d at %d" % (kind, d.target_lane_index[2], round(d.speed)))
            ctx.trace()
            stack.append((c, hist + (a,)))
    ctx.sample(case)


def drive(ctx, car, network, route, seconds, lat_max, key, case):
    """The vehicle goes through the lanes of ``route`` in order, staying in its lane."""
    pos = 0
    for f in range(int(seconds / DT)):
        car.act()
        ctx.check(abs(car.action["steering"]) <= car.MAX_STEERING_ANGLE + 1e-9, key + "/steering", "", **case)
        car.step(DT)
        ctx.trans()
        t = tuple(car.target_lane_index)
        if pos + 1 < len(route) and t[:2] == route[pos + 1][:2]:
            pos += 1
        ctx.check(t[:2] == route[pos][:2], key + "/order", "target lane %s while on road %s" % (t, route[pos]), **case)
        T = network.get_lane(t)
        s, r = T.local_coordinates(car.position)
        ctx.check(abs(r) < lat_max, key + "/lane", "%.2f m away from lane %s" % (r, t), **case)
        ctx.state((key, sorted(case.items(), key=str), f))
        if pos == len(route) - 1 and s > T.length - 3:
            break
    ctx.check(pos == len(route) - 1 and s > T.length - 3.1, key + "/arrive", "still at %.1f of road %s (%d of %d)" %
              (s, t, pos + 1, len(route)), **case)
    ctx.trace()
    return pos


def chain(ctx, lane_id, v):
    n = hw.RoadNetwork()
    # (kind, start, heading, length/radius, angle): lanes are offset to the right of the reference line
    x, h = np.array([0.0, 0.0]), 0.0
    names = "abcdefgh"
    for i, (kind, p1, p2) in enumerate((("s", 80, 0), ("c", 60, 1.5), ("s", 12, 0), ("c", 70, -2.2), ("w", 90, 0), ("s", 50, 0))):
        t = np.array([np.cos(h), np.sin(h)])
        nr = np.array([-t[1], t[0]])
        if kind == "c":
            cw = p2 > 0
            center = x + nr * (p1 if cw else -p1)
            ph = np.arctan2(*(x - center)[::-1])
        for k in range(2):
            if kind == "s":
                n.add_lane(names[i], names[i + 1], hw.StraightLane(x + nr * 4 * k, x + nr * 4 * k + t * p1))
            elif kind == "w":
                n.add_lane(names[i], names[i + 1], hw.SineLane(x + nr * 4 * k, x + nr * 4 * k + t * p1, 1.0, 2 * np.pi / p1, 0.0))
            else:
                n.add_lane(names[i], names[i + 1], hw.CircularLane(center, p1 - 4 * k if cw else p1 + 4 * k, ph, ph + p2, cw))
        if kind == "c":
            x = center + p1 * np.array([np.cos(ph + p2), np.sin(ph + p2)])
            h += p2
        else:
            x = x + t * p1
    road = hw.make_road(n)
    route = [(names[i], names[i + 1], lane_id) for i in range(6)]
    for planned, cls, r0 in itertools.product((True, False), (ControlledVehicle, hw.IDMVehicle), (-1.0, 0.0, 1.0)):
        L = n.get_lane(route[0])
        car = cls(road, L.position(5, r0), L.heading_at(0), v, target_speed=v)
        if planned:
            car.plan_route_to("g")
        if cls is hw.IDMVehicle:
            car.enable_lane_change = False
        road.vehicles = [car]
        case = dict(lane=lane_id, speed=v, planned=planned, cls=cls.__name__, offset=r0)
        drive(ctx, car, n, route, 420 / v + 20, 1.5, "chain", case)
        ctx.check(tuple(car.target_lane_index) == route[-1], "chain/lane-number", "%s" % (car.target_lane_index,), **case)
        ctx.outcome("chain %s" % cls.__name__)
    ctx.sample(case)


def smooth(l1, l2):
    """Does lane l2 continue lane l1 without a jump?"""
    gap = np.hypot(*(l1.position(l1.length, 0) - l2.position(0, 0)))
    return gap < 0.5 and abs(hw.wrap(l1.heading_at(l1.length) - l2.heading_at(0))) < 0.3


def routes(ctx, name):
    """Every smooth route from an entry to an exit of the network, driven from its first metres to its end."""
    import gym
    env = gym.make(name).unwrapped
    env.seed(0)
    env.reset()
    n = env.road.network
    lanes = {(a, b, k): l for a, tos in n.graph.items() for b, ls in tos.items() for k, l in enumerate(ls)}
    entries = [i for i, l in lanes.items() if l.length > 20 and not any(j[1] == i[0] and smooth(m, l) for j, m in lanes.items())]
    exits = [i for i, l in lanes.items() if not any(j[0] == i[1] and smooth(l, m) for j, m in lanes.items())]
    v = {"roundabout-v0": 9.0, "intersection-v0": 8.0}.get(name, 20.0)
    road = hw.make_road(n)
    done = 0
    for i in entries:
        for goal in sorted({j[1] for j in exits}):
            L = lanes[i]
            car = ControlledVehicle(road, L.position(6, 0), L.heading_at(6), v)
            if tuple(car.lane_index) != i:
                continue
            car.plan_route_to(goal)
            plan = [tuple(x) for x in car.route]
            if len(plan) == 1 and goal != i[1]:
                continue
            if any(lanes[x[:2] + (0,)].forbidden for x in plan):
                continue
            if not all(any(smooth(lanes[j], lanes[m]) for j in lanes for m in lanes if j[:2] == x[:2] and m[:2] == y[:2])
                       for x, y in zip(plan, plan[1:])):
                continue
            total = sum(n.graph[x[0]][x[1]][0].length for x in plan)
            case = dict(env=name, lane=i, goal=goal)
            drive(ctx, car, n, plan, total / v * 1.3 + 15, 4.5, "routes", case)
            ctx.outcome("%d roads" % len(plan))
            ctx.sample(case)
            done += 1
    ctx.check(done >= 1, "routes/none", "no route found in %s" % name)
