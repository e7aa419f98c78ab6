"""C17: simulated drivers follow their leader safely."""
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle

PROP = "C17"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "acceleration: 10 speeds x 7 targets x 12 leaders (none, vehicle at 4 headings, obstacle, landmark) x 9 gaps x 3 road angles x "
             "6 parameter sets, IDM and Linear; platoons of 2 drivers behind a leader: all 3^3 leader behaviour sequences (brake, "
             "hold, accelerate, 1.5 s each) x 6 speeds x 3 leader speeds x 4 safe gaps x 2 target speeds; leaders whose lane crosses, merges with or curves away from the own one; free roads: 9 x 6 initial and target speeds",
    "thorough": "leader sequences of length 5 with 4 behaviours, 4 leader and 4 target speeds, platoons of 3 drivers"}
ASSUMPTIONS = ["leader braking is limited to 5 m/s^2",
               "a gap is safe when it exceeds the IDM desired gap of the follower (jam distance, time gap and approach term)"]
DT = 1 / 15


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for kind in ("idm", "linear"):
        for a in range(3):
            for p in range(6):
                out.append(("formula", (kind, a, p)))
    for v in range(6):
        for g in range(4):
            out.append(("platoon", (v, g, 2 if q else 3, 3 if q else 5, 3 if q else 4)))
    out += [("turned", (kind, p)) for kind in ("idm", "linear") for p in range(4)]
    for v in range(9):
        out.append(("free", (v,)))
    out += [("standing", (v,)) for v in range(6)]
    return out


SPEEDS = (0.0, 0.4, 3.0, 8.0, 15.0, 21.0, 25.0, 33.0, 40.0, -4.0)
TARGETS = (0.5, 5.0, 12.0, 20.0, 25.0, 30.0, 40.0)
GAPS = (5.5, 7.3, 10.0, 14.0, 22.0, 35.0, 60.0, 120.0, 400.0)
PARAMS = ({}, {"TIME_WANTED": 0.8, "DISTANCE_WANTED": 7.0}, {"COMFORT_ACC_MAX": 1.3, "COMFORT_ACC_MIN": -2.0}, {"DELTA": 3.5, "ACC_MAX": 2.0},
          {"COMFORT_ACC_MIN": -9.0, "DISTANCE_WANTED": 14.0}, {"TIME_WANTED": 3.0, "ACC_MAX": 9.0, "DELTA": 2.0})
LINPARAMS = (None, [0.1, 0.9, 0.2], [1.0, 0.0, 0.5], [0.0, 0.4, 4.0], [0.5, 0.1, 0.0], [0.15, 0.45, 3.0])


def idm(me, front, gap):
    """The Intelligent Driver Model, as documented."""
    a, b = me.COMFORT_ACC_MAX, -me.COMFORT_ACC_MIN
    target = me.target_speed if abs(me.target_speed) > 1e-2 else 1e-2
    acc = a * (1 - (max(me.speed, 0) / target) ** me.DELTA)
    if front is not None:
        vx = me.speed - (front.speed * np.cos(front.heading - me.heading) if not isinstance(front, hw.Obstacle) else 0)
        gap_wanted = me.DISTANCE_WANTED + me.speed * me.TIME_WANTED + me.speed * vx / (2 * np.sqrt(a * b))
        acc -= a * (gap_wanted / gap) ** 2
    return acc


def linear(me, front, gap, params):
    f = [me.target_speed - me.speed, 0, 0]
    if front is not None:
        f[1] = min(front.speed - me.speed, 0)
        f[2] = min(gap - me.DISTANCE_WANTED - max(me.speed, 0) * me.TIME_WANTED, 0)
    return float(np.dot(params, f))


def formula(ctx, kind, a, p):
    base = IDMVehicle if kind == "idm" else LinearVehicle
    par = dict(PARAMS[p])
    if kind == "linear" and LINPARAMS[p] is not None:
        par["ACCELERATION_PARAMETERS"] = LINPARAMS[p]
    cls = type("Tuned", (base,), par) if par else base
    angle = (0.0, 0.8, 2.9)[a]
    road = hw.make_road(hw.straight(1, 3000, angle))
    lane = road.network.get_lane(("0", "1", 0))
    h0 = lane.heading_at(0)
    s0 = 300.0
    fronts = [("none", 0, 0), ("obstacle", 0, 0), ("landmark", 0, 0)] + \
             [("vehicle", fv, fh) for fv, fh in ((0.0, 0.0), (5.0, 0.0), (20.0, 0.0), (33.0, 0.1), (12.0, 1.2), (15.0, 3.1), (-6.0, 0.0))]
    for v, tgt, (fk, fv, fh), gap in itertools.product(SPEEDS, TARGETS, fronts, GAPS):
        me = cls(road, lane.position(s0, 0), h0, v, target_speed=tgt, enable_lane_change=False)
        road.vehicles, road.objects = [me], []
        front = None
        if fk == "vehicle":
            front = Vehicle(road, lane.position(s0 + gap, 0.3), h0 + fh, fv)
            road.vehicles = [front, me] if int(gap) % 2 else [me, front]
        elif fk == "obstacle":
            front = hw.Obstacle(road, lane.position(s0 + gap, -0.3), heading=h0)
            road.objects = [front]
        elif fk == "landmark":
            road.objects = [hw.Landmark(road, lane.position(s0 + gap, 0), heading=h0)]
        # a follower never matters for the acceleration
        road.vehicles.append(Vehicle(road, lane.position(s0 - 12, 0.3), h0, 30.0))
        me.act()
        want = idm(me, front, gap) if kind == "idm" else linear(me, front, gap, me.ACCELERATION_PARAMETERS)
        case = dict(speed=v, target=tgt, front=(fk, fv, fh), gap=gap, params=par, angle=angle)
        got = me.action["acceleration"]
        ctx.check(abs(got) <= me.ACC_MAX + 1e-9, "limit", "acceleration %s beyond %s" % (got, me.ACC_MAX), **case)
        ctx.check(abs(got - np.clip(want, -me.ACC_MAX, me.ACC_MAX)) < 1e-6 * max(1, abs(want)), "formula/%s" % kind,
                  "acceleration %s, the model gives %s" % (got, want), **case)
        got = me.acceleration(ego_vehicle=me, front_vehicle=front)
        ctx.check(abs(got - want) < 1e-6 * max(1, abs(want)), "formula/%s/raw" % kind, "acceleration %s, the model gives %s" % (got, want), **case)
        if kind == "linear":
            f = me.acceleration_features(me, front)
            ctx.check(abs(np.dot(f, me.ACCELERATION_PARAMETERS) - want) < 1e-6 * max(1, abs(want)), "features", "%s" % f, **case)
            # what it expects of a vehicle that has no target speed
            plain = Vehicle(road, lane.position(s0, 0), h0, v)
            plain.target_speed = v
            want, bare = me.acceleration(plain, front), Vehicle(road, lane.position(s0, 0), h0, v)
            got = me.acceleration(bare, front)
            ctx.check(abs(got - want) < 1e-6 * max(1, abs(want)), "formula/linear/bare", "%s for a vehicle without target speed, expected %s" % (got, want), **case)
        ctx.state((kind, a, p, v, tgt, fk, fv, fh, gap))
        ctx.trans()
        ctx.outcome("%s %s" % (fk, "clipped" if abs(want) > me.ACC_MAX else "inside"))
    # crashed drivers decide nothing
    me = cls(road, lane.position(s0, 0), h0, 20, enable_lane_change=False)
    me.crashed = True
    me.action = {"steering": 0.1, "acceleration": -3.0}
    road.vehicles, road.objects = [me], []
    me.act()
    ctx.check(me.action == {"steering": 0.1, "acceleration": -3.0}, "crashed", "a crashed driver changed its command: %s" % me.action)
    ctx.trace()
    ctx.sample(case)


def turned(ctx, kind, p):
    """A leader whose own lane has another direction: junctions, crossings, merges; and followers on curves. Gaps are along the follower's lane."""
    base = IDMVehicle if kind == "idm" else LinearVehicle
    cls = type("Tuned", (base,), dict(PARAMS[p])) if PARAMS[p] else base
    net = hw.RoadNetwork()
    net.add_lane("a", "b", hw.StraightLane([0, 0], [400, 0]))
    for k, angle in enumerate((0.4, 1.57, 2.4, -0.9, 3.0)):
        d = np.array([np.cos(angle), np.sin(angle)])
        net.add_lane("c%d" % k, "d%d" % k, hw.StraightLane(np.array([250.0, 0.0]) - 120 * d, np.array([250.0, 0.0]) + 60 * d))
    net.add_lane("e", "f", hw.CircularLane([0.0, 500.0], 150, -1.0, 2.0, True))
    road = hw.make_road(net)
    for idx, s0 in ((("a", "b", 0), 200.0), (("e", "f", 0), 60.0)):
        lane = net.get_lane(idx)
        for v, tgt, gap, lat, turn, fv in itertools.product((0.0, 8.0, 20.0, 30.0), (12.0, 30.0), (8.0, 14.0, 22.0, 35.0, 50.0), (-0.9, 0.0, 0.7), (0.0, 0.4, 1.57, 2.4, -0.9, 3.0), (0.0, 7.0, 21.0)):
            me = cls(road, lane.position(s0, 0), lane.heading_at(s0), v, target_speed=tgt, enable_lane_change=False)
            front = Vehicle(road, lane.position(s0 + gap, lat), lane.heading_at(s0 + gap) + turn, fv)
            road.vehicles, road.objects = [me, front], []
            want = idm(me, front, gap) if kind == "idm" else linear(me, front, gap, me.ACCELERATION_PARAMETERS)
            case = dict(lane=idx, speed=v, target=tgt, gap=gap, offset=lat, turn=turn, front_speed=fv, params=PARAMS[p])
            got = me.acceleration(ego_vehicle=me, front_vehicle=front)
            ctx.check(abs(got - want) < 1e-6 * max(1, abs(want)), "turned/%s" % kind, "acceleration %s, the model gives %s" % (got, want), **case)
            me.act()
            if abs(lat) < 0.8:      # on the same lane: this is the leader
                ctx.check(abs(me.action["acceleration"] - np.clip(want, -me.ACC_MAX, me.ACC_MAX)) < 1e-6 * max(1, abs(want)), "turned/%s/act" % kind,
                          "acceleration %s, the model gives %s" % (me.action["acceleration"], want), **case)
            ctx.state((kind, p, idx, v, tgt, gap, lat, turn, fv))
            ctx.trans()
            ctx.outcome("turned %s" % (front.lane_index == idx))
    ctx.trace()
    ctx.sample(case)


def safe_gap(v, vl):
    return 10.0 + 1.5 * v + max(0.0, v * (v - vl) / (2 * np.sqrt(15.0)))


def platoon(ctx, vi, gi, followers, depth, behaviours):
    """Every sequence of leader behaviours: no collision, no overtaking through, no reversing."""
    v0 = (0.0, 4.0, 10.0, 18.0, 25.0, 30.0)[vi]
    for vl, tgt in itertools.product((0.0, 12.0, 28.0), (20.0, 37.0)) if depth == 3 else \
            itertools.product((0.0, 10.0, 22.0, 30.0), (8.0, 20.0, 30.0, 38.0)):
        gap = safe_gap(v0, vl) * (1.0, 1.15, 1.6, 3.0)[gi] + 0.01
        # the search shares prefixes: a node is the state after a prefix of behaviours
        def build(state):
            road = hw.make_road(hw.straight(1, 20000))
            for k, (x, v) in enumerate(state):
                if k == 0:
                    c = Vehicle(road, [x, 0], 0, v)
                else:
                    c = IDMVehicle(road, [x, 0], 0, v, target_speed=tgt, enable_lane_change=False)
                road.vehicles.append(c)
            return road
        start = [(1000.0, vl)]
        x = 1000.0 - gap
        for k in range(followers):
            start.append((x, v0))
            x -= safe_gap(v0, v0) + 0.01
        stack = [(start, ())]
        while stack:
            state, hist = stack.pop()
            if len(hist) == depth:
                ctx.trace()
                continue
            for b in range(behaviours):
                road = build(state)
                leader = road.vehicles[0]
                for f in range(22):
                    acc = (-5.0, 0.0, 3.0, -2.0)[b]
                    if leader.speed + acc * DT < 0:
                        acc = -leader.speed / DT
                    if leader.speed + acc * DT > 35:
                        acc = 0
                    leader.act({"steering": 0, "acceleration": acc})
                    for c in road.vehicles[1:]:
                        c.act()
                    road.step(DT)
                h = hist + (b,)
                case = dict(v0=v0, vl=vl, target=tgt, gap=gap, behaviours=h)
                xs = [c.position[0] for c in road.vehicles]
                ctx.check(not any(c.crashed for c in road.vehicles), "platoon/crash", "collision", **case)
                ctx.check(all(a - b > 4.5 for a, b in zip(xs, xs[1:])), "platoon/order", "positions %s" % xs, **case)
                ctx.check(all(c.speed > -0.6 for c in road.vehicles[1:]), "platoon/reverse", "speeds %s" %
                          [c.speed for c in road.vehicles], **case)
                st = [(c.position[0], c.speed) for c in road.vehicles]
                ctx.state((vi, gi, vl, tgt, h, [(round(x, 6), round(v, 6)) for x, v in st]))
                ctx.trans(22)
                ctx.outcome("min gap < %d" % (5 * (1 + min(a - b for a, b in zip(xs, xs[1:])) // 5)))
                stack.append((st, h))
    ctx.sample(case)


def free(ctx, i):
    """Alone on the road: converges to the target speed, without passing it nor stopping."""
    v0 = (0.0, 0.5, 4.0, 10.0, 16.0, 22.0, 27.0, 33.0, 40.0)[i]
    for tgt, cls, angle in itertools.product((3.0, 9.0, 15.0, 20.0, 27.0, 35.0), (IDMVehicle, LinearVehicle), (0.0, 0.8)):
        road = hw.make_road(hw.straight(2, 5000, angle))
        lane = road.network.get_lane(("0", "1", 1))
        me = cls(road, lane.position(50.0, 0), lane.heading_at(0), v0, target_speed=tgt)
        road.vehicles = [me, hw.IDMVehicle(road, lane.position(20.0, 0), lane.heading_at(0), 0.0, target_speed=0.0)]
        road.vehicles = [me]
        prev = v0
        for f in range(60 * 15):
            road.act()
            road.step(DT)
            case = dict(v0=v0, target=tgt, cls=cls.__name__, angle=angle, frame=f)
            lo, hi = min(v0, tgt) - 0.02, max(v0, tgt) + 0.02
            ctx.check(lo <= me.speed <= hi, "free/overshoot", "speed %s" % me.speed, **case)
            ctx.check(abs(me.speed - tgt) <= abs(prev - tgt) + 0.02, "free/monotone", "speed %s after %s" % (me.speed, prev), **case)
            prev = me.speed
            ctx.trans()
        ctx.check(abs(me.speed - tgt) < 0.3, "free/converge", "speed %s after 60 s" % me.speed, **case)
        ctx.check(tuple(me.lane_index) == ("0", "1", 1) and abs(me.lane.local_coordinates(me.position)[1]) < 1e-3, "free/lane",
                  "left its lane on a free road", **case)
        ctx.state((v0, tgt, cls.__name__, angle))
        ctx.trace()
    ctx.sample(case)


def standing(ctx, i):
    """Stops at the jam distance behind an obstacle or a stopped vehicle, from any safe gap, and leaves when it is gone."""
    v0 = (0.0, 5.0, 12.0, 20.0, 27.0, 35.0)[i]
    for tgt, k, what, lanes in itertools.product((10.0, 33.0), (1.0, 1.3, 2.5), ("obstacle", "vehicle", "crashed"), (2,)):
        road = hw.make_road(hw.straight(lanes, 5000))
        gap = safe_gap(v0, 0.0) * k + 0.01
        me = IDMVehicle(road, [100.0, 0], 0, v0, target_speed=tgt, enable_lane_change=False)
        road.vehicles = [me]
        if what == "obstacle":
            road.objects = [hw.Obstacle(road, [100.0 + gap, 0])]
        else:
            o = Vehicle(road, [100.0 + gap, 0], 0, 0)
            o.crashed = what == "crashed"
            road.vehicles.append(o)
        case = dict(v0=v0, target=tgt, gap=gap, what=what)
        frames = int((40 + 2.0 * gap / min(tgt, 10)) * 15)
        for f in range(frames):
            road.act()
            road.step(DT)
            ctx.trans()
            ctx.check(not me.crashed, "standing/crash", "collision at frame %d" % f, **case)
        d = 100 + gap - me.position[0]
        ctx.check(8.5 < d < 12.5 and abs(me.speed) < 0.4, "standing/stop", "at %.2f m of it with speed %.2f" % (d, me.speed), **case)
        road.objects, road.vehicles = [], [me]
        for f in range(40 * 15):
            road.act()
            road.step(DT)
        ctx.check(abs(me.speed - tgt) < 0.5, "standing/leave", "speed %s 40 s after the road is free" % me.speed, **case)
        ctx.state((v0, tgt, k, what, lanes))
        ctx.trace()
    ctx.sample(case)
