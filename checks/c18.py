"""C18: simulated drivers change lane only when safe and worthwhile."""
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.controller import ControlledVehicle
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle

PROP = "C18"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one decision: all sets of up to 2 neighbours over 36 lane/gap/speed slots x 3 politeness x 5 planned routes x IDM/Linear x 4 road "
             "shapes (1-4 lanes, forbidden lanes, lanes that start or end there), and all sets of 3 neighbours over 18 slots; a lane "
             "change in progress: all pairs of other drivers x targets x gaps x speeds; timers: every frame of arrival of an opportunity",
    "thorough": "sets of 3 neighbours over 36 slots for every politeness and route"}
ASSUMPTIONS = ["decisions within 1e-6 of a threshold are not judged",
               "when both sides qualify, either one is accepted"]
DT = 1 / 15


def tasks(tier, seed):
    out = []
    for kind in ("idm", "linear"):
        for pol in (0.0, 0.4, 1.0):
            for shape in range(4):
                out.append(("decide", (kind, pol, shape, 2, 0, 1)))
    n = 8 if tier == "quick" else 32
    for part in range(n):
        out.append(("decide", ("idm", 0.3, 1, 3, part, n)))
        if tier != "quick":
            out.append(("decide", ("idm", 0.0, 1, 3, part, n)))
            out.append(("decide", ("linear", 0.5, 1, 3, part, n)))
    for part in range(4):
        out.append(("abort", (part, 4)))
    out += [("timer", (k,)) for k in range(4)]
    out += [("closed", (k,)) for k in range(6)]
    return out


def accel(me, v, front, lane):
    """What ``me`` expects ``v`` to do behind ``front``, by the documented models."""
    if v is None or isinstance(v, (hw.Obstacle, hw.Landmark)):
        return 0.0
    d = None if front is None else lane.local_coordinates(front.position)[0] - lane.local_coordinates(v.position)[0]
    fv = 0.0 if front is None or isinstance(front, hw.Obstacle) else front.speed
    if isinstance(me, LinearVehicle):
        f = [v.target_speed - v.speed, 0, 0]
        if front is not None:
            f[1] = min(fv - v.speed, 0)
            f[2] = min(d - me.DISTANCE_WANTED - max(v.speed, 0) * me.TIME_WANTED, 0)
        return float(np.dot(me.ACCELERATION_PARAMETERS, f))
    a, b = me.COMFORT_ACC_MAX, -me.COMFORT_ACC_MIN
    out = a * (1 - (max(v.speed, 0) / v.target_speed) ** me.DELTA)
    if front is not None:
        fvp = 0.0 if isinstance(front, hw.Obstacle) else front.speed * np.cos(front.heading - v.heading)
        want = me.DISTANCE_WANTED + v.speed * me.TIME_WANTED + v.speed * (v.speed - fvp) / (2 * np.sqrt(a * b))
        out -= a * (want / d) ** 2
    return out


def around(lane, me, others):
    s0 = lane.local_coordinates(me.position)[0]
    front = rear = None
    for o in others:
        s, r = lane.local_coordinates(o.position)
        if abs(r) > lane.width_at(s) / 2 + 1 or not -5 <= s < lane.length + 5:
            continue
        if s > s0 and (front is None or s < front[0]):
            front = (s, o)
        elif s < s0 and (rear is None or s > rear[0]):
            rear = (s, o)
    return front and front[1], rear and rear[1]


def mobil(me, net, others, idx, route):
    """True / False / None (too close to a threshold to judge)."""
    cur = net.get_lane(me.lane_index)
    lane = net.get_lane(idx)
    s, r = lane.local_coordinates(me.position)
    if lane.forbidden or abs(r) > 2 * lane.width_at(s) or not 0 <= s < lane.length + 5:
        return False
    nf, nr = around(lane, me, others)
    of, orr = around(cur, me, others)
    nr_a, nr_pa = accel(me, nr, nf, lane), accel(me, nr, me, lane)
    sure = abs(nr_pa + me.LANE_CHANGE_MAX_BRAKING_IMPOSED) > 1e-6
    if nr_pa < -me.LANE_CHANGE_MAX_BRAKING_IMPOSED:
        return False if sure else None
    self_pa = accel(me, me, nf, lane)
    if route and route[0][2] is not None:
        d = route[0][2] - me.lane_index[2]
        if np.sign(idx[2] - me.lane_index[2]) != np.sign(d):
            return False
        sure &= abs(self_pa + me.LANE_CHANGE_MAX_BRAKING_IMPOSED) > 1e-6
        ok = self_pa >= -me.LANE_CHANGE_MAX_BRAKING_IMPOSED
    else:
        gain = self_pa - accel(me, me, of, cur) + me.POLITENESS * (
            nr_pa - nr_a + accel(me, orr, of, cur) - accel(me, orr, me, cur))
        sure &= abs(gain - me.LANE_CHANGE_MIN_ACC_GAIN) > 1e-6
        ok = gain >= me.LANE_CHANGE_MIN_ACC_GAIN
    return ok if sure else None


def make_net(shape):
    if shape == 0:
        return hw.straight(2, 1000), 0
    if shape == 1:
        return hw.straight(3, 1000), 1
    net = hw.RoadNetwork()
    if shape == 2:    # forbidden lane on the left, narrow lane on the right
        net.add_lane("0", "1", hw.StraightLane([0, 0], [1000, 0], forbidden=True))
        net.add_lane("0", "1", hw.StraightLane([0, 4], [1000, 4]))
        net.add_lane("0", "1", hw.StraightLane([0, 8], [1000, 8], width=3))
        return net, 1
    # the left lane has ended before, the right one starts later, or not
    net.add_lane("0", "1", hw.StraightLane([0, 0], [494, 0]))
    net.add_lane("0", "1", hw.StraightLane([0, 4], [1000, 4]))
    net.add_lane("0", "1", hw.StraightLane([0, 8], [503, 8]))
    return net, 1


def slots(most):
    gaps = (13.0, 27.0, 61.0, -11.5, -26.0, -58.0)
    if most == 2:
        return [(l, g, v, k) for l in (-1, 0, 1) for g in gaps for v, k in ((9.0, "idm"), (24.0, "ctrl"))] + \
               [(l, g, 0.0, "obst") for l in (-1, 0, 1) for g in (35.0, -14.0)]
    return [(l, g, v, "idm") for l in (-1, 0, 1) for g, v in ((13.0, 24.0), (27.0, 9.0), (61.0, 9.0), (-11.5, 24.0), (-26.0, 9.0), (-58.0, 24.0))]


def put(road, net, home, slot, s0):
    l, g, v, k = slot
    y = net.get_lane(("0", "1", home)).start[1] + 4.0 * l
    p = [s0 + g + 0.37 * l, y]
    if k == "obst":
        return hw.Obstacle(road, p)
    if k == "ctrl":
        return ControlledVehicle(road, p, 0, v, target_speed=v + 3)
    return IDMVehicle(road, p, 0, v, target_speed=25.0, enable_lane_change=False)


def decide(ctx, kind, pol, shape, most, part, parts):
    cls = type("Driver", (IDMVehicle if kind == "idm" else LinearVehicle,), {"POLITENESS": pol})
    net, home = make_net(shape)
    n_lanes = len(net.graph["0"]["1"])
    menu = [s for s in slots(most) if 0 <= home + s[0] < n_lanes]
    s0 = 500.0
    road = hw.make_road(net)
    combos = [c for n in range(most + 1) for c in itertools.combinations(range(len(menu)), n)
              if len({menu[i][:2] for i in c}) == len(c)]
    home_y = net.get_lane(("0", "1", home)).start[1]
    for j, combo in enumerate(combos):
        if j % parts != part:
            continue
        others = [put(road, net, home, menu[i], s0) for i in combo]
        for speed, tgt in ((20.0, 25.0),) if most == 3 else ((20.0, 25.0), (12.0, 30.0)):
            routes = (None, 0, 1, 2, "later") if most == 2 or j % 7 == 0 else (None,)
            for want_lane in routes:
                if want_lane in (1, 2) and want_lane >= n_lanes:
                    continue
                for timer, enabled in ((1.7, True), (0.6, True), (1.7, False)) if want_lane is None else ((1.7, True),):
                    # Only the lane planned on the current road counts, not the ones planned on the roads after it
                    then = [("1", "2", k) for k in (want_lane, None, 0, 2)[j % 4:][:1]] + [("2", "3", (0, 2, None)[j % 3])]
                    route = None if want_lane is None else [("0", "1", None), ("1", "2", j % 3)] if want_lane == "later" \
                        else [("0", "1", want_lane)] + then[:j // 4 % 3]
                    me = cls(road, [s0, home_y + 0.2], 0, speed, target_speed=tgt, enable_lane_change=enabled, timer=timer)
                    me.route = list(route) if route else None
                    vs = [o for o in others if isinstance(o, Vehicle)]
                    vs.insert(j % (len(vs) + 1), me)
                    road.vehicles, road.objects = vs, [o for o in others if not isinstance(o, Vehicle)]
                    sides = [("0", "1", home + d) for d in (-1, 1) if 0 <= home + d < n_lanes]
                    if not enabled or timer < 1:
                        good, maybe = [], []
                    else:
                        res = {i: mobil(me, net, others, i, route) for i in sides}
                        good = [i for i in sides if res[i]]
                        maybe = [i for i in sides if res[i] is None]
                    here = ("0", "1", home)
                    me.act()
                    got = tuple(me.target_lane_index)
                    allowed = good + maybe + ([] if good else [here])
                    case = dict(kind=kind, politeness=pol, shape=shape, others=[menu[i] for i in combo], speed=speed, target=tgt, route=route,
                                timer=timer, enabled=enabled)
                    ctx.check(got in allowed, "decide/%s" % ("unwanted" if got != here else "missed"),
                              "the target lane became %s, allowed: %s" % (got, allowed), **case)
                    ctx.state((kind, pol, shape, combo, speed, want_lane, timer, enabled))
                    ctx.trans()
                    ctx.outcome("%s side lanes qualify, moved %+d" % (len(good), got[2] - home))
    ctx.trace()
    ctx.sample(case)


def abort(ctx, part, parts):
    """A lane change in progress: aborted exactly when somebody just ahead is already changing to the same lane."""
    net = hw.straight(4, 1000)
    road = hw.make_road(net)
    n = 0
    others_menu = [(lane, tgt, gap, v, k) for lane in range(4) for tgt in range(4) for gap in (-9.0, 8.0, 19.0, 33.0, 120.0)
                   for v, k in ((10.0, "idm"), (26.0, "ctrl")) if abs(lane - tgt) <= 1]
    for home, target in ((1, 2), (2, 1), (0, 1), (3, 2)):
        for pair in [()] + [(i,) for i in range(len(others_menu))] + [(i, (i * 7 + 3 * home + 11) % len(others_menu)) for i in range(len(others_menu))]:
            n += 1
            if n % parts != part:
                continue
            for speed, yoff, timer in itertools.product((20.0, 28.0), (0.0, 0.9), (0.3, 4.0)):
                me = IDMVehicle(road, [500.0, 4.0 * home + yoff * np.sign(target - home)], 0, speed, target_lane_index=("0", "1", target),
                                target_speed=25.0, timer=timer)
                others = []
                for j, i in enumerate(pair):
                    lane, tgt, gap, v, k = others_menu[i]
                    c = (IDMVehicle if k == "idm" else ControlledVehicle)(road, [500.0 + gap + 0.7 * j, 4.0 * lane], 0, v,
                                                                           target_lane_index=("0", "1", tgt), target_speed=25.0)
                    others.append(c)
                plain = Vehicle(road, [520.0, 4.0 * target + 3.0], 0, 5.0)   # never "changing lane"
                road.vehicles = ([me] + others + [plain]) if n % 2 else (others + [plain, me])
                a, b = me.COMFORT_ACC_MAX, -me.COMFORT_ACC_MIN
                want, sure = False, True
                for c in others:
                    d = c.position[0] - 500.0
                    dstar = me.DISTANCE_WANTED + speed * me.TIME_WANTED + speed * (speed - c.speed) / (2 * np.sqrt(a * b))
                    if tuple(c.target_lane_index) == ("0", "1", target) and tuple(c.lane_index) != ("0", "1", target) and d > 0:
                        sure &= abs(d - dstar) > 1e-6
                        want |= d < dstar
                if not sure:
                    continue
                me.act()
                got = tuple(me.target_lane_index)
                exp = ("0", "1", home if want else target)
                case = dict(lane=home, target=target, others=[others_menu[i] for i in pair], speed=speed, offset=yoff)
                ctx.check(got == exp, "abort/%s" % ("missed" if want else "spurious"), "target %s, expected %s" % (got, exp), **case)
                ctx.state((home, target, pair, speed, yoff, timer))
                ctx.trans()
                ctx.outcome("abort" if want else "go on")
    ctx.trace()
    ctx.sample(case)


def timer(ctx, k):
    """Decisions are taken only when the delay has elapsed since the previous one, whenever the opportunity appears."""
    delay = (1.0, 0.5, 1.7, 1.0)[k]
    cls = type("Driver", (IDMVehicle,), {"LANE_CHANGE_DELAY": delay})
    for t0 in (0.0, 0.4, 0.93, 1.4, 2.3):
        for appear in range(0, 40):
            road = hw.make_road(hw.straight(2, 2000))
            me = cls(road, [100.0, 4.0], 0, 20.0, target_speed=25.0, timer=t0)
            road.vehicles = [me]
            t, moved = t0, None
            for f in range(60):
                if f == appear:     # a slow vehicle appears ahead: changing lane is worthwhile from now on
                    road.vehicles.append(ControlledVehicle(road, [me.position[0] + 60.0, 4.0], 0, 20.0, target_speed=20.0))
                expect = t > delay
                sure = abs(t - delay) > 1e-9
                road.act()
                changed = tuple(me.target_lane_index) != ("0", "1", 1)
                want = expect and f >= appear
                ctx.trans()
                if sure:
                    ctx.check(changed == want, "timer", "at frame %d (timer %.3f): target lane changed=%s" % (f, t, changed),
                              delay=delay, start=t0, appear=appear)
                if changed or want:
                    ctx.outcome("moved at %d" % f)
                    break
                if not sure:
                    break
                t = 0 if expect else t
                road.step(DT)
                t += DT
            ctx.state((k, t0, appear))
            ctx.trace()
    ctx.sample(dict(delay=delay, start=t0, appear=appear))


def closed(ctx, k):
    """Driving scenes: every retargeting seen in the closed loop satisfies the model at that frame."""
    spawn = [(1, 60.0, 12.0), (0, 45.0, 22.0), (2, 30.0, 16.0), (1, -25.0, 27.0), (0, -14.0, 24.0), (2, -40.0, 29.0), (2, 90.0, 9.0), (0, 110.0, 14.0)]
    for sub in itertools.combinations(range(len(spawn)), 3 + k % 3):
        if sum(sub) % 3 != k // 2:
            continue
        road = hw.make_road(hw.straight(3, 5000))
        road.vehicles = [IDMVehicle(road, [200.0, 4.0], 0, 21.0, target_speed=28.0)]
        for i in sub:
            l, g, v = spawn[i]
            road.vehicles.append(IDMVehicle(road, [200.0 + g, 4.0 * l], 0, v, target_speed=v + 2))
        since = {id(v): None for v in road.vehicles}
        for f in range(60):
            for v in road.vehicles:     # as Road.act does, one after the other
                others = [o for o in road.vehicles if o is not v]
                before, settled = tuple(v.target_lane_index), tuple(v.target_lane_index) == tuple(v.lane_index)
                sides = [("0", "1", v.lane_index[2] + d) for d in (-1, 1) if 0 <= v.lane_index[2] + d < 3]
                straight = abs(hw.wrap(v.heading)) < 1e-9
                res = {i: mobil(v, road.network, others, i, None) for i in sides} if settled and not v.crashed else {}
                crashed = v.crashed
                v.act()
                after = tuple(v.target_lane_index)
                ctx.trans()
                if after == before:
                    continue
                case = dict(spawn=[spawn[i] for i in sub], frame=f, before=before, after=after)
                ctx.check(not crashed, "closed/crashed", "a crashed driver changed its target", **case)
                if settled:
                    ctx.check(after in sides, "closed/adjacent", "not an adjacent lane", **case)
                    ctx.check(res.get(after) is not False, "closed/unwanted", "the lane change does not satisfy the model", **case)
                    last = since[id(v)]
                    ctx.check(last is None or (f - last) * DT > v.LANE_CHANGE_DELAY - 1e-9, "closed/delay", "two decisions in %d frames" % (f - last if last is not None else 0), **case)
                    since[id(v)] = f
                    ctx.outcome("changed %+d" % (after[2] - before[2]))
                else:
                    ctx.check(after == tuple(v.lane_index), "closed/abort", "changed its mind during a lane change", **case)
                    ctx.outcome("aborted")
            road.step(DT)
            ctx.state((sub, f))
        ctx.trace()
    ctx.sample(dict(spawn=[spawn[i] for i in sub]))
