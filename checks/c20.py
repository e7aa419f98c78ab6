"""C20: regulated roads give way by priority."""
import itertools

import numpy as np

from vk import envs, hw
from highway_env.road.regulation import RegulatedRoad

PROP = "C20"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "the intersection network: all pairs of (movement, position, speed) with 6 movements x 7 positions x 3 speeds for one vehicle and 12 x 7 x 3 for the other, in both orders, with "
             "simulated vehicles and ego-vehicles; all triples of a menu of 14; crossings of two and three roads with all priorities in 0-2 (and vehicles turned from their lane when priorities are equal); a yielding vehicle with the other "
             "one in every later state; all action sequences of length 3 in intersection-v0 and of length 2 with two agents, 3 seeds, monitored at every frame",
    "thorough": "12 x 9 positions x 4 speeds for both vehicles, sequences of length 5, 6 seeds"}
ASSUMPTIONS = ["predictions every 0.25 s up to 2.75 s; vehicles whose footprints (90%) overlap are in conflict, vehicles further than their length (plus 5%) or "
               "whose footprints do not overlap even when 1.55 times as long are not; in between both answers are accepted",
               "vehicles at equal priority exactly side by side are not judged", "vehicles on their lane's centre line at a regulation instant every half second (floor of frames)"]
TIMES = np.arange(0.25, 3, 0.25)


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for m in range(6 if q else 12):
        for part in range(4):
            out.append(("pairs", (m, part, 4, 0 if q else 1)))
    out += [("triples", (p,)) for p in range(4)]
    out += [("crossing", (n,)) for n in (2, 3)]
    out += [("recovery", (p,)) for p in range(4)]
    out += [("limits", (p,)) for p in range(2)]
    for s in range(3 if q else 6):
        out.append(("episodes", ("intersection-v0", s + seed, 3 if q else 5)))
        out.append(("episodes", ("intersection-multi-agent-v0", s + seed, 2 if q else 3)))
    return out


def predict(v):
    """Predictions along the route: two of them when the closest lane is not the first one of the route."""
    rest = list(v.route or [])
    if rest and tuple(rest[0][:2]) != tuple(v.lane_index[:2]):
        return [along(v, [v.lane_index] + rest), along(v, rest)]
    return [along(v, [v.lane_index] + rest[1:])]


def along(v, indices):
    """Poses at TIMES along these lanes, at constant speed, on the centre line."""
    net = v.road.network
    lanes = [net.get_lane((a, b, k if k is not None else 0)) for a, b, k in indices]
    s0 = net.get_lane(v.lane_index).local_coordinates(v.position)[0]
    out = []
    for t in TIMES:
        s, i = s0 + v.speed * t, 0
        while i < len(lanes) - 1 and s > lanes[i].length:
            s -= lanes[i].length
            i += 1
        out.append((lanes[i].position(s, 0), lanes[i].heading_at(s)))
    return out


def conflict(v1, v2, p1, p2):
    """True, False, or None when both answers are acceptable."""
    answers = {meet(v1, v2, a, b) for a in p1 for b in p2}
    return answers.pop() if len(answers) == 1 else None


def meet(v1, v2, p1, p2):
    close = False
    for (a, h), (b, g) in zip(p1, p2):
        d = np.hypot(*(np.asarray(a) - b))
        if d > 1.05 * max(v1.LENGTH, v2.LENGTH):
            continue
        if hw.separation(hw.rect_corners(a, .9 * v1.LENGTH, .9 * v1.WIDTH, h), hw.rect_corners(b, .9 * v2.LENGTH, .9 * v2.WIDTH, g)) < -0.02:
            return True
        if hw.separation(hw.rect_corners(a, 1.55 * v1.LENGTH, .95 * v1.WIDTH, h), hw.rect_corners(b, 1.55 * v2.LENGTH, .95 * v2.WIDTH, g)) < 0:
            close = True
    return None if close else False


def loser(v1, v2):
    """Who has to give way; None when too close to call."""
    net = v1.road.network
    a, b = net.get_lane(v1.lane_index).priority, net.get_lane(v2.lane_index).priority
    if a != b:
        return v2 if a > b else v1
    d = np.asarray(v2.position) - v1.position
    f1 = d[0] * np.cos(v1.heading) + d[1] * np.sin(v1.heading)
    f2 = -d[0] * np.cos(v2.heading) - d[1] * np.sin(v2.heading)
    return None if abs(f1 - f2) < 1e-6 else v1 if f1 > f2 else v2


def commanded(v):
    return isinstance(v, hw.ControlledVehicle) and not isinstance(v, hw.MDPVehicle)


def verdicts(vehicles):
    """For each vehicle: must it yield (True), must it not (False), or either (None)."""
    out = {id(v): False for v in vehicles}
    paths = {id(v): predict(v) for v in vehicles}
    for v1, v2 in itertools.combinations(vehicles, 2):
        c = conflict(v1, v2, paths[id(v1)], paths[id(v2)])
        if c is False:
            continue
        who = loser(v1, v2)
        for v in (v1, v2):
            if who is v and c and commanded(v):
                out[id(v)] = True
            elif (who is v or who is None) and commanded(v) and not out[id(v)]:
                out[id(v)] = None
    return out


def regulate(ctx, road, key, case, before=None):
    """One regulation instant (steps of half a second), against the verdicts on the state before."""
    vs = list(road.vehicles)
    want = verdicts(vs)
    was = {id(v): v.target_speed for v in vs}
    yielding = {id(v): before is not None and id(v) in before for v in vs}
    limit = {id(v): road.network.get_lane(v.lane_index).speed_limit for v in vs}
    road.step(0.5)
    ctx.trans()
    for i, v in enumerate(vs):
        w = want[id(v)]
        told = v.target_speed == 0
        kind = "ego" if not commanded(v) else "vehicle"
        free = limit[id(v)] if yielding[id(v)] else was[id(v)]
        if kind == "ego":
            ok = v.target_speed == was[id(v)]
            w = False
        elif w is None:
            ok = told or abs(v.target_speed - free) < 1e-9
        else:
            ok = told if w else abs(v.target_speed - free) < 1e-9
        if not ok:
            ctx.violate("%s/%s/%s" % (key, kind, {True: "must yield", False: "must not", None: "either"}[w]),
                        "vehicle %d has a target speed of %s, %s expected" % (i, v.target_speed, "0" if w else free), **case)
        ctx.outcome("%s: %s" % (kind, {True: "must yield", False: "must not yield", None: "either"}[w]))
    return {id(v) for v in vs if commanded(v) and v.target_speed == 0}


def intersection(seed=0):
    env, _ = envs.light("intersection-v0", seed, initial_vehicle_count=0, spawn_probability=0.0)
    road = env.road
    road.vehicles = []
    return env, road


MOVES = [(c, t) for c in range(4) for t in (1, 2, 3)]


def place(road, m, x, speed, cls=hw.IDMVehicle):
    """A vehicle of movement m at x metres before (x < 0) or after the entry of the crossing."""
    c, t = MOVES[m]
    net = road.network
    first, second, third = ("o%d" % c, "ir%d" % c, 0), ("ir%d" % c, "il%d" % ((c + t) % 4), 0), ("il%d" % ((c + t) % 4), "o%d" % ((c + t) % 4), 0)
    idx, s = (first, net.get_lane(first).length + x) if x < 0 else (second, x)
    if idx == second and s > net.get_lane(second).length:
        idx, s = third, s - net.get_lane(second).length
    lane = net.get_lane(idx)
    v = cls(road, lane.position(s, 0), lane.heading_at(s), speed, target_lane_index=idx, target_speed=9.0)
    v.plan_route_to("o%d" % ((c + t) % 4))
    v.lane_index, v.lane = idx, lane
    v.route = [idx] + [l for l in (second, third) if l != idx][(0 if idx == first else 0 if idx == second else 9):]
    if idx == second:
        v.route = [second, third]
    return v


def pairs(ctx, m, part, parts, deep):
    env, road = intersection()
    xs = (-31.0, -19.7, -12.3, -6.1, -1.2, 3.3, 9.1) if not deep else (-38.0, -31.0, -25.3, -19.7, -12.3, -6.1, -1.2, 3.3, 9.1)
    speeds = (0.0, 6.3, 10.2) if not deep else (0.0, 3.7, 7.1, 10.2)
    n = 0
    for x1, s1 in itertools.product(xs, speeds):
        for m2, x2, s2 in itertools.product(range(12), xs, speeds):
            n += 1
            if n % parts != part:
                continue
            kinds = ((hw.IDMVehicle, hw.IDMVehicle), (hw.IDMVehicle, hw.LinearVehicle), (hw.IDMVehicle, hw.MDPVehicle), (hw.MDPVehicle, hw.IDMVehicle))[(n // parts) % 4]
            a, b = place(road, m, x1, s1, kinds[0]), place(road, m2, x2, s2, kinds[1])
            road.vehicles = [a, b] if n % 3 else [b, a]
            case = dict(first=(MOVES[m], x1, s1, kinds[0].__name__), second=(MOVES[m2], x2, s2, kinds[1].__name__), swapped=n % 3 == 0)
            regulate(ctx, road, "pair", case)
            ctx.state((m, x1, s1, m2, x2, s2))
    ctx.sample(case)


def triples(ctx, part):
    env, road = intersection()
    menu = [(0, -15.0, 8.0), (1, -14.0, 8.5), (2, -20.0, 9.0), (3, -13.0, 8.0), (4, -16.5, 9.0), (5, -8.0, 5.0), (6, -18.0, 9.5), (7, -11.0, 7.0), (8, -2.0, 6.0), (9, -16.0, 8.0),
            (10, 2.0, 6.0), (11, -21.0, 9.9), (1, -21.0, 10.0), (4, -9.0, 0.0)]
    for k, combo in enumerate(itertools.permutations(range(len(menu)), 3)):
        if k % 4 != part:
            continue
        vs = [place(road, *menu[c], cls=hw.MDPVehicle if (k // 4) % 5 == i else hw.IDMVehicle) for i, c in enumerate(combo)]
        road.vehicles = vs
        case = dict(vehicles=[menu[c] for c in combo], ego=(k // 4) % 5)
        regulate(ctx, road, "triple", case)
        ctx.state(combo)
    ctx.sample(case)


def crossing(ctx, n):
    """Straight roads crossing at the origin, with every combination of priorities; vehicles at several distances."""
    for prio in itertools.product(range(3), repeat=n):
        net = hw.RoadNetwork()
        dirs = [np.array([np.cos(a), np.sin(a)]) for a in (0.0, 1.4, 2.9)[:n]]
        for k, d in enumerate(dirs):
            net.add_lane("a%d" % k, "b%d" % k, hw.StraightLane(-60 * d, 60 * d, priority=prio[k], speed_limit=10 + k))
        road = RegulatedRoad(network=net, np_random=np.random.RandomState(0))
        for dist in itertools.product((-22.0, -12.0, -4.0, 7.0), repeat=n):
            for speeds, turn in itertools.product(itertools.product((0.0, 9.0), repeat=n), ((0,) * n, (0.7, -0.7, 0.0)[:n], (-0.9, 0.4, 0.7)[:n]) if len(set(prio)) < n else ((0,) * n,)):
                vs = []
                for k in range(n):
                    lane = net.get_lane(("a%d" % k, "b%d" % k, 0))
                    vs.append(hw.IDMVehicle(road, lane.position(60 + dist[k] + 0.3 * k, 0), lane.heading_at(0) + turn[k], speeds[k], target_speed=7.0))
                road.vehicles = vs
                case = dict(priorities=prio, distances=dist, speeds=speeds, headings=turn)
                told = regulate(ctx, road, "crossing", case)
                ctx.state((prio, dist, speeds, turn))
    ctx.sample(case)


def recovery(ctx, part):
    """A yielding vehicle gets its speed back when, and only when, its conflict is over."""
    env, road = intersection()
    starts = [((9, -14.0, 8.0), (1, -15.0, 8.0)), ((1, -14.0, 8.0), (4, -15.0, 8.0)), ((0, -25.0, 10.0), (0, -15.0, 4.0)), ((7, -14.0, 8.0), (3, -13.5, 8.0))]
    first, second = starts[part]
    for m, x, s in itertools.product(range(12), (-40.0, -14.0, -7.0, 2.0, 15.0, 40.0), (0.0, 8.0)):
        for own_x, own_s in ((first[1], first[2]), (-9.0, 3.0), (-5.5, 0.0), (3.0, 2.0)):
            a, b = place(road, *first), place(road, *second)
            road.vehicles = [a, b]
            case = dict(first=first, second=second, then=(m, x, s), own=(own_x, own_s))
            told = regulate(ctx, road, "recovery", case)
            # the next instant: the same two vehicles, moved by the explorer
            for v, to in ((a, (first[0], own_x, own_s)), (b, (m, x, s))):
                new = place(road, *to)
                v.position, v.heading, v.speed, v.lane_index, v.lane, v.route, v.target_lane_index = (
                    new.position, new.heading, new.speed, new.lane_index, new.lane, new.route, new.target_lane_index)
            told = regulate(ctx, road, "recovery", case, before=told)
            b.position = np.array([500.0, 500.0])
            b.speed = 0.0
            b.on_state_update() if hasattr(b, "on_state_update") else None
            b.lane_index = road.network.get_closest_lane_index(b.position, b.heading)
            b.lane, b.route = road.network.get_lane(b.lane_index), None
            regulate(ctx, road, "recovery/end", case, before=told)
            ctx.state((part, m, x, s, own_x, own_s))
            ctx.trace()
    ctx.sample(case)


def limits(ctx, part):
    """Lanes with limits of their own: a vehicle that stops yielding gets the limit of the lane it is on, whatever lane it aims at."""
    for prio, other in itertools.product(((0, 1), (1, 2)), (6.0, 12.5)):
        net = hw.RoadNetwork()
        for k in range(3):
            net.add_lane("a", "b", hw.StraightLane(np.array([-60.0, 4.0 * k]), np.array([60.0, 4.0 * k]), priority=prio[0], speed_limit=9.0 + 4 * k))
        for k in range(3):
            net.add_lane("b", "e", hw.StraightLane(np.array([60.0, 4.0 * k]), np.array([160.0, 4.0 * k]), priority=prio[0], speed_limit=24.0 + 4 * k))
        net.add_lane("c", "d", hw.StraightLane(np.array([4.0, -60.0]), np.array([4.0, 60.0]), priority=prio[1], speed_limit=other))
        road = RegulatedRoad(network=net, np_random=np.random.RandomState(0))
        for k, (lane, aim, x, cls, target) in enumerate(itertools.product(range(3), range(3), (-13.0, -8.0, -4.5), (hw.IDMVehicle, hw.LinearVehicle, hw.ControlledVehicle), (5.0, 30.0))):
            if k % 2 != part:
                continue
            l, cross = net.get_lane(("a", "b", lane)), net.get_lane(("c", "d", 0))
            a = cls(road, l.position(60 + x, 0.0), 0.0, 8.0, target_speed=target)
            a.target_lane_index = ("a", "b", aim)
            b = hw.IDMVehicle(road, cross.position(60 + 4 * lane - 8.0, 0.0), np.pi / 2, 8.0, target_speed=7.0)
            road.vehicles = [a, b] if k % 4 < 2 else [b, a]
            case = dict(lane=lane, aim=aim, position=x, cls=cls.__name__, priorities=prio)
            told = regulate(ctx, road, "limits", case)
            a.position, a.speed = l.position(60 + x, 0.0), 0.0
            b.position = cross.position(110.0, 0.0)
            regulate(ctx, road, "limits/end", case, before=told)
            ctx.outcome("limits %s %s" % (id(a) in told, lane == aim))
            ctx.state((prio, other, lane, aim, x, cls.__name__, target))
    ctx.sample(case)


class Monitor:
    """Checks every frame of every regulated road: who is told, who is released."""

    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.must, self.free = {}, {}
        self.frames, self.last = {}, {}

    def __enter__(self):
        self.real = RegulatedRoad.step
        me = self

        def step(road, dt):
            me.before(road)
            out = me.real(road, dt)
            me.after(road, dt)
            return out
        RegulatedRoad.step = step
        return self

    def __exit__(self, *a):
        RegulatedRoad.step = self.real

    def before(self, road):
        self.vs = list(road.vehicles)
        self.want = verdicts(self.vs)
        self.was = [v.target_speed for v in self.vs]

    def after(self, road, dt):
        ctx, case = self.ctx, self.case
        ctx.trans()
        window = int(0.5 / dt) + 1
        now = self.frames[road] = self.frames.get(road, 0) + 1
        if any(commanded(v) and v.target_speed != old for v, old in zip(self.vs, self.was)):
            ctx.check((now - self.last.get(road, now)) % (window - 1) == 0, "episode/instants",
                      "vehicles are told to stop or to go %d frames after the previous instant" % (now - self.last.get(road, now)), **case)
            self.last[road] = now
        for v, old in zip(self.vs, self.was):
            w = self.want[id(v)]
            new = v.target_speed
            if not commanded(v):
                ctx.check(new == old, "episode/ego", "the target speed of an ego-vehicle went from %s to %s" % (old, new), **case)
                continue
            if new == 0 and old != 0:
                ctx.check(w is not False, "episode/alarm", "a vehicle was told to stop without any conflict", **case)
            self.must[v] = self.must.get(v, 0) + 1 if w is True else 0
            self.free[v] = self.free.get(v, 0) + 1 if w is False else 0
            if self.must[v] >= window:
                ctx.check(new == 0, "episode/missed", "a conflict lasts for half a second and the vehicle was not told to stop", **case)
            if self.free[v] >= window and new == 0:
                ctx.violate("episode/stuck", "a vehicle is still told to stop half a second after its conflict", **case)
            ctx.outcome("episode %s" % w)


def episodes(ctx, name, seed, depth):
    for sim in (15, 10):
        env, _ = envs.light(name, seed, initial_vehicle_count=10, simulation_frequency=sim)
        acts = envs.actions(env)
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(seed)
            env.reset()
            case = dict(env=name, seed=seed, sequence=seq, simulation_frequency=sim)
            with Monitor(ctx, case):
                for a in seq:
                    if np.any(env.step(acts[a])[2]):
                        break
            ctx.state((name, seed, sim, seq))
            ctx.trace()
    ctx.sample(case)
