"""C15: routes are shortest paths and vehicles follow them."""
import itertools

import numpy as np

from vk import hw
from vk.choice import explore
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.controller import ControlledVehicle

PROP = "C15"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 4096 directed graphs on 4 nodes (and all on 2 and 3): every origin and destination, including unknown ones; every current "
             "road and destination planned and then followed to the end; next lane: 1-4 lanes x up to 3 outgoing roads of 1-4 lanes "
             "x all routes of a menu x every answer of the random source; all walks of up to 7 roads (which may repeat roads) on all 3-node graphs followed as routes; connected roads: all 3-node graphs x all lane pairs x depths 0-3",
    "thorough": "plus all 2^20 directed graphs on 5 nodes for path search"}
ASSUMPTIONS = ["nodes are strings, lanes have distinct positions"]

NODES = "abcde"
XY = {"a": (0.0, 0.0), "b": (103.0, 7.0), "c": (91.0, 110.0), "d": (-13.0, 85.0), "e": (40.0, 37.0)}


def tasks(tier, seed):
    out = [("paths", (2, 0, 4)), ("paths", (3, 0, 64))]
    out += [("paths", (4, k * 256, (k + 1) * 256)) for k in range(16)]
    out += [("plan", (3, 0, 64))] + [("plan", (4, k * 128, (k + 1) * 128)) for k in range(32)]
    out += [("next_lane", (n,)) for n in (1, 2, 3, 4)]
    out += [("connected", (k, 8)) for k in range(8)]
    out += [("along", (i,)) for i in range(6)]
    out += [("walks", (k, 7)) for k in range(8)]
    out += [("sides", ()), ("env_routes", ())]
    if tier != "quick":
        out += [("paths", (5, k * 16384, (k + 1) * 16384)) for k in range(64)]
    return out


def edges_of(n):
    return [(u, v) for u in NODES[:n] for v in NODES[:n] if u != v]


def distances(n, edges):
    d = {(u, v): (0 if u == v else 99) for u in NODES[:n] for v in NODES[:n]}
    for e in edges:
        d[e] = 1
    for k in NODES[:n]:
        for i in NODES[:n]:
            for j in NODES[:n]:
                d[i, j] = min(d[i, j], d[i, k] + d[k, j])
    return d


def simple_paths(adj, u, goal, seen=()):
    out = []
    for v in adj.get(u, ()):
        if v in seen or v == u:
            continue
        if v == goal:
            out.append([u, v])
        else:
            out += [[u] + p for p in simple_paths(adj, v, goal, seen + (u,)) if p]
    return out


class Dummy:
    """Path search does not look at the geometry."""


def paths(ctx, n, lo, hi):
    es = edges_of(n)
    for mask in range(lo, hi):
        edges = [e for i, e in enumerate(es) if mask >> i & 1]
        if not edges:
            continue
        net = RoadNetwork()
        for u, v in reversed(edges) if mask % 2 else edges:
            net.add_lane(u, v, Dummy())
        d = distances(n, edges)
        adj = {}
        for u, v in edges:
            adj.setdefault(u, []).append(v)
        for u in NODES[:n]:
            for g in NODES[:n] + "z":
                if u not in adj:
                    continue      # no road leaves this node
                p = net.shortest_path(u, g)
                case = dict(edges=edges, start=u, goal=g)
                dist = d.get((u, g), 99)
                if u == g or dist >= 99:
                    ctx.check(list(p) == [] or list(p) == [u] and u == g, "path/unreachable", "path %s" % p, **case)
                else:
                    ok = len(p) == dist + 1 and p[0] == u and p[-1] == g and all((a, b) in edges for a, b in zip(p, p[1:]))
                    ctx.check(ok, "path/shortest", "path %s, the distance is %d" % (p, dist), **case)
                if n <= 3 or (n == 4 and mask % 4 == 0):
                    ps = [list(q) for q in net.bfs_paths(u, g) if q]
                    want = simple_paths(adj, u, g)
                    ctx.check(sorted(ps) == sorted(want), "path/all", "routes %s, expected %s" % (ps, want), **case)
                    ctx.check([len(q) for q in ps] == sorted(len(q) for q in ps), "path/order", "routes are not by length", **case)
                ctx.state((n, mask, u, g))
                ctx.trans()
                ctx.outcome("length %s" % (dist if dist < 99 else "none"))
    ctx.trace()
    ctx.sample(dict(edges=edges))


def geometric(n, edges, lanes=1):
    net = RoadNetwork()
    for u, v in edges:
        a, b = np.array(XY[u]), np.array(XY[v])
        t = (b - a) / np.hypot(*(b - a))
        nrm = np.array([-t[1], t[0]])
        for k in range(lanes):
            net.add_lane(u, v, hw.StraightLane(a + nrm * (2 + 4 * k), b + nrm * (2 + 4 * k)))
    return net


def plan(ctx, n, lo, hi):
    """Plan from every lane to every node, then drive the route to its end (at the ends of the lanes)."""
    es = edges_of(n)
    for mask in range(lo, hi):
        edges = [e for i, e in enumerate(es) if mask >> i & 1]
        if not edges:
            continue
        lanes = 1 + mask % 2
        net = geometric(n, edges, lanes)
        d = distances(n, edges)
        succ = {u: [b for a, b in edges if a == u] for u in NODES[:n]}
        road = hw.make_road(net, seed=mask)
        for (u, v) in edges:
            lane_id = (mask // 2) % lanes
            lane = net.get_lane((u, v, lane_id))
            for dest in NODES[:n] + "z":
                car = ControlledVehicle(road, lane.position(0.23 * lane.length, 0), lane.heading_at(0), 8.0)
                if tuple(car.lane_index) != (u, v, lane_id):
                    ctx.outcome("another lane is closer")
                    break
                car.plan_route_to(dest)
                case = dict(edges=edges, lanes=lanes, at=(u, v, lane_id), destination=dest)
                route = [tuple(r) for r in car.route]
                dist = d.get((v, dest), 99)
                hops = dist if dist < 99 else 0
                ok = route[:1] == [(u, v, lane_id)] and len(route) == 1 + hops and \
                    all(r[:2] in edges for r in route) and all(a[1] == b[0] for a, b in zip(route, route[1:])) and \
                    (hops == 0 or route[-1][1] == dest)
                ctx.check(ok, "plan", "route %s, the destination is %d roads away" % (route, dist), **case)
                ctx.state((n, mask, u, v, dest))
                ctx.trans()
                # follow it
                cur = (u, v, lane_id)
                for k in range(hops + 2):
                    l = net.get_lane(cur)
                    car.position = l.position(0.5 * l.length, 0)
                    car.heading = l.heading_at(0)
                    car.on_state_update()
                    car.act()
                    ctx.check(tuple(car.target_lane_index) == cur, "follow/middle", "in the middle of %s the target became %s"
                              % (cur, car.target_lane_index), **case)
                    car.position = l.position(l.length - 1.0, 0)
                    car.on_state_update()
                    car.act()
                    got = tuple(car.target_lane_index)
                    if k < hops:
                        want = [route[k + 1][:2]]
                    else:
                        want = [(cur[1], x) for x in succ[cur[1]]] or [cur[:2]]
                    ok = got[:2] in want and got[2] == cur[2]
                    ctx.check(ok, "follow/route" if k < hops else "follow/free",
                              "after %s the target lane is %s, expected one of %s in lane %d" % (cur, got, want, cur[2]), **case)
                    ctx.trans()
                    cur = got
                    if not succ[cur[1]] and k >= hops:
                        break
                ctx.trace()
                ctx.outcome("hops %d" % hops)
    ctx.sample(case)


def next_lane(ctx, n1):
    """Every number of lanes before and after, every route of the menu, every answer of the random source."""
    outs = [()] + [c for k in (1, 2, 3) for c in itertools.product((1, 2, 3, 4), repeat=k)]
    for out_lanes in outs:
        net = RoadNetwork()
        for k in range(n1):
            net.add_lane("s", "t", hw.StraightLane([0, 4.0 * k], [50, 4.0 * k]))
        names = []
        for i, m in enumerate(out_lanes):
            names.append("o%d" % i)
            for k in range(m):
                net.add_lane("t", "o%d" % i, hw.StraightLane([50, 1 + 4.0 * k + 20 * i], [90, 1 + 4.0 * k + 20 * i]))
        net.add_lane("o0", "far", hw.StraightLane([90, 1], [130, 1]))
        for _id in range(n1):
            pos_menu = [np.array([48.0, y]) for y in (-3.1, 4 * _id + 0.3, 6.4, 13.2)]
            for ip, pos in enumerate(pos_menu):
                routes = [("none", None), ("empty", []), ("finished", [("s", "t", _id)]), ("stray", [("x", "y", 0)])]
                for nm in names:
                    routes += [("next", [("t", nm, None)]), ("planned", [("s", "t", _id), ("t", nm, None)]),
                               ("long", [("s", "t", None), ("t", nm, 0), (nm, "far", None)])]
                for kind, route in routes:
                    got = set()

                    def run(ch):
                        r = None if route is None else list(route)
                        res = net.next_lane(("s", "t", _id), route=r, position=pos, np_random=ch)
                        return tuple(int(x) if isinstance(x, (int, np.integer)) else x for x in res), r
                    for script, (res, left) in explore(run):
                        got.add(res)
                        ctx.trans()
                        ctx.state((n1, out_lanes, _id, ip, kind, str(route), script))
                        if kind in ("planned", "long"):
                            ctx.check([tuple(x)[:2] for x in left] == [tuple(x)[:2] for x in route[1:]], "next/route-left",
                                      "route left: %s" % left, lanes=n1, out=out_lanes, lane=_id, route=route)

                    def lane_on(nm):
                        m = out_lanes[int(nm[1:])]
                        if m == n1:
                            return ("t", nm, _id)
                        ds = [net.get_lane(("t", nm, k)).distance(pos) for k in range(m)]
                        return ("t", nm, int(np.argmin(ds)))
                    if not names:
                        want = {("s", "t", _id)}
                    elif kind in ("next", "planned", "long"):
                        nxt = [r for r in route if r[0] == "t"][0][1]
                        want = {lane_on(nxt)}
                    else:
                        want = {lane_on(nm) for nm in names}
                    ctx.check(got == want, "next/%s" % kind, "next lanes %s, expected %s" % (sorted(got), sorted(want)),
                              lanes=n1, out=out_lanes, lane=_id, route=route, position=pos)
                    ctx.outcome("%s: %d answers" % (kind, len(got)))
                    ctx.trace()
    ctx.sample(dict(lanes=n1, outgoing=len(outs)))


def walks(ctx, part, length):
    """Planned routes which may pass several times over the same road: every walk on every graph of 3 nodes."""
    es = edges_of(3)
    for mask in range(1, 64):
        if mask % 8 != part:
            continue
        edges = [e for i, e in enumerate(es) if mask >> i & 1]
        net = geometric(3, edges, 2)
        road = hw.make_road(net, seed=mask)
        all_walks = [[e] for e in edges]
        for _ in range(length - 1):
            all_walks += [w + [e] for w in all_walks if len(w) == len(all_walks[-1]) for e in edges if e[0] == w[-1][1]]
        for w in all_walks:
            if len(w) < 2:
                continue
            route = [e + (None,) for e in w]
            cur, seen = w[0] + (mask % 2,), []
            for k in range(len(w) - 1):
                cur = net.next_lane(cur, route=route, position=net.get_lane(cur).position(0, 0), np_random=road.np_random)
                seen.append(tuple(cur))
                ctx.trans()
                if tuple(cur)[:2] != w[k + 1]:
                    break
            case = dict(edges=edges, route=w)
            ctx.check(seen == [e + (mask % 2,) for e in w[1:]], "walk/next-lane", "the lanes %s follow" % seen, **case)
            ctx.state((mask, tuple(w)))
            if len(w) == length - 1:
                # the same with a vehicle
                lane = net.get_lane(w[0] + (0,))
                car = ControlledVehicle(road, lane.position(0.3 * lane.length, 0), lane.heading_at(0), 8.0)
                if tuple(car.lane_index) != w[0] + (0,):
                    continue
                car.route = [e + (None,) for e in w]
                for k, e in enumerate(w):
                    l = net.get_lane(tuple(car.target_lane_index))
                    car.position, car.heading = l.position(0.5 * l.length, 0), l.heading_at(0)
                    car.on_state_update()
                    car.act()
                    ok = tuple(car.target_lane_index)[:2] == e
                    ctx.check(ok, "walk/vehicle", "road %d of the route: the vehicle is on %s" % (k, car.target_lane_index), **case)
                    if not ok:
                        break
                    car.position = l.position(l.length - 0.5, 0)
                    car.on_state_update()
                    car.act()
                    ctx.trans()
                ctx.trace()
            ctx.outcome("walk of %d roads" % len(w))
    ctx.sample(case)


def connected_ref(succ, l1, l2, route, same_lane, depth):
    """All the lanes considered from l1: along the route while it continues, else every successor, up to depth roads ahead."""
    todo = [(l1, tuple(route or ()), depth)]
    while todo:
        cur, r, k = todo.pop()
        for a, b in ((l2, cur),):
            if (a[:2] == b[:2] or a[1] == b[0]) and (not same_lane or a[2] == b[2]):
                return True
        if k <= 0:
            continue
        while r and r[0][:2] == cur[:2]:
            r = r[1:]
        if r and r[0][0] == cur[1]:
            todo.append((r[0], r[1:], k - 1))
        else:
            todo += [((cur[1], x, cur[2]), r, k - 1) for x in succ.get(cur[1], ())]
    return False


def connected(ctx, part, parts):
    es = edges_of(3)
    for mask in range(1, 64):
        if mask % parts != part:
            continue
        edges = [e for i, e in enumerate(es) if mask >> i & 1]
        net = RoadNetwork()
        succ = {}
        for u, v in edges:
            succ.setdefault(u, []).append(v)
            for _ in range(2):
                net.add_lane(u, v, Dummy())
        routes = [None] + [[e] for e in edges] + [[e, f] for e in edges for f in edges if e[1] == f[0]]
        for e1, e2 in itertools.product(edges, edges):
            for i1, i2 in ((0, 0), (0, 1), (1, 1)):
                for route in routes:
                    rt = None if route is None else [r + (i1,) for r in route]
                    for same in (False, True):
                        for depth in range(4):
                            l1, l2 = e1 + (i1,), e2 + (i2,)
                            got = bool(net.is_connected_road(l1, l2, route=rt, same_lane=same, depth=depth))
                            want = connected_ref(succ, l1, l2, rt, same, depth)
                            ctx.check(got == want, "connected", "connected=%s" % got, edges=edges, lane1=l1, lane2=l2, route=rt,
                                      same_lane=same, depth=depth)
                            ctx.state((mask, l1, l2, str(rt), same, depth))
                            ctx.trans()
                            ctx.outcome(want)
        ctx.trace()
    ctx.sample(dict(edges=edges))


def along(ctx, variant):
    """Positions predicted along a route walk through its lanes in order."""
    net = RoadNetwork()
    net.add_lane("a", "b", hw.StraightLane([0, 0], [40, 0]))
    net.add_lane("b", "c", hw.CircularLane([40, 20], 20, -np.pi / 2, 0.0, True))
    net.add_lane("c", "d", hw.SineLane([60, 20], [60, 80], 2, 0.2, 0.3))
    net.add_lane("d", "e", hw.StraightLane([60, 80], [62, 86]))
    net.add_lane("e", "f", hw.StraightLane([62, 86], [-10, 86]))
    names = "abcdef"
    road = hw.make_road(net)
    for i in range(5):
        for j in range(i + 1, 6):
            ids = [(names[k], names[k + 1], None if (variant + k) % 2 else 0) for k in range(i, j)]
            lanes = [net.get_lane(x) for x in ids]
            total = sum(l.length for l in lanes)
            for s in np.linspace(-3, total + 8, 60) + 0.0113 * (variant + 1):
                for lat in (0.0, 1.5, -2.0):
                    before = list(ids)
                    p, h = net.position_heading_along_route(ids, s, lat)
                    k, rest = 0, s
                    while k < len(lanes) - 1 and rest > lanes[k].length:
                        rest -= lanes[k].length
                        k += 1
                    ok = np.abs(p - lanes[k].position(rest, lat)).max() < 1e-9 and abs(hw.wrap(h - lanes[k].heading_at(rest))) < 1e-9
                    ctx.check(ok, "along", "at %.2f along %s: %s %s" % (s, ids, p, h))
                    ctx.check(ids == before, "along/route", "the route was modified", route=before)
                    ctx.state((variant, i, j, s, lat))
                    ctx.trans()
            # a vehicle on the first lane predicts along its route at constant speed
            for s0 in (2.0, lanes[0].length - 4):
                for speed in (0.0, 6.0, 19.0):
                    car = ControlledVehicle(road, lanes[0].position(s0, 0.4), lanes[0].heading_at(s0), speed)
                    if tuple(car.lane_index)[:2] != ids[0][:2]:
                        continue
                    car.route = list(ids) if variant % 3 else None
                    times = np.arange(0.2, 6, 0.7)
                    ps, hs = car.predict_trajectory_constant_speed(times)
                    ctx.check(len(ps) == len(times) == len(hs), "predict/count", "%d predictions" % len(ps))
                    for t, p, h in zip(times, ps, hs):
                        ls = lanes if car.route else lanes[:1]
                        k, rest = 0, s0 + speed * t
                        while k < len(ls) - 1 and rest > ls[k].length:
                            rest -= ls[k].length
                            k += 1
                        ok = np.abs(p - ls[k].position(rest, 0)).max() < 1e-6 and abs(hw.wrap(h - ls[k].heading_at(rest))) < 1e-6
                        ctx.check(ok, "predict", "predicted %s at %.1f s, expected %s" % (p, t, ls[k].position(rest, 0)),
                                  route=ids, s0=s0, speed=speed)
                        ctx.trans()
                    ctx.trace()


def sides(ctx):
    for n in range(1, 6):
        net = hw.straight(n, 50)
        net.add_lane("1", "0", hw.StraightLane([50, -4], [0, -4]))
        for i in range(n):
            idx = ("0", "1", i)
            got = sorted(tuple(x) for x in net.side_lanes(idx))
            ctx.check(got == [("0", "1", k) for k in (i - 1, i + 1) if 0 <= k < n], "side_lanes", "%s" % got, lanes=n, lane=i)
            got = sorted(tuple(x) for x in net.all_side_lanes(idx))
            ctx.check(got == [("0", "1", k) for k in range(n)], "all_side_lanes", "%s" % got, lanes=n, lane=i)
            ctx.state((n, i))
            ctx.trans()
    idx = [(u, v, i) for u in "ab" for v in "bc" for i in (0, 1)]
    for a, b in itertools.product(idx, idx):
        for same in (False, True):
            ctx.check(bool(RoadNetwork.is_same_road(a, b, same)) == (a[:2] == b[:2] and (not same or a[2] == b[2])), "same_road", "", a=a, b=b)
            ctx.check(bool(RoadNetwork.is_leading_to_road(a, b, same)) == (a[1] == b[0] and (not same or a[2] == b[2])),
                      "leading", "", a=a, b=b)
            ctx.state((a, b, same))
            ctx.trans()
    ctx.trace()


def env_routes(ctx):
    """The same on the networks of the environments."""
    for name, net in hw.env_networks().items():
        nodes = sorted(set(net.graph) | {v for tos in net.graph.values() for v in tos})
        edges = {(u, v) for u, tos in net.graph.items() for v in tos}
        dist = {u: {u: 0} for u in nodes}
        for u in nodes:
            todo = [u]
            while todo:
                x = todo.pop(0)
                for y in net.graph.get(x, {}):
                    if y not in dist[u]:
                        dist[u][y] = dist[u][x] + 1
                        todo.append(y)
        for u in net.graph:
            for g in nodes:
                p = net.shortest_path(u, g)
                want = dist[u].get(g)
                if u == g or want is None:
                    ctx.check(list(p) in ([], [u]), "env/unreachable", "%s" % p, net=name, start=u, goal=g)
                else:
                    ctx.check(len(p) == want + 1 and p[0] == u and p[-1] == g and all(e in edges for e in zip(p, p[1:])),
                              "env/shortest", "%s, distance %s" % (p, want), net=name, start=u, goal=g)
                ctx.state((name, u, g))
                ctx.trans()
        ctx.trace()
