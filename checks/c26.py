"""C26: every environment is built on the road network that it documents."""
import itertools

import numpy as np

from vk import choice, envs, hw, ref
from highway_env.road.lane import LineType
from highway_env.road.road import RoadNetwork

PROP = "C26"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "the road graphs of the 12 environments (highway: 1 to 8 lanes) after 3 resets of 2 seeds: every road, every pair of neighbouring lanes, every junction, every pair of entry and exit; a "
             "vehicle driven from every lane along every sequence of successors over 220 m, and from every entry to every exit, 2 speeds; straight networks of 1 to 6 lanes x 3 lengths x 7 angles",
    "thorough": "the same with drives of 400 m and 4 speeds"}
ASSUMPTIONS = ["entries and exits of the ring of the roundabout join within 8 m and 50 degrees, as built: its access lanes are sine-shaped approximations",
               "the two driving directions of two-way-v0 and of the approaches of an intersection meet at the end of the world, where vehicles are not followed"]

DRIVING = ["merge-v0", "two-way-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0"]
CONT = (LineType.CONTINUOUS, LineType.CONTINUOUS_LINE)


def tasks(tier, seed):
    q = tier == "quick"
    out = [("highway", ()), ("straight_networks", ()), ("merge", ()), ("two_way", ()), ("roundabout", ())]
    out += [("intersection", (n,)) for n in DRIVING if n.startswith("inter")] + [("intersection", ("intersection-multi-agent-v1",))]
    out += [("parking", (n,)) for n in ("parking-v0", "parking-ActionRepeat-v0", "summon-v0", "summon-ActionRepeat-v0")]
    for n in ("merge-v0", "two-way-v0", "roundabout-v0", "intersection-v0"):
        for k in range(4):
            out.append(("wander", (n, k, q)))
            out.append(("travel", (n, k, q)))
    return out


def build(name, **config):
    """The environment after each of several resets: the road does not depend on them."""
    extra = dict(initial_vehicle_count=1) if name.startswith("intersection") else {}
    env = envs.raw(name, dict(extra, **config) if name in ("intersection-v0", "intersection-multi-agent-v0") else None)
    env.unwrapped.configure(dict(extra, **config))
    for seed in (0, 5):
        env.seed(seed)
        for _ in range(3 if seed else 1):
            env.reset()
            yield env.unwrapped


def roads(net):
    for a, tos in net.graph.items():
        for b, lanes in tos.items():
            yield a, b, lanes


def samples(lane, n=9):
    return [(float(x * lane.length), np.array(lane.position(x * lane.length, 0), dtype=float), lane.heading_at(x * lane.length)) for x in np.linspace(0, 1, n)]


def shape(lane, n=7):
    """The centre line, the headings and the width of a lane."""
    return np.array([[p[0], p[1], np.cos(h), np.sin(h), lane.width_at(s)] for s, p, h in samples(lane, n)])


def parallel(ctx, name, net, width=4.0, skip=()):
    """Lanes of a road are parallel, a width apart, numbered from left to right, with continuous outer and striped inner markings."""
    for a, b, lanes in roads(net):
        if (a, b) in skip:
            continue
        for i, lane in enumerate(lanes):
            for s, p, h in samples(lane):
                ctx.check(abs(lane.width_at(s) - width) < 1e-6, "%s/width" % name, "lane %s is %s m wide" % ((a, b, i), lane.width_at(s)))
            ctx.state((name, "lane", a, b, i))
        for i in range(len(lanes) - 1):
            for s, p, h in samples(lanes[i + 1]):
                s0, r0 = lanes[i].local_coordinates(p)
                ctx.check(abs(r0 - width) < 1e-3 and -1e-3 <= s0 <= lanes[i].length + 1e-3, "%s/neighbours" % name,
                          "lane %s is %s m to the right of its neighbour at %s" % ((a, b, i + 1), r0, s))
                ctx.check(abs(hw.wrap(h - lanes[i].heading_at(s0))) < 1e-3, "%s/parallel" % name, "lane %s is not parallel to its neighbour" % ((a, b, i + 1),))
                ctx.trans()
            marks = (lanes[i].line_types[1], lanes[i + 1].line_types[0])
            ctx.check(LineType.STRIPED in marks and not set(marks) & set(CONT), "%s/markings/inner" % name, "markings %s between lanes %d and %d of %s" % (marks, i, i + 1, (a, b)))
        ctx.check(lanes[-1].line_types[1] in CONT, "%s/markings/right" % name, "marking %s on the right of %s" % (lanes[-1].line_types[1], (a, b)))


def joined(ctx, name, net, tol=1e-3, angle=1e-3, skip=()):
    """Where a lane leads to another one, it joins it."""
    for a, b, lanes in roads(net):
        for c in net.graph.get(b, {}):
            if (a, b, c) in skip:
                continue
            for i, lane in enumerate(lanes):
                if (a, b, i) in skip:
                    continue
                end = lane.position(lane.length, 0)
                nxt = net.next_lane((a, b, i), [(a, b, i), (b, c, None)], np.array(end))
                other = net.get_lane(nxt)
                d, h = np.linalg.norm(end - other.position(0, 0)), abs(hw.wrap(lane.heading_at(lane.length) - other.heading_at(0)))
                ctx.check(d <= tol and h <= angle, "%s/joined" % name, "lane %s ends %.3f m and %.3f rad away from the start of %s" % ((a, b, i), d, h, nxt))
                ctx.trans()
                ctx.state((name, "junction", a, b, i, c))


def reachable(net, node):
    seen, todo = set(), [node]
    while todo:
        for c in net.graph.get(todo.pop(), {}):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def unchanged(ctx, name, key, net):
    """The same lanes after every reset."""
    now = {(a, b, i): (shape(lane), lane.priority, lane.speed_limit, lane.forbidden, tuple(lane.line_types)) for a, b, lanes in roads(net) for i, lane in enumerate(lanes)}
    if key:
        ctx.check(set(now) == set(key), name + "/reset/lanes", "the lanes change with resets: %s" % (set(now) ^ set(key)))
        for k in now:
            ctx.check(np.allclose(now[k][0], key[k][0]) and now[k][1:] == key[k][1:], name + "/reset/shape", "lane %s changes with resets" % (k,))
    return now


def straight(ctx, name, net, count, length, heading):
    (a, b, lanes), = list(roads(net))
    ctx.check(len(lanes) == count, name + "/count", "%d lanes, expected %d" % (len(lanes), count))
    parallel(ctx, name, net)
    ctx.check(lanes[0].line_types[0] in CONT, name + "/markings/left", "marking %s on the left" % lanes[0].line_types[0])
    for i, lane in enumerate(lanes):
        ctx.check(abs(lane.length - length) < 1e-6, name + "/length", "lane %d is %s m long" % (i, lane.length))
        for s, p, h in samples(lane):
            ctx.check(min(abs(hw.wrap(h - heading)), abs(hw.wrap(h + heading))) < 1e-9, name + "/heading", "lane %d has heading %s" % (i, h))
        ctx.check(not lane.forbidden, name + "/forbidden", "lane %d is forbidden" % i)


def highway(ctx):
    for n in range(1, 9):
        key = None
        for env in build("highway-v0", lanes_count=n, vehicles_count=2):
            straight(ctx, "highway-v0", env.road.network, n, 10000, 0.0)
            key = unchanged(ctx, "highway-v0", key, env.road.network)
            ctx.trace()
        ctx.outcome("%d lanes" % n)
        ctx.state(("highway", n))
    ctx.sample(dict(lanes=n))


def straight_networks(ctx):
    for n, length, angle in itertools.product(range(1, 7), (30, 500, 10000), (0.0, 0.3, -0.7, np.pi / 2, 2.5, np.pi, -3.0)):
        net = RoadNetwork.straight_road_network(n, length, angle)
        straight(ctx, "straight", net, n, length, angle)
        ctx.state((n, length, angle))
        ctx.trace()
    ctx.outcome("straight")
    ctx.sample(dict(lanes=n, length=length, angle=angle))


def merge(ctx):
    key = None
    for env in build("merge-v0"):
        net = env.road.network
        key = unchanged(ctx, "merge-v0", key, net)
        parallel(ctx, "merge-v0", net)
        joined(ctx, "merge-v0", net, skip=[("b", "c", 2)])
        sizes = {(a, b): len(lanes) for a, b, lanes in roads(net)}
        ctx.check(sizes == {("a", "b"): 2, ("b", "c"): 3, ("c", "d"): 2, ("j", "k"): 1, ("k", "b"): 1}, "merge-v0/roads", "the roads are %s" % sizes)
        for i in range(2):
            for a, b in (("a", "b"), ("b", "c"), ("c", "d")):
                lane = net.get_lane((a, b, i))
                ctx.check(not lane.forbidden, "merge-v0/forbidden", "highway lane %s is forbidden" % ((a, b, i),))
                ctx.check(all(abs(h) < 1e-9 for _, _, h in samples(lane)), "merge-v0/straight", "highway lane %s is not straight" % ((a, b, i),))
        for index in (("j", "k", 0), ("k", "b", 0), ("b", "c", 2)):
            lane = net.get_lane(index)
            ctx.check(lane.forbidden, "merge-v0/forbidden", "the merging lane %s may be entered from the highway" % (index,))
            for s, p, h in samples(lane)[1:-1]:
                ctx.check(not lane.is_reachable_from(np.array([p[0], p[1] - 4])), "merge-v0/reachable", "the merging lane %s can be reached from the highway" % (index,))
        # the third lane may be left for the second one, and ends at an obstacle
        lane = net.get_lane(("b", "c", 2))
        second = net.get_lane(("b", "c", 1))
        for s, p, h in samples(lane)[1:-1]:
            ctx.check(second.is_reachable_from(p), "merge-v0/merging", "the highway cannot be reached from the merging lane at %s" % s)
        obstacles = [o for o in env.road.objects if isinstance(o, hw.Obstacle)]
        ctx.check(len(obstacles) == 1 and np.allclose(obstacles[0].position, lane.position(lane.length, 0)), "merge-v0/obstacle", "obstacles %s, expected one at the end of the merging lane" % obstacles)
        for entry in ("a", "j"):
            ctx.check("d" in reachable(net, entry), "merge-v0/reachable-end", "the end of the highway is not reachable from %s" % entry)
        ctx.trace()
        ctx.outcome("merge")
    ctx.sample(sorted(map(str, key)))


def two_way(ctx):
    key = None
    for env in build("two-way-v0"):
        net = env.road.network
        key = unchanged(ctx, "two-way-v0", key, net)
        parallel(ctx, "two-way-v0", net, skip=[("b", "a")])
        sizes = {(a, b): len(lanes) for a, b, lanes in roads(net)}
        ctx.check(sizes == {("a", "b"): 2, ("b", "a"): 1}, "two-way-v0/roads", "the roads are %s" % sizes)
        left, back = net.get_lane(("a", "b", 0)), net.get_lane(("b", "a", 0))
        ctx.check(left.line_types[0] in CONT, "two-way-v0/markings/left", "marking %s on the left" % left.line_types[0])
        ctx.check(abs(left.length - back.length) < 1e-6, "two-way-v0/length", "the directions are %s and %s m long" % (left.length, back.length))
        for s, p, h in samples(left):
            q, hq = back.position(back.length - s, 0), back.heading_at(back.length - s)
            ctx.check(np.allclose(p, q) and abs(abs(hw.wrap(h - hq)) - np.pi) < 1e-6, "two-way-v0/opposite", "the opposite traffic drives at %s, %s, the left lane at %s, %s" % (q, hq, p, h))
            ctx.trans()
        for lane in (left, net.get_lane(("a", "b", 1)), back):
            ctx.check(all(abs(np.sin(h)) < 1e-9 for _, _, h in samples(lane)), "two-way-v0/straight", "a lane is not straight")
        ctx.trace()
        ctx.outcome("two way")
    ctx.sample(sorted(map(str, key)))


SIDES = ["s", "e", "n", "w"]


def turn(points, k):
    """Rotated by k quarter turns, from south to east."""
    c, s = [(1, 0), (0, -1), (-1, 0), (0, 1)][k % 4]
    out = np.array(points)
    for i in (0, 2):
        out[:, i], out[:, i + 1] = c * points[:, i] - s * points[:, i + 1], s * points[:, i] + c * points[:, i + 1]
    return out


def roundabout(ctx):
    key = None
    for env in build("roundabout-v0"):
        net = env.road.network
        key = unchanged(ctx, "roundabout-v0", key, net)
        parallel(ctx, "roundabout-v0", net)
        ring = [n for k in range(4) for n in (SIDES[k] + "e", SIDES[(k + 1) % 4] + "x")]          # se ex ee nx ne wx we sx
        total = 0
        for k in range(8):
            a, b = ring[k], ring[(k + 1) % 8]
            lanes = net.graph[a][b]
            ctx.check(len(lanes) == 2, "roundabout-v0/ring", "%d lanes from %s to %s" % (len(lanes), a, b))
            after = net.graph[b][ring[(k + 2) % 8]]
            for i in range(2):
                total += lanes[i].length
                ctx.check(np.linalg.norm(lanes[i].position(lanes[i].length, 0) - after[i].position(0, 0)) < 1e-3, "roundabout-v0/ring/joined", "a gap in the ring at %s" % b)
                ctx.check(abs(hw.wrap(lanes[i].heading_at(lanes[i].length) - after[i].heading_at(0))) < 1e-6, "roundabout-v0/ring/heading", "a kink in the ring at %s" % b)
                r = [np.linalg.norm(p) for _, p, _ in samples(lanes[i])]
                ctx.check(max(r) - min(r) < 1e-6, "roundabout-v0/ring/round", "lane %s of the ring is not a circle around the centre" % ((a, b, i),))
                turned = hw.wrap(lanes[i].heading_at(lanes[i].length) - lanes[i].heading_at(0))
                ctx.check(turned < 0, "roundabout-v0/ring/direction", "the ring turns in the wrong direction from %s to %s" % (a, b))
            ctx.check(lanes[0].line_types[0] in CONT, "roundabout-v0/markings/left", "no marking on the inner side of the ring")
        ctx.check(abs(total - 2 * np.pi * (20 + 24)) < 1e-3, "roundabout-v0/ring/length", "the lanes of the ring measure %s m" % total)
        for k, x in enumerate(SIDES):
            entry = [(x + "er", x + "es"), (x + "es", x + "e")]
            leave = [(x + "x", x + "xs"), (x + "xs", x + "xr")]
            for a, b in entry + leave:
                ctx.check(b in net.graph.get(a, {}) and len(net.graph[a][b]) == 1, "roundabout-v0/access", "no single lane from %s to %s" % (a, b))
                south = ("s" + a[1:], "s" + b[1:], 0)
                ctx.check(np.allclose(shape(net.get_lane((a, b, 0))), turn(shape(net.get_lane(south)), k), atol=1e-6), "roundabout-v0/symmetry", "the road from %s to %s is not a quarter turn of the southern one" % (a, b))
            for (a, b), (c, d) in (entry, leave):
                l, m = net.get_lane((a, b, 0)), net.get_lane((c, d, 0))
                ctx.check(np.linalg.norm(l.position(l.length, 0) - m.position(0, 0)) < 1e-3, "roundabout-v0/access/joined", "a gap in the access at %s" % b)
                ctx.check(abs(hw.wrap(l.heading_at(l.length) - m.heading_at(0))) < 0.05, "roundabout-v0/access/heading", "a kink in the access at %s" % b)
            # on the right of the road, two directions four metres apart
            l, m = net.get_lane((x + "er", x + "es", 0)), net.get_lane((x + "xs", x + "xr", 0))
            for s, p, h in samples(l):
                lat = m.local_coordinates(p)[1]
                ctx.check(abs(lat + 4) < 1e-6, "roundabout-v0/access/side", "the approach from %s is %s m to the right of the exit" % (x, lat))
            marks = (l.line_types[0], m.line_types[0])
            ctx.check(LineType.STRIPED in marks and not set(marks) & set(CONT), "roundabout-v0/markings/centre", "markings %s between the directions" % (marks,))
            ctx.check({y + "xr" for y in SIDES} <= reachable(net, x + "er"), "roundabout-v0/reachable", "not every exit is reachable from %s" % x)
            ctx.state(("roundabout", x))
        joined(ctx, "roundabout-v0", net, tol=8.0, angle=0.9)
        ctx.trace()
        ctx.outcome("roundabout")
    ctx.sample(sorted(map(str, key)))


def intersection(ctx, name):
    key = None
    for env in build(name):
        net = env.road.network
        key = unchanged(ctx, name, key, net)
        back = [("il%d" % k, "o%d" % k, "ir%d" % k) for k in range(4)]
        joined(ctx, name, net, skip=back)
        sizes = {(a, b): len(lanes) for a, b, lanes in roads(net)}
        want = {("o%d" % k, "ir%d" % k): 1 for k in range(4)}
        want.update({("il%d" % k, "o%d" % k): 1 for k in range(4)})
        want.update({("ir%d" % k, "il%d" % j): 1 for k in range(4) for j in range(4) if j != k})
        ctx.check(sizes == want, name + "/roads", "the roads are not those expected: %s" % (set(sizes) ^ set(want),))
        for k in range(4):
            horizontal = k % 2
            sides = {"right": (k - 1) % 4, "straight": (k + 2) % 4, "left": (k + 1) % 4}
            entry = net.get_lane(("o%d" % k, "ir%d" % k, 0))
            leave = net.get_lane(("il%d" % k, "o%d" % k, 0))
            lanes = {"entry": entry, "exit": leave}
            lanes.update({w: net.get_lane(("ir%d" % k, "il%d" % j, 0)) for w, j in sides.items()})
            for what, lane in lanes.items():
                prio = (3 if horizontal else 1) - (what == "left")
                if what != "exit":
                    ctx.check(lane.priority == prio, name + "/priority/" + what, "the %s lane of approach %d has priority %s, expected %d" % (what, k, lane.priority, prio))
                ctx.check(lane.speed_limit == 10, name + "/speed_limit", "the %s lane of approach %d is limited to %s" % (what, k, lane.speed_limit))
                ctx.check(abs(lane.width_at(1.0) - 4) < 1e-9, name + "/width", "the %s lane of approach %d is %s m wide" % (what, k, lane.width_at(1.0)))
                ctx.check(not lane.forbidden, name + "/forbidden", "the %s lane of approach %d is forbidden" % (what, k))
                turned = sum(hw.wrap(h2 - h1) for (_, _, h1), (_, _, h2) in zip(samples(lane, 40), samples(lane, 40)[1:]))
                expected = {"right": np.pi / 2, "left": -np.pi / 2}.get(what, 0.0)
                ctx.check(abs(turned - expected) < 1e-6, name + "/turn/" + what, "the %s lane of approach %d turns by %s" % (what, k, turned))
                # the same for every approach, up to a rotation
                ref_lane = net.get_lane({"entry": ("o0", "ir0", 0), "exit": ("il0", "o0", 0), "right": ("ir0", "il3", 0), "straight": ("ir0", "il2", 0), "left": ("ir0", "il1", 0)}[what])
                ctx.check(np.allclose(shape(lane), turn(shape(ref_lane), -k), atol=1e-6), name + "/symmetry/" + what, "the %s lane of approach %d is not the rotated one of approach 0" % (what, k))
                ctx.trans()
                ctx.state((name, what, k))
            # south, west, north, east: driving towards the centre, on the right
            toward = entry.position(0, 0)
            out = np.array([(0, 1), (-1, 0), (0, -1), (1, 0)][k])
            ctx.check(np.dot(toward, out) > 50 and np.dot(toward, out) > 10 * abs(np.cross(toward, out)), name + "/side", "approach %d starts at %s" % (k, toward))
            for s, p, h in samples(entry):
                ctx.check(np.dot([np.cos(h), np.sin(h)], out) < -0.999, name + "/towards", "approach %d does not drive towards the centre" % k)
                lat = leave.local_coordinates(p)[1]
                ctx.check(abs(lat + 4) < 1e-6, name + "/right-hand", "approach %d is %s m to the right of the exit" % (k, lat))
            marks = (entry.line_types[0], leave.line_types[0])
            ctx.check(LineType.STRIPED in marks and not set(marks) & set(CONT), name + "/markings/centre", "markings %s between the directions of %d" % (marks, k))
            for what in ("entry", "exit", "right"):
                ctx.check(lanes[what].line_types[1] in CONT, name + "/markings/right", "marking %s on the right of the %s lane of %d" % (lanes[what].line_types[1], what, k))
            ctx.check({"o%d" % j for j in range(4)} - {"o%d" % k} <= reachable(net, "o%d" % k), name + "/reachable", "not every exit is reachable from %d" % k)
        ctx.trace()
        ctx.outcome("intersection")
    ctx.sample(sorted(map(str, key)))


def parking(ctx, name):
    summon = name.startswith("summon")
    key = None
    for env in build(name):
        net = env.road.network
        key = unchanged(ctx, name, key, net)
        rows = [net.graph["a"]["b"], net.graph["b"]["c"]]
        spots = rows[0] + rows[1]
        ctx.check(len(rows[0]) == len(rows[1]) == 15, name + "/spots", "%d and %d spots" % (len(rows[0]), len(rows[1])))
        ends = []
        for i, lane in enumerate(spots):
            ctx.check(abs(lane.length - 8) < 1e-6 and abs(lane.width_at(0) - 4) < 1e-6, name + "/spot-size", "spot %d measures %s x %s m" % (i, lane.length, lane.width_at(0)))
            ctx.check(set(lane.line_types) <= set(CONT), name + "/spot-markings", "spot %d is marked by %s" % (i, lane.line_types))
            if summon:
                ctx.check(lane.speed_limit == 5, name + "/speed_limit", "spot %d is limited to %s" % (i, lane.speed_limit))
            heading = np.pi / 2 if i < 15 else -np.pi / 2
            ctx.check(abs(hw.wrap(lane.heading_at(0) - heading)) < 1e-9, name + "/spot-heading", "spot %d has heading %s" % (i, lane.heading_at(0)))
            ends.append(hw.rect_corners(lane.position(4, 0), 8, 4, lane.heading_at(4)))
            ctx.state((name, i))
        for i, j in itertools.combinations(range(30), 2):
            ctx.check(hw.separation(ends[i], ends[j]) > -1e-6, name + "/overlap", "spots %d and %d overlap" % (i, j))
            ctx.trans()
        for i in range(15):
            p, q = rows[0][i].position(0, 0), rows[1][i].position(0, 0)
            ctx.check(abs(p[0] - q[0]) < 1e-6 and abs(p[1] + q[1]) < 1e-6 and p[1] >= 10, name + "/facing", "spots %d start at %s and %s" % (i, p, q))
            if i:
                ctx.check(abs(p[0] - rows[0][i - 1].position(0, 0)[0] - 4) < 1e-6, name + "/adjacent", "spots %d and %d are not side by side" % (i - 1, i))
        if summon:
            middle = net.graph["d"]["e"]
            y = rows[0][0].position(0, 0)[1]
            ctx.check(len(middle) >= 2, name + "/middle", "%d lanes between the rows" % len(middle))
            for i, lane in enumerate(middle):
                ctx.check(all(abs(p[1]) <= y - 2 + 1e-6 and abs(hw.wrap(h)) < 1e-9 for _, p, h in samples(lane)), name + "/middle", "lane %d is not between the rows" % i)
                ctx.check(lane.position(0, 0)[0] <= rows[0][0].position(0, 0)[0] and lane.position(lane.length, 0)[0] >= rows[0][-1].position(0, 0)[0], name + "/middle-length", "lane %d is too short" % i)
                ctx.check(lane.speed_limit == 5, name + "/speed_limit", "lane %d is limited to %s" % (i, lane.speed_limit))
                if i:
                    ctx.check(abs(lane.position(0, 0)[1] - middle[i - 1].position(0, 0)[1] - 4) < 1e-6, name + "/middle-adjacent", "lanes %d and %d are not side by side" % (i - 1, i))
        ctx.trace()
        ctx.outcome("parking")
    ctx.sample(sorted(map(str, key))[:5])


def scene(name):
    env = envs.light(name, 1, **(dict(initial_vehicle_count=1) if name.startswith("intersection") else {}))[0].unwrapped
    env.road.vehicles, env.road.objects = [], []
    return env


ENDS = {"merge-v0": {"d"}, "two-way-v0": {"a", "b"}, "roundabout-v0": {x + "xr" for x in SIDES}, "intersection-v0": {"o%d" % k for k in range(4)}}
SPEEDS = {"merge-v0": (20, 30), "two-way-v0": (15, 25), "roundabout-v0": (6, 8), "intersection-v0": (5, 8)}
# how far from the lane that it follows can a vehicle be: half a lane, more where the roundabout is entered or left
WANDER = {"roundabout-v0": 9.0}


def follow(ctx, name, net, veh, limit, case):
    """Drive to an end of the world; the nodes that were passed."""
    passed, done = [], 0.0
    dt = 1 / 15
    s0 = None
    while done < limit:
        index = tuple(veh.target_lane_index)
        if not passed or passed[-1] != index:
            ctx.check(not passed or passed[-1][1] == index[0], name + "/next", "lane %s follows %s" % (index, passed[-1:]), **case)
            passed.append(index)
        lane = net.get_lane(index)
        s, r = lane.local_coordinates(veh.position)
        if index[1] in ENDS[name] and s > lane.length - 6:
            break
        # the merging lane ends beside the highway
        ctx.check(abs(r) < (4.5 if ("b", "c", 2) in passed and name == "merge-v0" else WANDER.get(name, 2.0)), name + "/follow", "%.1f m beside the lane %s that it follows" % (r, index), **case)
        if name == "roundabout-v0":
            ctx.check(any(l.on_lane(veh.position, margin=1.5) for _, _, ls in roads(net) for l in ls), name + "/on-road", "off the road at %s" % veh.position, **case)
        veh.act()
        before = np.array(veh.position)
        veh.step(dt)
        done += float(np.linalg.norm(veh.position - before))
        ctx.trans()
        ctx.state((name, tuple(np.round(veh.position, 1)), index))
    return passed


def wander(ctx, name, k, quick):
    """From every lane, along every sequence of successors."""
    env = scene(name)
    net = env.road.network
    starts = [(a, b, i) for a, b, lanes in roads(net) for i in range(len(lanes))][k::4]
    for index in starts:
        for speed in SPEEDS[name] if not quick else SPEEDS[name][:1]:
            def run(ch):
                env.road.np_random = ch
                lane = net.get_lane(index)
                veh = hw.ControlledVehicle(env.road, lane.position(1.0, 0), lane.heading_at(1.0), speed, target_lane_index=index, target_speed=speed)
                return follow(ctx, name, net, veh, 90 if name == "roundabout-v0" and quick else 220 if quick else 400 if name != "roundabout-v0" else 130, dict(start=index, speed=speed))
            for script, passed in choice.explore(run):
                ctx.trace()
                for (a, b, _), (c, d, _) in zip(passed, passed[1:]):
                    ctx.check(b == c and d in net.graph[b], name + "/successor", "road %s follows %s" % ((c, d), (a, b)), start=index)
                ctx.outcome("%s: %d roads" % (name, len(passed)))
    ctx.sample(dict(starts=starts))


def travel(ctx, name, k, quick):
    """From every entry to every exit along the planned route."""
    env = scene(name)
    net = env.road.network
    entries = {"merge-v0": [("a", "b", 0), ("a", "b", 1), ("j", "k", 0)], "two-way-v0": [("a", "b", 0), ("a", "b", 1), ("b", "a", 0)],
               "roundabout-v0": [(x + "er", x + "es", 0) for x in SIDES], "intersection-v0": [("o%d" % j, "ir%d" % j, 0) for j in range(4)]}[name]
    for index in entries[k:k + 1]:
        for end in sorted(ENDS[name]):
            if end == index[0] or (name == "two-way-v0" and end != index[1]):
                continue
            for speed in SPEEDS[name]:
                lane = net.get_lane(index)
                s = max(lane.length - 60.0, 1.0)
                veh = hw.ControlledVehicle(env.road, lane.position(s, 0), lane.heading_at(s), speed, target_lane_index=index, target_speed=speed)
                veh.plan_route_to(end)
                case = dict(entry=index, exit=end, speed=speed)
                passed = follow(ctx, name, net, veh, 900, case)
                ctx.check(passed[-1][1] == end, name + "/arrive", "arrived on %s instead of %s" % (passed[-1], end), **case)
                ctx.check(len({p[:2] for p in passed}) == len(passed), name + "/loop", "the vehicle drove in circles: %s" % passed, **case)
                ctx.trace()
                ctx.outcome("%s: %d roads" % (name, len(passed)))
    ctx.sample(dict(entry=index if entries[k:k + 1] else None))
