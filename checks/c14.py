"""C14: lane frames are consistent with world coordinates."""
import itertools

import numpy as np

from vk import hw
from highway_env.road.lane import StraightLane, SineLane, CircularLane

PROP = "C14"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "48 straight, 32 sine and 64 circular lanes over orientations, lengths, widths, arc directions and extents, plus every "
             "lane of every environment; 17 longitudinal x 11 lateral coordinates each; closest lane on 8 networks x "
             "lattices of positions x 13 headings and no heading",
    "thorough": "41 x 21 coordinates, finer position lattices"}
ASSUMPTIONS = ["world -> local round trips of circular lanes are claimed on the part of the circle within half a turn of the start",
               "positions within 1e-6 of a limit (lane border, reachability limit) are not judged"]
EPS = 1e-6


def menu():
    lanes = []
    for start in ((0.0, 0.0), (30.0, -12.0)):
        for ang in (0.0, 0.5, 1.5707963, 2.5, 3.1415926, -1.2, -2.0, -3.0):
            for length, width in ((10.0, 4.0), (120.0, 3.0), (60.0, 7.0)):
                end = (start[0] + length * np.cos(ang), start[1] + length * np.sin(ang))
                lanes.append(("straight", dict(start=start, end=end, width=width, forbidden=(width == 7.0)), length))
    for ang in (0.0, 0.8, -1.6, 3.0):
        for amp, puls, ph, length in ((2.0, 0.2, 0.0, 60.0), (3.25, 0.1256637, 1.5707963, 50.0), (-1.5, 0.3, 2.0, 40.0), (5.0, 0.05, -1.0, 80.0)):
            for start in ((0.0, 0.0), (5.0, 20.0)):
                end = (start[0] + length * np.cos(ang), start[1] + length * np.sin(ang))
                lanes.append(("sine", dict(start=start, end=end, amplitude=amp, pulsation=puls, phase=ph, width=4.0), length))
    for center in ((0.0, 0.0), (12.0, -40.0)):
        for radius in (5.0, 20.0):
            for start in (0.0, 1.0, 3.0, -2.5):
                for cw in (True, False):
                    for span in (1.5707963, 2.9):
                        end = start + span if cw else start - span
                        lanes.append(("circle", dict(center=center, radius=radius, start_phase=start, end_phase=end,
                                                     clockwise=cw, width=4.0), radius * span))
    return lanes


BUILD = {"straight": StraightLane, "sine": SineLane, "circle": CircularLane}


def tasks(tier, seed):
    fine = tier != "quick"
    out = [("lanes", (k, 12, fine)) for k in range(12)]
    out += [("env_lanes", (e, fine)) for e in hw.ENVS]
    for n in ("straight", "menu", "roundabout-v0", "intersection-v0", "merge-v0", "parking-v0", "two-way-v0", "lane-keeping-v0"):
        out += [("closest", (n, part, 15 if not fine else 40)) for part in range(2)]
    return out


def wrapdiff(a, b):
    return abs(hw.wrap(a - b))


def ref_position(kind, kw, s, r):
    """Reference geometry, for menu lanes: independent formulas."""
    if kind == "circle":
        sign = 1 if kw["clockwise"] else -1
        phi = kw["start_phase"] + sign * s / kw["radius"]
        rad = kw["radius"] - sign * r
        return np.array(kw["center"]) + rad * np.array([np.cos(phi), np.sin(phi)])
    a, b = np.array(kw["start"]), np.array(kw["end"])
    t = (b - a) / np.hypot(*(b - a))
    n = np.array([-t[1], t[0]])
    if kind == "sine":
        r = r + kw["amplitude"] * np.sin(kw["pulsation"] * s + kw["phase"])
    return a + s * t + r * n


def one_lane(ctx, lane, name, fine, ref=None, ref_length=None):
    """All coordinate-frame properties of one lane on a lattice."""
    L = float(lane.length)
    ns, nr = (41, 21) if fine else (17, 11)
    circle = isinstance(lane, CircularLane)
    if L > 1000:
        ss = np.concatenate([np.linspace(-12, 60, ns), np.linspace(L - 60, L + 12, ns)]) + 0.00713
    else:
        ss = np.linspace(-12, L + 12, ns) + 0.00713
    ctx.check(L > 0, "length/positive", "length %s" % L, lane=name)
    if ref_length is not None:
        ctx.check(abs(L - ref_length) < 1e-5 * max(1, ref_length), "length", "length %s instead of %s" % (L, ref_length), lane=name)
    halfturn = np.pi * lane.radius if circle else np.inf
    for s in ss:
        w = lane.width_at(s)
        d = 1e-4
        centre = lane.position(s, 0)
        # heading is the direction of the centre line
        t = (lane.position(s + d, 0) - lane.position(s - d, 0)) / (2 * d)
        ctx.check(wrapdiff(np.arctan2(t[1], t[0]), lane.heading_at(s)) < 1e-4, "heading",
                  "heading %.5f at %.2f, the centre line goes towards %.5f" % (lane.heading_at(s), s, np.arctan2(t[1], t[0])), lane=name)
        laterals = np.unique(np.concatenate([np.linspace(-2.6 * w, 2.6 * w, nr) + 0.0037, np.array([0.3, -0.3])]))
        for r in laterals:
            if circle and (lane.radius - abs(r) < 0.5 or abs(s) >= halfturn - 1e-3):
                continue
            p = lane.position(s, r)
            case = dict(lane=name, s=s, r=r)
            if ref is not None:
                ctx.check(np.abs(p - ref(s, r)).max() < 1e-6, "position", "position %s instead of %s" % (p, ref(s, r)), **case)
            s2, r2 = lane.local_coordinates(p)
            ctx.check(abs(s2 - s) < 1e-6 and abs(r2 - r) < 1e-6, "local-world-local", "(%s, %s) came back as (%s, %s)" % (s, r, s2, r2), **case)
            p2 = lane.position(s2, r2)
            ctx.check(np.abs(p2 - p).max() < 1e-6, "world-local-world", "%s came back as %s" % (p, p2), **case)
            # a lateral offset is a displacement to the right of the heading by r (straight and circular lanes)
            if not isinstance(lane, SineLane):
                h = lane.heading_at(s)
                ctx.check(np.abs(p - centre - r * np.array([-np.sin(h), np.cos(h)])).max() < 1e-6, "lateral",
                          "lateral offset is not orthogonal to the centre line", **case)
            # membership
            for margin in (0, 1, -0.5):
                lim = abs(r) - (w / 2 + margin)
                if min(abs(lim), abs(s + 5), abs(s - L - 5)) > EPS:
                    want = lim < 0 and -5 < s < L + 5
                    got = bool(lane.on_lane(p, margin=margin))
                    ctx.check(got == want, "on_lane", "on_lane(margin=%s)=%s, expected %s" % (margin, got, want), **case)
                    ctx.check(bool(lane.on_lane(p, s, r, margin)) == want, "on_lane/given",
                              "on_lane with the coordinates given: expected %s" % want, **case)
                    ctx.outcome("on" if want else "off")
            lim = abs(r) - 2 * w
            if min(abs(lim), abs(s), abs(s - L - 5)) > EPS:
                want = not lane.forbidden and lim < 0 and 0 < s < L + 5
                ctx.check(bool(lane.is_reachable_from(p)) == want, "reachable", "reachable=%s, expected %s" % (not want, want), **case)
                ctx.outcome("reachable" if want else "unreachable")
            if abs(s - (L - 2.5)) > EPS:
                want = s > L - 2.5
                ctx.check(bool(lane.after_end(p)) == want, "after_end", "after_end=%s" % (not want), **case)
                ctx.check(bool(lane.after_end(p, s, r)) == want, "after_end/given", "after_end=%s" % (not want), **case)
            dist = abs(r) + max(s - L, 0) + max(-s, 0)
            ctx.check(abs(lane.distance(p) - dist) < 1e-6, "distance", "distance %s, expected %s" % (lane.distance(p), dist), **case)
            for dh in (0.0, 0.5, -1.0, 3.0, 4.0, -6.0):
                want = dist + abs(hw.wrap(dh))
                got = lane.distance_with_heading(p, lane.heading_at(s) + dh)
                ctx.check(abs(got - want) < 1e-6, "distance_with_heading", "%s, expected %s" % (got, want), dh=dh, **case)
            ctx.check(abs(lane.distance_with_heading(p, None) - dist) < 1e-6, "distance_with_heading/none", "", **case)
            ctx.state((name, round(s, 6), round(r, 6)))
            ctx.trans()
    # the length is the arc length of the reference (undeformed) line, from 0 to the end
    if not isinstance(lane, SineLane):
        n = 400
        pts = np.array([lane.position(L * k / n, 0) for k in range(n + 1)])
        arc = np.sum(np.hypot(*np.diff(pts, axis=0).T))
        ctx.check(abs(arc - L) < 1e-3 * L, "length/arc", "arc length %s, length %s" % (arc, L), lane=name)
    ctx.trace()
    ctx.sample(dict(lane=name, length=L))


def lanes(ctx, k, n, fine):
    for i, (kind, kw, length) in enumerate(menu()):
        if i % n == k:
            lane = BUILD[kind](**kw)
            name = "%s%s" % (kind, sorted(kw.items()))
            one_lane(ctx, lane, name, fine, lambda s, r: ref_position(kind, kw, s, r), length)
            if kind != "circle":
                # starts and ends where it was told
                off = (lambda s: np.array([0., 0.])) if kind == "straight" else None
                if off:
                    ctx.check(np.abs(lane.position(0, 0) - kw["start"]).max() < 1e-9 and
                              np.abs(lane.position(lane.length, 0) - kw["end"]).max() < 1e-9, "ends", "lane ends", lane=name)


def env_lanes(ctx, name, fine):
    import gym
    env = gym.make(name).unwrapped
    env.seed(1)
    env.reset()
    for a, tos in env.road.network.graph.items():
        for b, ls in tos.items():
            for i, lane in enumerate(ls):
                one_lane(ctx, lane, (name, a, b, i), fine)


def closest(ctx, name, part, n):
    from checks.c12 import network
    net, xr, yr = network(name)
    lanes = [((a, b, k), l) for a, tos in net.graph.items() for b, ls in tos.items() for k, l in enumerate(ls)]
    got_list = net.lanes_list()
    ctx.check(len(got_list) == len(lanes) and all(any(g is l for _, l in lanes) for g in got_list), "lanes_list", "lanes_list", net=name)
    headings = [None] + [k * np.pi / 6 - 0.02 for k in range(13)]
    for x in np.linspace(*xr, n):
        for y in np.linspace(*yr, n) + 0.0171 * (1 + part):
            p = np.array([x, y])
            for h in headings[part::2]:
                best, where = np.inf, None
                d = {}
                for idx, l in lanes:
                    s, r = l.local_coordinates(p)
                    d[idx] = abs(r) + max(s - l.length, 0) + max(-s, 0)
                    if h is not None:
                        d[idx] += abs(hw.wrap(h - l.heading_at(s)))
                best = min(d.values())
                idx = tuple(net.get_closest_lane_index(p, h) if h is not None else net.get_closest_lane_index(p))
                ctx.check(d[idx] <= best + 1e-9, "closest", "lane %s at %.4f, the closest is at %.4f" % (idx, d[idx], best),
                          net=name, position=(x, y), heading=h)
                ctx.state((name, x, y, h))
                ctx.trans()
                ctx.outcome("%s %s" % (name, idx))
    ctx.sample(dict(net=name, position=(x, y), heading=h))
