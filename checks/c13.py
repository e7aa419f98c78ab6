"""C13: a collision is reported exactly when footprints overlap."""
import copy
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.kinematics import Vehicle

PROP = "C13"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "two bodies: relative offsets [-5.6,5.6]^2 step 0.4 x 12 relative headings x 3 base headings x {vehicle, "
             "obstacle, landmark} x both orders x equal/different speeds; bodies of 7 sizes and kinds just within and beyond their contact, "
             "24 directions x 15 headings; 3-body scenes on a 1-D lattice x all orders; "
             "moving scenes over 8 frames",
    "thorough": "as quick with offsets step 0.2, 24 relative headings, 5 base headings, 4-body scenes, 20 frames"}
ASSUMPTIONS = ["poses whose footprints touch within 1e-6 m are not judged"]

TOL = 1e-6


def tasks(tier, seed):
    q = tier == "quick"
    nh, bases = (12, (0.0, 0.55, -2.3)) if q else (24, (0.0, 0.55, -2.3, 1.6, 3.0))
    out = []
    for kind in ("vehicle", "obstacle", "landmark"):
        for b in bases:
            for h in range(nh):
                out.append(("pairs", (kind, b, h, nh, 0.4 if q else 0.2)))
    for first in range(4):
        for second in range(7):
            out.append(("rims", (first, second, 24 if q else 72, 15 if q else 60)))
    for n in range(2 if q else 4):
        out.append(("triples", (n, q)))
    out.append(("fleet", (q,)))
    for s in range(6 if q else 24):
        out.append(("moving", (s, 8 if q else 20)))
    out.append(("disabled", ()))
    return out


NETLEN = 200


def fresh():
    return hw.make_road(hw.straight(1, NETLEN))


def pairs(ctx, kind, base, h, nh, step):
    rel = 2 * np.pi * h / nh + 0.013
    offs = np.arange(-5.6, 5.6 + 1e-9, step)
    road = fresh()
    speeds = [(0.0, 0.0), (12.0, -5.0), (-3.0, 20.0), (2.0, -8.0), (-9.0, 4.0)]
    cb, sb = np.cos(base), np.sin(base)
    for i, dx in enumerate(offs):
        for j, dy in enumerate(offs):
            p2 = np.array([100 + cb * dx - sb * dy, 7 + sb * dx + cb * dy])
            for order in (0, 1):
                v1s, v2s = speeds[(i + 2 * j + order) % 5]
                a = Vehicle(road, [100, 7], base, v1s)
                if kind == "vehicle":
                    b = Vehicle(road, p2, base + rel, v2s)
                    road.vehicles, road.objects = ([a, b] if order == 0 else [b, a]), []
                else:
                    b = (hw.Obstacle if kind == "obstacle" else hw.Landmark)(road, p2, heading=base + rel)
                    road.vehicles, road.objects = [a], [b]
                    if order:
                        continue
                road.step(0)    # a frame without motion: the poses are exactly those of the lattice
                gap = hw.footprint_gap(a, b)
                if abs(gap) < TOL:
                    ctx.outcome("touching: not judged")
                    continue
                overlap = gap < 0
                case = dict(kind=kind, base=base, rel=rel, dx=dx, dy=dy, order=order, gap=gap)
                ctx.state((kind, base, h, i, j, order))
                ctx.trans()
                key = "pair/%s/%s" % (kind, "missed" if overlap else "spurious")
                if kind == "vehicle":
                    ctx.check(a.crashed == overlap and b.crashed == overlap, key,
                              "crashed=(%s, %s) for gap %.3f m" % (a.crashed, b.crashed, gap), **case)
                    if overlap:
                        want = min((v1s, v2s), key=abs)
                        ctx.check(abs(a.speed - want) < 1e-9 and abs(b.speed - want) < 1e-9, "pair/vehicle/speed",
                                  "speeds after the crash of %s m/s and %s m/s: %s, %s" % (v1s, v2s, a.speed, b.speed), **case)
                    else:
                        ctx.check(a.speed == v1s and b.speed == v2s, "pair/vehicle/nospeed", "speed changed without crash", **case)
                elif kind == "obstacle":
                    ctx.check(a.crashed == overlap and b.hit == overlap, key,
                              "crashed=%s hit=%s for gap %.3f m" % (a.crashed, b.hit, gap), **case)
                    ctx.check(a.speed == (0 if overlap else v1s), "pair/obstacle/speed", "speed %s after" % a.speed, **case)
                else:
                    ctx.check(not a.crashed and a.speed == v1s and b.hit == overlap, key,
                              "crashed=%s hit=%s for gap %.3f m" % (a.crashed, b.hit, gap), **case)
                ctx.outcome("%s %s" % (kind, "overlap" if overlap else "apart"))
    ctx.sample(case)


class Truck(Vehicle):
    LENGTH = 12.0
    WIDTH = 2.5


class Bike(Vehicle):
    LENGTH = 2.0
    WIDTH = 0.8


class Wide(Vehicle):
    LENGTH = 4.0
    WIDTH = 4.5


class Beam(hw.Obstacle):
    LENGTH = 1.0
    WIDTH = 9.0


BODIES = [Vehicle, Truck, Bike, Wide, hw.Obstacle, hw.Landmark, Beam]


def rims(ctx, first, second, directions, headings):
    """Bodies of all sizes just before and just after the contact, in every direction."""
    road = fresh()
    for d in range(directions):
        phi = 2 * np.pi * d / directions + 0.007
        u = np.array([np.cos(phi), np.sin(phi)])
        for h in range(headings):
            rel = 2 * np.pi * h / headings + 0.004
            a = BODIES[first](road, [100, 7], 0.3, 4.0)
            other = BODIES[second]
            make = (lambda pos: other(road, pos, rel, -9.0)) if second < 4 else (lambda pos: other(road, pos, heading=rel))
            lo, hi = 0.0, 20.0      # footprints are convex and centred: they overlap up to some distance
            while hi - lo > 1e-4:
                mid = (lo + hi) / 2
                if hw.footprint_gap(a, make(a.position + mid * u)) < 0:
                    lo = mid
                else:
                    hi = mid
            for r, overlap in ((lo - 0.01, True), (lo - 0.3, True), (hi + 0.01, False), (hi + 0.3, False)):
                for order in (0, 1) if second < 4 else (0,):
                    a = BODIES[first](road, [100, 7], 0.3, 4.0)
                    b = make(a.position + r * u)
                    road.vehicles, road.objects = ([a, b][::-1 if order else 1], []) if second < 4 else ([a], [b])
                    road.step(0)
                    case = dict(first=BODIES[first].__name__, second=other.__name__, direction=phi, rel=rel, distance=r, order=order)
                    got = (a.crashed, b.crashed if second < 4 else b.hit)
                    want = (overlap and other is not hw.Landmark, overlap)
                    ctx.check(got == want, "rim/%s/%s/%s" % (case["first"], case["second"], "missed" if overlap else "spurious"),
                              "crashed or hit = %s instead of %s, %.2f m %s the contact" % (got, want, abs(r - lo), "within" if overlap else "beyond"), **case)
                    ctx.trans()
                    ctx.outcome("rim %s" % ("overlap" if overlap else "apart"))
            ctx.state((first, second, d, h))
    ctx.sample(case)


def judge(ctx, road, before, case, key):
    """After one frame: newly crashed = footprints overlap; ``before`` are the crash flags before the frame."""
    vs = road.vehicles
    for i, v in enumerate(vs):
        hits, unsure = False, False
        with_vehicle = False    # in contact with another vehicle
        for j, o in enumerate(vs):
            if i != j:
                g = hw.footprint_gap(v, o)
                if abs(g) < TOL:
                    unsure = with_vehicle = True
                elif g < 0:
                    hits = with_vehicle = True
        for o in road.objects:
            g = hw.footprint_gap(v, o)
            if abs(g) < TOL:
                unsure = True
            elif g < 0:
                if isinstance(o, hw.Obstacle):
                    hits = True
                    ctx.check(o.hit or before[i] or with_vehicle, key + "/hit", "the obstacle overlapped by vehicle %d is not hit" % i, **case)
                elif not before[i] and not v.crashed:
                    ctx.check(o.hit, key + "/landmark", "the landmark overlapped by vehicle %d is not hit" % i, **case)
        if unsure:
            continue
        want = hits or before[i]
        ctx.check(v.crashed == want, key + ("/missed" if want else "/spurious"),
                  "vehicle %d: crashed=%s, expected %s" % (i, v.crashed, want), **case)
        ctx.outcome("%s crashed=%s" % (key, want))


def triples(ctx, n, quick):
    """Three or four bodies on a lattice; every order of the vehicle list; some already crashed."""
    gaps = (1.2, 3.9, 4.6, 7.0) if n % 2 == 0 else (0.5, 4.4, 4.7, 9.0)
    lat = (0.0, 1.9) if n < 2 else (0.3, 1.7)
    headings = (0.0, 0.4)
    road = fresh()
    for g1, g2 in itertools.product(gaps, gaps):
        for l1, l2 in itertools.product(lat, lat):
            for h1, h2 in itertools.product(headings, headings):
                poses = [(50.0, 0.0, 0.0, 10.0), (50 + g1, l1, h1, -4.0), (50 + g1 + g2, l2, h2, 7.0)]
                for obstacle in (None, 0, 2):
                    for pre in ((), (0,), (0, 1)) if not quick or obstacle is None else ((),):
                        for perm in itertools.permutations(range(3)):
                            road.objects, road.vehicles = [], []
                            cars = {}
                            for k, (x, y, h, s) in enumerate(poses):
                                if k == obstacle:
                                    road.objects.append(hw.Obstacle(road, [x, y], heading=h))
                                    road.objects.append(hw.Landmark(road, [x + 30, y], heading=h))
                                else:
                                    cars[k] = Vehicle(road, [x, y], h, s)
                                    cars[k].crashed = k in pre
                            if obstacle is not None and perm[obstacle] != obstacle:
                                continue
                            road.vehicles = [cars[k] for k in perm if k in cars]
                            before = [v.crashed for v in road.vehicles]
                            road.step(0)
                            case = dict(poses=poses, obstacle=obstacle, crashed_before=pre, order=perm)
                            ctx.state((g1, g2, l1, l2, h1, h2, obstacle, pre, perm))
                            ctx.trans()
                            judge(ctx, road, before, case, "scene")
                            # nothing may be undone by a second frame at the same place
                            flags = [v.crashed for v in road.vehicles]
                            road.step(0)
                            ctx.check(flags == [v.crashed for v in road.vehicles], "scene/stable",
                                      "crash flags changed without motion", **case)
    ctx.sample(case)


def fleet(ctx, quick):
    """Every pair of slots among n vehicles: the two overlapping ones are found wherever they are in the list."""
    for n in range(2, 9 if quick else 14):
        for i, j in itertools.combinations(range(n), 2):
            for variant in range(3):
                road = fresh()
                for k in range(n):
                    road.vehicles.append(Vehicle(road, [20.0 + 12 * k, 0.2 * k], 0.1 * k, 5 + k))
                a, b = road.vehicles[i], road.vehicles[j]
                b.position = a.position + np.array([(3.0, 0.4), (-2.0, 1.2), (0.3, -1.5)][variant])
                b.heading = a.heading + (0.0, 0.8, 1.57)[variant]
                before = [False] * n
                road.step(0)
                ctx.state((n, i, j, variant))
                ctx.trans()
                judge(ctx, road, before, dict(n=n, i=i, j=j, variant=variant), "fleet")


def moving(ctx, s, frames):
    """Scenes that move: crash flags only rise on the frame in which footprints overlap, and latch."""
    dt = 1 / 15
    speeds = [(12, -10, 3), (25, 0, -20), (8, 8, 8.5), (-15, 15, 0), (30, 5, 5), (6, 2, -9)]
    base = 0.7 * s
    for heading in (0.0, 0.6, 1.57, 2.6, -1.2):
        for x2 in (4.6, 6.0, 9.3, 13.0):
            for y2 in (-2.5, -1.5, 0.3, 1.1, 2.2):
                for obstacle in (False, True):
                    road = hw.make_road(hw.straight(2, NETLEN))
                    va, vb, vc = speeds[s % len(speeds)]
                    c, sn = np.cos(base), np.sin(base)
                    rot = lambda x, y: [90 + c * x - sn * y, 2 + sn * x + c * y]
                    road.vehicles = [Vehicle(road, rot(0, 0), base, va), Vehicle(road, rot(x2, y2), base + heading, vb),
                                     Vehicle(road, rot(-6.5, 0.5), base, vc)]
                    if s >= 6:
                        road.vehicles.reverse()
                    if obstacle:
                        road.objects = [hw.Obstacle(road, rot(x2 + 4, y2 - 1), heading=base + 0.3),
                                        hw.Landmark(road, rot(3, 3), heading=base - 0.3)]
                    for v, (st, ac) in zip(road.vehicles, ((0.1, 2.0), (-0.2, 0.0), (0.0, 6.0))):
                        v.act({"steering": st, "acceleration": ac})
                    for f in range(frames):
                        before = [v.crashed for v in road.vehicles]
                        hit_before = [o.hit for o in road.objects]
                        road.step(dt)
                        case = dict(s=s, heading=heading, x2=x2, y2=y2, obstacle=obstacle, frame=f)
                        ctx.state((s, heading, x2, y2, obstacle, f, tuple(before)))
                        ctx.trans()
                        judge(ctx, road, before, case, "moving")
                        for o, hb in zip(road.objects, hit_before):
                            touched = any(hw.footprint_gap(v, o) < TOL for v in road.vehicles)
                            ctx.check(o.hit <= (hb or touched), "moving/hit-spurious", "object hit without overlap", **case)
                    ctx.trace()
    ctx.sample(case)


def disabled(ctx):
    class Ghost(Vehicle):
        COLLISIONS_ENABLED = False
    for ka, kb in itertools.product((Vehicle, Ghost), repeat=2):
        for order in (0, 1):
            for what in ("vehicle", "obstacle", "landmark"):
                road = fresh()
                a = ka(road, [50, 0], 0, 5)
                if what == "vehicle":
                    b = kb(road, [51, 0.5], 0.3, 9)
                    road.vehicles = [a, b] if order == 0 else [b, a]
                else:
                    b = (hw.Obstacle if what == "obstacle" else hw.Landmark)(road, [51, 0.5], heading=0.3)
                    road.vehicles, road.objects = [a], [b]
                road.step(0)
                case = dict(a=ka.__name__, b=kb.__name__, order=order, what=what)
                ctx.state(tuple(case.values()))
                ctx.trans()
                if what == "vehicle":
                    on = ka is Vehicle and kb is Vehicle
                    ctx.check(a.crashed == on and b.crashed == on, "disabled/vehicle", "crashed=%s,%s" % (a.crashed, b.crashed), **case)
                elif what == "obstacle":
                    ctx.check(a.crashed == (ka is Vehicle), "disabled/obstacle", "crashed=%s" % a.crashed, **case)
                else:
                    ctx.check(b.hit and not a.crashed, "disabled/landmark", "hit=%s crashed=%s" % (b.hit, a.crashed), **case)
