"""C23: interval predictions contain every possible behaviour."""
import contextlib
import io
import itertools

import numpy as np

from vk import hw

PROP = "C23"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "products, differences, negative parts and scalings of all intervals with bounds in a set of 7 values (scalars), all 2-vectors and matrices over smaller sets, against "
             "all vertices and interior points; 12 lanes x 64 boxes x 25 points for frame changes; 8 parametrised matrices x all boxes with bounds on a lattice x all "
             "vertices and interior parameters; LPV systems of dimension 2 and 3 (8 dynamics x 3 deviation sets x 3 perturbations x 2 offsets x 2 initial sets): states reached by all sequences (the most extreme when more than 1500) of "
             "length 4 of vertices of parameters and perturbations; vehicles: all vertices and centre of the parameter boxes x speeds x offsets x 6 road directions, 30 steps; worst-case collisions: 4 headings of the predicted vehicle x "
             "36 boxes x 6 headings x 21 x 9 positions of the other one (ego-vehicle or traffic) x both orders",
    "thorough": "sequences of length 6, finer lattices, 60 steps"}
ASSUMPTIONS = ["time steps small enough for the Euler scheme of the predictor to be monotone (1 + dt a_ii >= 0)", "state dimension at least 2",
               "vehicles follow the lane they are on, alone on a straight road, within 5 cm of its centre line and 0.02 rad of its direction, at 10 to 30 m/s; "
               "the linear model of the steering is not exact elsewhere", "systems with a linear feedback k are centred at 0"]
EPS = 1e-9


def iv():
    from highway_env import interval
    return interval


def tasks(tier, seed):
    q = tier == "quick"
    out = [("lpv", (k, 4 if q else 6)) for k in range(len(DYNAMICS))]
    out += [("feedback", (k, 4 if q else 5)) for k in range(4)]
    for mode in ("partial", "predictor"):
        for a in range(len(ANGLES)):
            out.append(("vehicle", (mode, a, 30 if q else 60, q)))
    out += [("front", (mode,)) for mode in ("partial", "predictor")]
    out += [("worst", (h, q)) for h in range(len(SIDES))]
    out += [("scalars", ()), ("vectors", (0, q)), ("vectors", (1, q)), ("matrices", (q,)), ("frames", (0, q)), ("frames", (1, q)), ("polytopes", (q,))]
    return out


def lattice(values):
    return [(a, b) for a in values for b in values if a <= b]


def within(iv, lo, k):
    """k points of [lo, hi], ends included."""
    return np.linspace(iv, lo, k)


def inside(ctx, value, bounds, key, tol=EPS, **case):
    value, bounds = np.asarray(value, dtype=float), np.asarray(bounds, dtype=float)
    ctx.trans()
    scale = 1 + np.abs(value)
    ok = bounds.shape == (2,) + value.shape and (bounds[0] <= value + tol * scale).all() and (value <= bounds[1] + tol * scale).all()
    return ctx.check(ok, key, "%s is not in %s" % (value.tolist(), bounds.tolist()), **case)


def points(a, b, k=3):
    return np.linspace(a, b, k) if b > a else np.array([a])


def scalars(ctx):
    m = iv()
    vals = (-7.0, -2.0, -0.5, 0.0, 0.25, 1.0, 6.0)
    for a, b in itertools.product(lattice(vals), repeat=2):
        A, B = np.array(a), np.array(b)
        case = dict(a=a, b=b)
        p = m.intervals_product(A, B)
        d = m.intervals_diff(A, B)
        for x in points(*a):
            for y in points(*b):
                inside(ctx, x * y, p, "product/scalar", **dict(case, x=x, y=y))
                inside(ctx, x - y, d, "diff/scalar", **dict(case, x=x, y=y))
        if b[0] >= 0:                     # comparison system of dx = -k x, with a gain k in b
            g = m.integrator_interval(A, B)
            for k in points(*b):
                ctx.trans()
                ctx.check(g[0] <= -k * a[0] + EPS and g[1] >= -k * a[1] - EPS, "integrator", "dx=%s for x=%s, k=%s" % (g, a, b), **case)
        ctx.check(np.array_equal(A, a) and np.array_equal(B, b), "arguments", "the arguments were modified", **case)
        ctx.state(("scalar", a, b))
    for a in lattice(vals):
        n = m.interval_negative_part(np.array(a))
        for x in points(*a, 5):
            inside(ctx, min(x, 0), n, "negative part", a=a, x=x)
        for s in vals:
            r = m.intervals_scaling(np.array([[s]]), np.array([[a[0]], [a[1]]]))
            for x in points(*a, 5):
                inside(ctx, [s * x], r, "scaling/scalar", a=a, x=x, scale=s)
        ctx.state(("unary", a))
    ctx.sample(case)


def vectors(ctx, part, q):
    """Scalar products of interval vectors; scaling by matrices; vectors of differences."""
    m = iv()
    vals = (-2.0, 0.0, 1.5) if q else (-2.0, -0.5, 0.0, 1.5)
    boxes = list(itertools.product(lattice(vals), repeat=2))
    for n, (u, v) in enumerate(itertools.product(boxes, repeat=2)):
        if n % 2 != part:
            continue
        U, V = np.array(u).T, np.array(v).T
        case = dict(u=u, v=v)
        p, d, neg = m.intervals_product(U, V), m.intervals_diff(U, V), m.interval_negative_part(U)
        for x in itertools.product(*[points(*i, 2) for i in u]):
            for y in itertools.product(*[points(*i, 2) for i in v]):
                inside(ctx, np.dot(x, y), p, "product/vector", **case)
                inside(ctx, np.subtract(x, y), d, "diff/vector", **case)
            inside(ctx, np.minimum(x, 0), neg, "negative part/vector", **case)
        ctx.state((u, v))
    for M in itertools.product((-1.0, 0.0, 2.0), repeat=4):
        M = np.reshape(M, (2, 2))
        for u in boxes[part::2]:
            U = np.array(u).T
            r = m.intervals_scaling(M, U)
            for x in itertools.product(*[points(*i, 3) for i in u]):
                inside(ctx, M @ x, r, "scaling/vector", matrix=M, u=u)
            ctx.state((M.tolist(), u))
    for u in boxes[part::2]:
        U = np.array(u).T
        for ang in np.linspace(-3, 3, 13):
            direction = [np.cos(ang), np.sin(ang)]
            r = m.vector_interval_section(U, direction)
            for x in itertools.product(*[points(*i, 4) for i in u]):
                inside(ctx, np.dot(x, direction), r, "section", u=u, direction=direction)
    ctx.sample(case)


def matrices(ctx, q):
    m = iv()
    lo = [np.array(x).reshape(2, 2) for x in itertools.product((-1.0, 0.5), repeat=4)]
    wid = [np.array(x).reshape(2, 2) for x in itertools.product((0.0, 2.0), repeat=4)]
    vec = [np.array(v).T for v in itertools.product(lattice((-2.0, 0.0, 3.0)), repeat=2)][::1 if not q else 2]
    for L in lo:
        for W in wid[::2] if q else wid:
            for V in vec:
                r = m.intervals_product(np.array([L, L + W]), V)
                for t in itertools.product((0, 1), repeat=4):
                    A = L + W * np.reshape(t, (2, 2))
                    for x in itertools.product(*[points(V[0, i], V[1, i], 2) for i in range(2)]):
                        inside(ctx, A @ x, r, "product/matrix", low=L, width=W, vector=V)
                ctx.state((L.tolist(), W.tolist(), V.tolist()))
    # a product by a scalar interval, as for the deviations of an uncertain matrix
    for L in lo:
        for s in lattice((-1.0, 0.0, 1.0, 2.0)):
            r = m.intervals_product(list(s), [L, L])
            for x in points(*s, 5):
                inside(ctx, x * L, r, "product/scaled matrix", matrix=L, scale=s)
    ctx.sample(dict(matrices=len(lo)))


def frames(ctx, part, q):
    m = iv()
    boxes = [(np.array(c), np.array(w)) for c in itertools.product((-30.0, 0.0, 12.0, 75.0), (-9.0, 0.0, 4.0, 60.0)) for w in ((0.0, 0.0), (3.0, 0.5), (0.0, 8.0), (20.0, 12.0))]
    for ang in np.linspace(-np.pi, np.pi, 13)[part::2]:
        for start in ((0.0, 0.0), (7.0, -20.0)):
            lane = hw.StraightLane(start, np.array(start) + 100 * np.array([np.cos(ang), np.sin(ang)]))
            for c, w in boxes:
                box = np.array([c - w, c + w])
                lon, lat = m.interval_absolute_to_local(box, lane)
                back = m.interval_local_to_absolute(box[:, 0], box[:, 1], lane)
                for t in itertools.product(np.linspace(0, 1, 5 if q else 9), repeat=2):
                    x = box[0] + np.array(t) * (box[1] - box[0])
                    s, r = lane.local_coordinates(x)
                    inside(ctx, s, lon, "frame/longitudinal", angle=ang, box=box)
                    inside(ctx, r, lat, "frame/lateral", angle=ang, box=box)
                    inside(ctx, lane.position(*x), back, "frame/absolute", angle=ang, box=box)
                ctx.state((ang, start, c.tolist(), w.tolist()))
    ctx.sample(dict(boxes=len(boxes)))


AFFINE = [
    (np.array([[0, 1.0], [0, 0]]), [np.array([[0, 0], [0, -1.0]]), np.array([[0, 0], [-1.0, 0]])]),
    (np.array([[1.0, -2], [0.5, 3]]), [np.array([[1.0, 1], [0, -1.0]]), np.array([[0, 2.0], [-1.0, 0.3]])]),
    (np.zeros((2, 2)), [np.array([[1.0, -1], [-1, 1.0]])]),
    (np.eye(3), [np.diag([1.0, 2, -3]), np.ones((3, 3)), np.fliplr(np.eye(3))]),
    (-np.eye(2), [np.zeros((2, 2)), np.array([[0, 1.0], [0, 0]])]),
]


def affine(k):
    a, phi = AFFINE[k]
    return lambda params: a + np.tensordot(np.array(phi), params, axes=[0, 0])


def polytopes(ctx, q):
    m = iv()
    for k in range(len(AFFINE)):
        f = affine(k)
        n = len(AFFINE[k][1])
        D = np.array(directions(AFFINE[k][0].size))
        for box in itertools.product(lattice((-1.0, 0.0, 0.5, 2.0) if n < 3 else (-1.0, 0.0, 2.0)), repeat=n):
            P = np.array(box).T
            a0, da = m.polytope(f, P)
            case = dict(matrix=k, box=box)
            ctx.check(np.allclose(a0, f(P.mean(axis=0))), "polytope/nominal", "nominal matrix %s" % a0, **case)
            # support function of the polytope in every direction
            sup = (D @ (a0 + np.array(da)).reshape(len(da), -1).T).max(axis=1)
            for t in itertools.product((0, 0.3, 1), repeat=n):
                A = f(P[0] + np.array(t) * (P[1] - P[0]))
                ctx.trans()
                ctx.check((D @ A.ravel() <= sup + 1e-9).all(), "polytope", "the matrix %s is not in the polytope" % A, **case)
            ctx.state((k, box))
    ctx.sample(case)


def directions(n):
    out = []
    for i in range(n):
        for s in (1.0, -1.0):
            e = np.zeros(n)
            e[i] = s
            out.append(e)
            for j in range(i):
                for r in (1.0, -0.5):
                    f = e.copy()
                    f[j] = r
                    out.append(f)
    return out


# stable and unstable, Metzler or not, with real or complex eigenvalues
DYNAMICS = [np.array(a) for a in (
    [[-1.0, 0.5], [0.2, -2.0]], [[-1.0, -0.5], [-0.2, -2.0]], [[0.0, 1.0], [-6.0, -5.0]], [[0.0, 1.0], [-8.0, -5.0]], [[0.5, 0.0], [0.0, -0.5]],
    [[-1.0, 2.0], [0.0, -3.0]], [[-1.0, 0.0, 0.5], [0.0, -2.0, 0.1], [0.3, 0.2, -1.0]], [[-2.0, 1.0, 0.0], [1.0, -3.0, -1.0], [0.0, -1.0, -4.0]])]


def deviations(n):
    e = np.zeros((n, n))
    e[1, 0] = 0.4
    f = np.diag([0.3] + [0.0] * (n - 1))
    g = np.zeros((n, n))
    g[0, 1], g[1, 1] = -0.3, 0.2
    return [[np.zeros((n, n))], [e, -e], [e + f, g, -f]]


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def lpv(ctx, k, depth):
    """Every sequence of dynamics and perturbations of an uncertain system."""
    m = iv()
    a0, n, dt = DYNAMICS[k], len(DYNAMICS[k]), 0.1
    for da in deviations(n):
        # values of the parameters: nominal, each vertex and the middle of the polytope
        mats = [a0] + [a0 + d for d in da] + [a0 + sum(da) / len(da)]
        for bounds, center, width, d, u in itertools.product((0.0, 0.5), (np.zeros(n), np.array([1.0, -2.0, 0.5])[:n]), (0.0, 0.4),
                                                              (np.eye(n)[:, :1], np.array([[1.0, 0], [-1, 0.5], [0, 1]])[:n]), (None, 0.7)):
            if bounds == 0.0 and d.shape[1] > 1:
                continue
            x0 = np.array([1.0, -0.5, 2.0])[:n]
            w = d.shape[1]
            omega = np.array([[-bounds] * w, [bounds * 0.6] * w])
            b = np.array([[0.5], [1.0], [-1.0]])[:n]
            case = dict(a0=a0, da=da, omega=omega, center=center, width=width, d=d, u=u)
            s = quiet(m.LPV, x0.copy(), a0.copy(), [x.copy() for x in da], b=None if u is None else b.copy(), d=d.copy(), omega_i=omega.copy(),
                      u=None if u is None else np.array([[u]]), center=center.copy(), x_i=None if not width else np.array([x0 - width, x0 + 2 * width]))
            starts = [x0] if not width else [x0 + np.array(t) * width for t in itertools.product((-1, 2), repeat=n)] + [x0]
            push = (b * u).ravel() if u is not None else np.zeros(n)
            noises = [np.array(t) for t in itertools.product(*[(omega[0, i], omega[1, i]) for i in range(w)])] if bounds else [np.zeros(w)]
            now = np.array(starts)
            look(ctx, s, now, case, 0)
            for t in range(depth):
                s.step(dt)
                # all the states that can be reached, whatever happened before
                now = np.unique(np.round(np.array([x + dt * (A @ (x - center) + push + d @ o) for x in now for A in mats for o in noises]), 12), axis=0)
                if len(now) > 1500:
                    now = extremes(now)
                look(ctx, s, now, case, t + 1)
                ctx.state((k, repr(case), t))
                ctx.trace(len(now))
    ctx.outcome("system %d" % k)
    ctx.sample(case)


def extremes(xs):
    """The most extreme states in many directions."""
    keep = set()
    for d in directions(xs.shape[1]):
        keep.add(int(np.argmax(xs @ d)))
    for j in range(0, len(xs), max(1, len(xs) // 300)):
        keep.add(j)
    return xs[sorted(keep)]


def look(ctx, s, xs, case, t, key="lpv"):
    box = s.change_coordinates(s.x_i_t, back=True, interval=True)
    ctx.trans(len(xs))
    bad = np.maximum(box[0] - xs, xs - box[1]).max(axis=0) > 1e-7
    ctx.check(np.shape(box) == (2, xs.shape[1]) and not bad.any(), key, "after %d steps, the states %s .. %s are not in the set %s" % (t, xs.min(axis=0), xs.max(axis=0), box), **case)


def feedback(ctx, k, depth):
    """A known linear feedback, with the control computed from the actual state."""
    m = iv()
    a0 = [np.array([[0.0, 1.0], [0.0, 0.0]]), np.array([[0.5, 1.0], [0.0, 0.2]]), np.array([[0.0, 1.0], [1.0, 0.0]]), np.array([[-1.0, 0.3], [0.2, 0.4]])][k]
    b = np.array([[0.0], [1.0]])
    dt = 0.1
    for gain in (np.array([[-6.0, -5.0]]), np.array([[-2.0, -3.0]]), np.zeros((1, 2))):
        for da in deviations(2):
            mats = [a0] + [a0 + d for d in da]
            for seq in itertools.product(range(3 * len(mats)), repeat=depth - 1):
                if depth > 3 and len(mats) > 2 and (sum(seq) + seq[0] * seq[-1]) % 5:
                    continue
                x = np.array([1.0, -0.5])
                s = quiet(m.LPV, x.copy(), a0.copy(), [d.copy() for d in da], b=b.copy(), d=np.array([[0.0], [1.0]]), omega_i=np.array([[-0.3], [0.2]]), u=np.array([[0.0]]), k=gain.copy())
                case = dict(a0=a0, gain=gain, da=da, sequence=seq)
                for t, c in enumerate(seq):
                    control = np.array([(-1.0, 0.0, 2.0)[c % 3]])
                    s.set_control(control[:, np.newaxis], state=x[:, np.newaxis])
                    s.step(dt)
                    o = (-0.3, 0.2, 0.1)[(c + t) % 3]
                    x = x + dt * (mats[c // 3] @ x + b @ control + np.array([0.0, o]))
                    look(ctx, s, x[np.newaxis], case, t + 1, key="feedback")
                ctx.state((k, repr(gain), len(da), seq))
                ctx.trace()
    ctx.sample(case)


ANGLES = (0.0, 0.3, np.pi / 4, np.pi / 2, -2.0, 3.0)


def boxes():
    a, b = hw.LinearVehicle.ACCELERATION_RANGE, hw.LinearVehicle.STEERING_RANGE
    ta = [a[list(i), range(3)] for i in itertools.product((0, 1), repeat=3)] + [a.mean(axis=0)]
    tb = [b[list(i), range(2)] for i in itertools.product((0, 1), repeat=2)] + [b.mean(axis=0)]
    return ta, tb


def scene(cls, angle, s, y, h, speed, target, front=None):
    road = hw.make_road(hw.straight(1, angle=angle))
    lane = road.network.get_lane(("0", "1", 0))
    car = cls(road, lane.position(s, y), heading=lane.heading_at(s) + h, speed=speed, target_speed=target, enable_lane_change=False, timer=0)
    road.vehicles.append(car)
    if front:
        road.vehicles.append(hw.LinearVehicle(road, lane.position(s + front[0], 0), heading=lane.heading_at(s), speed=front[1], target_speed=front[1], enable_lane_change=False, timer=0))
    return road, car


def follow(ctx, mode, steps, args, params, key, case):
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    pred, car = scene(IntervalVehicle, *args)
    reals = []
    for a, b in params:
        road, v = scene(hw.LinearVehicle, *args)
        v.ACCELERATION_PARAMETERS, v.STEERING_PARAMETERS = a, b
        reals.append((road, v))
    for t in range(steps):
        pred.act()
        quiet(car.step, 1 / 15, mode=mode)
        for v in pred.vehicles[1:]:
            v.step(1 / 15)
        for (road, v), (a, b) in zip(reals, params):
            road.act()
            road.step(1 / 15)
            i = car.interval
            for name, value, bounds in (("x", v.position[0], i.position[:, 0]), ("y", v.position[1], i.position[:, 1]), ("heading", v.heading, i.heading), ("speed", v.speed, i.speed)):
                ctx.trans()
                ctx.check(bounds[0] - 1e-6 <= value <= bounds[1] + 1e-6, key(name),
                          "%s=%.4f is not in %s after %d steps with parameters %s %s" % (name, value, bounds, t + 1, a, b), **case)
    ctx.trace(len(params))


def vehicle(ctx, mode, a, steps, q):
    ta, tb = boxes()
    params = list(zip(ta, tb + tb)) if q else list(itertools.product(ta, tb))
    for y, h, (v, tgt) in itertools.product((0.0, 0.05, -0.05), (0.0, 0.02, -0.01), ((20, 20), (20, 25), (25, 20), (10, 20), (28, 30), (15, 12))):
        case = dict(mode=mode, angle=ANGLES[a], offset=y, heading=h, speed=v, target=tgt)

        def key(name):
            # the heading is used as a lateral speed: exact on the centre line only
            return "vehicle/%s/%s/angle %.2f%s" % (mode, name, ANGLES[a], "/off centre" if y and name == "heading" and mode == "predictor" else "")
        follow(ctx, mode, steps, (ANGLES[a], 100.0, y, h, v, tgt), params, key, case)
        ctx.state((mode, a, y, h, v, tgt))
    ctx.sample(case)


def front(ctx, mode):
    ta, tb = boxes()
    for gap, fv, v, tgt in ((250.0, 30.0, 20, 20), (250.0, 30.0, 25, 20), (30.0, 15.0, 20, 20), (60.0, 20.0, 25, 20), (60.0, 20.0, 20, 20), (30.0, 15.0, 10, 20)):
        case = dict(mode=mode, gap=gap, front_speed=fv, speed=v, target=tgt)
        follow(ctx, mode, 30, (0.0, 100.0, 0.0, 0.0, v, tgt, (gap, fv)), list(zip(ta, tb + tb)),
               lambda name: "front/%s/%s/%d m %d m/s from %d m/s" % (mode, name, gap, fv, v), case)
        ctx.state((mode, gap, fv, v, tgt))
    ctx.sample(case)


SIDES = (0.0, np.pi / 2, np.pi, 0.5)


def extent(length, width, heading, axis):
    return (length * abs(np.cos(heading - axis)) + width * abs(np.sin(heading - axis))) / 2


def apart(low, high, heading, size, other, oheading, osize):
    """Is a body which may be anywhere in a box certainly apart from another one?"""
    centre, half = (low + high) / 2, (high - low) / 2
    for axis in (0.0, np.pi / 2, heading, heading + np.pi / 2, oheading, oheading + np.pi / 2):
        u = np.array([np.cos(axis), np.sin(axis)])
        if abs((other - centre) @ u) > np.abs(half * u).sum() + extent(*size, heading, axis) + extent(*osize, oheading, axis) + 1e-6:
            return True
    return False


def worst(ctx, h, q):
    """The ego-vehicle collides with what a vehicle may do, the traffic with what it does."""
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    road = hw.make_road(hw.straight(4, angle=0))
    heading = SIDES[h]
    car = IntervalVehicle(road, [100.0, 4.0], heading=heading, speed=20)
    ego = hw.MDPVehicle(road, [100.0, 4.0], speed=15)
    idm = hw.IDMVehicle(road, [100.0, 4.0], speed=15)
    L, W = 5.0, 2.0
    for a, c, b, d in itertools.product((0.0, 5.0, 12.0), (0.0, 4.0, 9.0), (0.0, 1.7), (0.0, 3.1)):
        low, high = np.array([100.0 - a, 4.0 - b]), np.array([100.0 + c, 4.0 + d])
        for oh, x, y in itertools.product((0.0, np.pi / 2, np.pi, -np.pi / 2, 0.35, -0.8), np.linspace(-23.3, 20.1, 21 if q else 43), np.linspace(-8.1, 9.4, 9 if q else 19)):
            where = np.array([100.0 + x, 4.0 + y])
            aligned = abs(np.sin(2 * heading)) < 1e-9 and abs(np.sin(2 * oh)) < 1e-9
            never = apart(low, high, heading, (L, W), where, oh, (L, W))
            always = aligned and not apart(low, high, heading, (0.9 * L - 1e-5, 0.9 * W - 1e-5), where, oh, (0.9 * L, 0.9 * W))
            here, there = car.position * 0 + (100.0, 4.0), apart(np.array([100.0, 4.0]), np.array([100.0, 4.0]), heading, (0.9 * L, 0.9 * W), where, oh, (0.9 * L, 0.9 * W))
            inner = not apart(here, here, heading, (0.9 * L - 1e-5, 0.9 * W - 1e-5), where, oh, (0.9 * L, 0.9 * W))
            case = dict(heading=heading, low=low, high=high, other=where, other_heading=oh)
            for other, yes, no in ((ego, always, never), (idm, inner, there)):
                if not (yes or no):
                    continue
                for order in ((car, other), (other, car)):
                    car.position, car.speed, car.crashed = here.copy(), 20.0, False
                    car.interval.position = np.array([low, high])
                    other.position, other.heading, other.speed, other.crashed = where.copy(), oh, 15.0, False
                    for v, w in (order, order[::-1]):
                        v.check_collision(w)
                    ctx.trans()
                    if not ctx.check((car.crashed, other.crashed) == ((True, True) if yes else (False, False)), "worst/%s" % type(other).__name__,
                                     "crashed: %s and %s, expected %s" % (car.crashed, other.crashed, yes), first=type(order[0]).__name__, **case):
                        break
                    ctx.check((car.speed, other.speed) == ((15.0, 15.0) if yes else (20.0, 15.0)), "worst/speed", "speeds %s and %s" % (car.speed, other.speed), **case)
        ctx.state((h, a, b, c, d))
    ctx.trace()
    ctx.sample(case)
