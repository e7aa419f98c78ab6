"""C30: estimating the behaviour of linear vehicles is passive, and keeps what is true."""
import copy
import itertools

import gym
import numpy as np

from highway_env import utils
from highway_env.road.lane import CircularLane, LineType, StraightLane
from highway_env.road.road import RoadNetwork
from highway_env.vehicle.behavior import AggressiveVehicle, DefensiveVehicle, LinearVehicle
from highway_env.vehicle.uncertainty.estimation import MultipleModelVehicle, RegressionVehicle
from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
from vk import envs, freeze, hw

PROP = "C30"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "datasets: all sequences of up to 3 features from menus (2 and 3 dimensions) x parameters on a lattice of the box x disturbances, with every candidate parameter of a finer lattice; a last "
             "observation at 9 distances of the bound; vehicles: 5 classes of linear vehicles in traffic (4 environments x 3 seeds x 3 action sequences) and on chained roads; possible routes: every route of "
             "the intersection and of a tree of roads x 3 speeds x 3 offsets x 5 parameters x 2 rates, at every frame, and every copy assumed to follow one",
    "thorough": "sequences of up to 4 features, 8 seeds, 5 offsets, 5 speeds"}
ASSUMPTIONS = ["possible routes are judged on networks of single lanes, as unspecified lanes are taken to be the first ones", "sigma = 0.1 and delta = 0.1, as in the code's defaults"]

PHI2 = [(0.1, 0.0), (0.0, 0.1), (0.05, 0.05), (0.2, -0.1), (0.3, 0.31), (-0.02, 0.4), (1.0, -2.0)]
PHI3 = [(1.0, 0.0, 0.0), (5.0, -3.0, 0.0), (5.0, -3.0, -10.0), (-2.0, 0.0, -4.0), (0.3, -0.2, -0.1)]
BOXES = {"steering": (LinearVehicle.STEERING_RANGE, PHI2), "acceleration": (LinearVehicle.ACCELERATION_RANGE, PHI3), "skewed": (np.array([[-1.0, 2.0], [0.5, 7.0]]), PHI2)}
CLASSES = {"linear": LinearVehicle, "aggressive": AggressiveVehicle, "defensive": DefensiveVehicle, "interval": IntervalVehicle, "regression": RegressionVehicle, "multiple": MultipleModelVehicle}
PATHS = {k: "%s.%s" % (c.__module__, c.__name__) for k, c in CLASSES.items()}


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for b in BOXES:
        n = len(BOXES[b][1])
        for k in range(n):
            out.append(("datasets", (b, k, 3 if q else 4)))
    for cls in CLASSES:
        for name in ("intersection-v0", "roundabout-v0", "highway-v0", "merge-v0"):
            out.append(("passive", (cls, name, 3 if q else 8)))
        out.append(("chained", (cls,)))
        if cls in ("linear", "multiple"):
            out.append(("ring", (cls,)))
    out += [("models", (front,)) for front in (None, (400.0, 12.0), (400.0, 29.0))]
    for net in NETS:
        for k in range(len(NETS[net]()[1])):
            for rate in (5, 15):
                out.append(("routes", (net, k, rate, q)))
    return out


# -- estimation ------------------------------------------------------------------------------------

def lattice(box, n):
    return np.array([box[0] + np.array(t) * (box[1] - box[0]) for t in itertools.product(np.linspace(0, 1, n), repeat=box.shape[1])])


def directions(d):
    """Directions along which a convex region is compared with points."""
    v = np.array([x for x in itertools.product(range(-3, 4), repeat=d) if any(x)], dtype=float)
    return v / np.linalg.norm(v, axis=1)[:, None]


def datasets(ctx, name, first, length):
    box, menu = BOXES[name]
    d = box.shape[1]
    truth = lattice(box, 4 if d == 2 else 3)
    fine = lattice(box, 13 if d == 2 else 7)
    width = box[1] - box[0]
    base = directions(d) / width
    for n in range(1, length + 1):
        for rest in itertools.combinations_with_replacement(range(len(menu)), n - 1):
            phi = np.array([menu[first]] + [menu[k] for k in rest])
            for theta, disturbed in itertools.product(truth, (0.0, 0.05)):
                noise = disturbed * np.array([(-1) ** k for k in range(n)])
                y = phi @ theta + noise
                data = dict(features=[p for p in phi], outputs=list(y))
                case = dict(box=name, features=phi, theta=theta, disturbance=disturbed)
                before = freeze.digest(data)
                bound = np.abs(box).max()
                est, gram, beta = utils.confidence_ellipsoid(data, param_bound=bound)
                g = phi.T @ phi / 0.1 + 1e-5 * np.eye(d)
                ctx.check(np.allclose(gram, g, rtol=1e-6, atol=1e-9), "ellipsoid/gramian/%s" % name, "the Gramian is %s instead of %s" % (gram, g), **case)
                ctx.check(np.allclose(g @ est, phi.T @ y / 0.1, rtol=1e-6, atol=1e-7), "ellipsoid/estimate/%s" % name, "%s is not the regularised least squares estimate" % est, **case)
                radius = np.sqrt(2 * np.log(10 * np.sqrt(np.linalg.det(g) / 1e-5 ** d))) + np.sqrt(1e-5 * d) * bound
                ctx.check(abs(beta - radius) <= 1e-6 * radius, "ellipsoid/radius/%s" % name, "the radius is %s instead of %s" % (beta, radius), **case)
                # Abbasi-Yadkori's bound: without a disturbance, the true parameter is always inside
                norm = lambda x: np.sqrt(max(float((x - est) @ g @ (x - est)), 0.0))
                ctx.check(norm(theta) <= beta * (1 + 1e-6), "ellipsoid/truth/%s" % name, "the true parameter is outside of the ellipsoid", **case)
                centre, moves, g2, b2 = utils.confidence_polytope(data, parameter_box=box)
                vertices = centre + np.array(moves)
                tol = 1e-6 * width
                ctx.check(np.all(vertices >= box[0] - tol) and np.all(vertices <= box[1] + tol), "polytope/box/%s" % name, "vertices %s leave the box" % vertices, **case)
                ctx.check(np.all(centre >= box[0] - tol) and np.all(centre <= box[1] + tol), "polytope/centre/%s" % name, "the estimate %s is outside of the box" % centre, **case)
                if np.all(est >= box[0]) and np.all(est <= box[1]):
                    ctx.check(np.allclose(centre, est, atol=1e-6), "polytope/estimate/%s" % name, "the estimate %s became %s" % (est, centre), **case)
                # the points of the ellipsoid within the box are in the convex hull of the vertices: no direction separates them
                delta = fine - est
                inside = fine[np.einsum("ij,jk,ik->i", delta, g, delta) <= (beta * (1 - 1e-6)) ** 2]
                inside = np.vstack([inside, theta])
                _, axes = np.linalg.eigh(g)
                ways = np.vstack([base, axes.T, -axes.T])
                excess = (inside @ ways.T).max(axis=0) - (vertices @ ways.T).max(axis=0)
                k = int(np.argmax(excess))
                ctx.check(excess[k] <= 1e-5 * np.linalg.norm(width) * np.linalg.norm(ways[k]) + 1e-9, "polytope/inclusion/%s" % name,
                          "parameters of the confidence ellipsoid are outside of the polytope (by %s along %s)" % (excess[k], ways[k]), vertices=vertices, **case)
                # neither is it needlessly large: its vertices are within the ellipsoid's circumscribed boxes
                reach = np.minimum(np.sqrt(np.diag(np.linalg.inv(g))) * beta * d, width)
                ctx.check(np.all(np.abs(vertices - centre) <= np.maximum(reach, np.abs(centre - est) + reach) * 1.001 + 1e-6), "polytope/size/%s" % name,
                          "the polytope extends %s from the estimate, the ellipsoid %s" % (np.abs(vertices - centre).max(axis=0), reach), **case)
                if n > 1:
                    ctx.check(utils.is_consistent_dataset(data, parameter_box=box) or disturbed, "consistency/truth/%s" % name, "the data of a linear vehicle is rejected", **case)
                    margin(ctx, name, box, data, case)
                else:
                    ctx.check(utils.is_consistent_dataset(data, parameter_box=box), "consistency/single/%s" % name, "a single observation is rejected", **case)
                ctx.check(freeze.digest(data) == before, "data/%s" % name, "estimating changed the dataset", **case)
                ctx.trans(4)
                ctx.state((name, phi.tobytes(), theta.tobytes(), disturbed))
            ctx.outcome("dataset of %d" % n)
            ctx.trace()
    ctx.sample(case)


def margin(ctx, name, box, data, case):
    """The last observation is rejected exactly when its distance to the prediction exceeds the bound."""
    train = dict(features=data["features"][:-1], outputs=data["outputs"][:-1])
    est, g, beta = utils.confidence_ellipsoid(train, param_bound=np.abs(box).max())
    est = np.clip(est, box[0], box[1])
    phi = np.array(data["features"][-1])
    bound = np.linalg.norm(phi) / np.sqrt(np.linalg.eigvalsh(g).min()) * beta + 0.1
    for r in (0.0, 0.5, 0.95, 1.05, 3.0):
        for s in (-1, 1):
            y = est @ phi + s * r * bound
            got = utils.is_consistent_dataset(dict(features=data["features"], outputs=data["outputs"][:-1] + [y]), parameter_box=box)
            ctx.check(bool(got) == (r < 1), "consistency/bound/%s" % name, "an observation at %s times the bound is %s" % (r, "accepted" if got else "rejected"), **case)
            ctx.trans()


def models(ctx, front):
    """The linear models that a regression vehicle considers include its own, and no others than those of its parameters."""
    for speed, acc, lat, frames in itertools.product((18.0, 25.0), itertools.product(*[(0.0, 0.5, 1.0)] * 2), itertools.product((0.0, 1.0), repeat=2), (0, 1, 4)):
        boxes = {"longitudinal": LinearVehicle.ACCELERATION_RANGE, "lateral": LinearVehicle.STEERING_RANGE}
        theta = {k: b[0] + np.array((acc + (0.5,))[:3] if k == "longitudinal" else lat) * (b[1] - b[0]) for k, b in boxes.items()}
        road = hw.make_road(hw.straight(2))
        car = LinearVehicle(road, road.network.get_lane(("0", "1", 0)).position(50, 0.8), 0.05, speed, target_speed=22.0, enable_lane_change=False)
        car.ACCELERATION_PARAMETERS, car.STEERING_PARAMETERS, car.collecting_data = theta["longitudinal"], theta["lateral"], True
        road.vehicles.append(car)
        if front:
            road.vehicles.append(hw.Vehicle(road, road.network.get_lane(("0", "1", 0)).position(50 + front[0], 0), 0.0, front[1]))
        for _ in range(frames):
            road.act()
            road.step(0.2)
        case = dict(front=front, speed=speed, theta=theta, frames=frames)
        est = RegressionVehicle.create_from(car)
        est.theta_a_i, est.theta_b_i = boxes["longitudinal"], boxes["lateral"]
        road.vehicles[0] = est
        for kind, box in boxes.items():
            a, phi = getattr(est, kind + "_structure")()
            if not frames:
                est.data = {"longitudinal": {}, "lateral": {}}
            before = freeze.digest(est.data)
            a0, moves = getattr(est, kind + "_matrix_polytope")()
            ctx.check(freeze.digest(est.data) == before, "models/data/%s" % kind, "the recorded data was changed", **case)
            vertices = np.array([a0 + m for m in moves])
            truth = a + np.tensordot(theta[kind], phi, axes=[0, 0])
            basis = np.array(phi).reshape(len(phi), -1).T
            for m in vertices:
                rest = (m - a).reshape(-1)
                rest = rest - basis @ np.linalg.lstsq(basis, rest, rcond=None)[0]
                ctx.check(np.abs(rest).max() < 1e-6, "models/structure/%s" % kind, "a model considered is not the one of any parameter: %s" % np.round(rest.reshape(np.shape(a)), 4), **case)
            corners = np.array([a + np.tensordot(t, phi, axes=[0, 0]) for t in lattice(box, 2)])
            width = np.abs(box[1] - box[0])
            for way in directions(len(width)):
                d = np.tensordot(way / width, phi, axes=[0, 0])
                reach = (vertices * d).sum(axis=(1, 2)).max()
                ctx.check((truth * d).sum() <= reach + 1e-6, "models/truth/%s" % kind, "the model of the vehicle is outside of the polytope of models by %s" % ((truth * d).sum() - reach), way=way, **case)
                limit = (corners * d).sum(axis=(1, 2)).max()
                ctx.check(reach <= limit + 1e-6, "models/box/%s" % kind, "the polytope of models exceeds the parameters by %s" % (reach - limit), way=way, **case)
                if not frames:
                    ctx.check(limit <= reach + 1e-6, "models/all/%s" % kind, "without data the models of some parameters are missing", way=way, **case)
                ctx.trans()
        # the longitudinal model predicts the acceleration of the real vehicle as long as nothing is close
        a, phi = est.longitudinal_structure()
        for v in (est.speed, 15.0, 30.0):
            est.speed = car.speed = v
            lead = road.vehicles[1] if front else None
            a, phi = est.longitudinal_structure()
            model = a + np.tensordot(theta["longitudinal"], phi, axes=[0, 0])
            state = np.array([est.position[0], lead.position[0] if lead else 0.0, v - est.target_speed, (lead.speed if lead else est.target_speed) - est.target_speed])
            want = np.array([v, lead.speed if lead else est.target_speed, car.acceleration(car, lead)])
            got = (model @ state)[:3] + [est.target_speed, est.target_speed, 0]
            if abs(want[2]) < LinearVehicle.ACC_MAX - 1e-3:
                ctx.check(np.allclose(got, want, atol=1e-6), "models/dynamics", "the model moves like %s, the vehicle like %s" % (got, want), v=v, **case)
                ctx.outcome("dynamics %s" % bool(front))
            ctx.trans()
        ctx.state((front, speed, acc, lat, frames))
        ctx.trace()
    ctx.sample(case)


# -- behaviour -------------------------------------------------------------------------------------

def recording(road, on):
    for v in road.vehicles:
        if isinstance(v, LinearVehicle):
            v.collecting_data = on


def passive(ctx, cls, name, seeds):
    """Vehicles which estimate act as those that do not; what they record explains their commands."""
    for seed in range(seeds):
        env = gym.make(name).unwrapped
        env.configure({"other_vehicles_type": PATHS[cls], "simulation_frequency": 5, "policy_frequency": 1})
        if name == "roundabout-v0":
            env.configure({"duration": 100})
        if name == "highway-v0":
            env.configure({"vehicles_count": 6})
        env.seed(ctx.seed * 100 + seed)
        env.reset()
        for action in range(3):
            a, b = copy.deepcopy(env), copy.deepcopy(env)
            for t in range(30 if cls == "multiple" and name == "roundabout-v0" else 8):
                recording(b.road, False)
                case = dict(cls=cls, name=name, seed=ctx.seed * 100 + seed, action=action, step=t)
                stored = [freeze.digest(v.data) if hasattr(v, "data") else None for v in b.road.vehicles]
                cars = list(b.road.vehicles)
                outa, outb = a.step(action), b.step(action)
                ctx.check(freeze.value(outa[:3]) == freeze.value(outb[:3]) and freeze.scene(a) == freeze.scene(b), "passive/%s/%s" % (cls, name),
                          "vehicles which collect data move differently", **case)
                ctx.check(all(freeze.digest(v.data) == s for v, s in zip(cars, stored) if s is not None and cls != "multiple"), "off/%s/%s" % (cls, name), "data was collected although it is disabled", **case)
                explained(ctx, cls, name, a, case)
                ctx.state((cls, name, seed, action, t))
                ctx.trans(2)
                if outa[2]:
                    break
            ctx.trace()
            ctx.outcome("%s in %s" % (cls, name))
    ctx.sample(case)


def explained(ctx, cls, name, env, case):
    """One more frame on a copy: the outputs recorded are the commands given, and depend linearly on the features."""
    env = copy.deepcopy(env)
    cars = [v for v in env.road.vehicles if isinstance(v, LinearVehicle) and not isinstance(v, MultipleModelVehicle)]
    for v in cars:
        n = len(v.data.get("lateral", {}).get("outputs", []))
        target, lane = v.target_lane_index, v.lane_index
        v.act()
        for part, params in (("longitudinal", v.ACCELERATION_PARAMETERS), ("lateral", v.STEERING_PARAMETERS)):
            d = v.data[part]
            ctx.check(len(d["features"]) == len(d["outputs"]) and len(d["outputs"]) == n + 1 - bool(v.crashed and len(d["outputs"]) == n), "records/count/%s" % part, "%d features and %d outputs after %d frames" %
                      (len(d["features"]), len(d["outputs"]), n), **case)
            ctx.check(abs(float(np.dot(params, d["features"][-1])) - float(d["outputs"][-1])) <= 1e-9 * (1 + abs(float(d["outputs"][-1]))), "records/linear/%s" % part, "the output %s is not the product of the features %s and "
                      "the parameters %s" % (d["outputs"][-1], d["features"][-1], params), **case)
        if not v.crashed and v.target_lane_index == target:
            ctx.check(abs(v.action["steering"] - np.clip(v.data["lateral"]["outputs"][-1], -np.pi / 3, np.pi / 3)) < 1e-9, "records/steering", "the command %s was recorded as %s" %
                      (v.action["steering"], v.data["lateral"]["outputs"][-1]), **case)
            if lane == target:
                ctx.check(abs(v.action["acceleration"] - np.clip(v.data["longitudinal"]["outputs"][-1], -v.ACC_MAX, v.ACC_MAX)) < 1e-9, "records/acceleration", "the command %s was recorded as %s" %
                          (v.action["acceleration"], v.data["longitudinal"]["outputs"][-1]), **case)
        ctx.trans()


def chained(ctx, cls):
    """On roads of several lanes that follow each other without any intersection, with routes whose lanes are left open."""
    for lanes, start, speed, other in itertools.product((2, 3), (0, 1), (10.0, 20.0), (None, 15.0)):
        net = RoadNetwork()
        for k in range(6):
            for i in range(lanes):
                net.add_lane(str(k), str(k + 1), StraightLane([60 * k, 4 * i], [60 * k + 60, 4 * i]))
        twins = []
        for on in (True, False):
            road = hw.make_road(copy.deepcopy(net))
            car = CLASSES[cls](road, [5.0, 4.0 * start], 0.0, speed, target_speed=speed)
            car.plan_route_to("6")
            car.collecting_data = on
            road.vehicles.append(car)
            if other is not None:
                road.vehicles.append(LinearVehicle(road, [45.0, 4.0 * start], 0.0, 8.0, target_speed=8.0))
            twins.append(road)
        case = dict(cls=cls, lanes=lanes, start=start, speed=speed, other=other)
        for t in range(100):
            for road in twins:
                road.act()
                road.step(0.2)
            a, b = (freeze.value([freeze.body(v) for v in road.vehicles]) for road in twins)
            if not ctx.check(a == b, "chained/%s" % cls, "vehicles which collect data move differently", frame=t, **case):
                break
            ctx.state((cls, lanes, start, speed, other, t))
            ctx.trans()
        ctx.trace()
    ctx.outcome("chained")
    ctx.sample(case)


def ring(ctx, cls):
    """Alone on the roundabout, from every lane of two roads and an entry to every exit."""
    env = gym.make("roundabout-v0").unwrapped
    env.seed(0)
    env.reset()
    net = env.road.network
    for index, goal, speed, along in itertools.product([("we", "sx", 0), ("we", "sx", 1), ("sx", "se", 0), ("sx", "se", 1), ("ser", "ses", 0)], ("exr", "sxr", "nxr", "wxr"), (8.0, 16.0), (2.0, 12.0)):
        twins = []
        lane = net.get_lane(index)
        for on in (True, False):
            road = hw.make_road(net)
            car = CLASSES[cls](road, lane.position(along, 0), lane.heading_at(along), speed, target_lane_index=index, target_speed=speed)
            car.plan_route_to(goal)
            car.collecting_data = on
            road.vehicles.append(car)
            twins.append(road)
        case = dict(cls=cls, index=index, goal=goal, speed=speed, along=along)
        for t in range(75):
            for road in twins:
                road.act()
                road.step(0.2)
            a, b = (freeze.value([freeze.body(v) for v in road.vehicles]) for road in twins)
            if not ctx.check(a == b, "ring/%s" % cls, "vehicles which collect data move differently", frame=t, **case):
                break
            ctx.state((cls, index, goal, speed, along, t))
            ctx.trans()
        ctx.trace()
    ctx.outcome("ring")
    ctx.sample(case)


# -- possible routes -------------------------------------------------------------------------------

def crossing():
    env = gym.make("intersection-v0").unwrapped
    env.configure({"initial_vehicle_count": 0, "spawn_probability": 0, "duration": 1})
    env.seed(0)
    env.reset()
    return env.road.network, [("o%d" % i, "o%d" % j) for i in range(4) for j in range(4) if i != j]


def tree():
    """A road which forks into three roads: straight, left and right; the last two fork again."""
    net = RoadNetwork()
    n = (LineType.NONE, LineType.NONE)
    net.add_lane("a", "b", StraightLane([-60, 0], [0, 0], line_types=n))
    net.add_lane("b", "c", StraightLane([0, 0], [60, 0], line_types=n))
    for name, side, clockwise in (("l", -1, False), ("r", 1, True)):
        arc = CircularLane([0, 25 * side], 25, -side * np.pi / 2, 0.0, clockwise=clockwise, line_types=n)
        net.add_lane("b", name, arc)
        end = np.array([25.0, 25.0 * side])
        net.add_lane(name, name + "s", StraightLane(end, end + np.array([0, 60.0 * side]), line_types=n))
        arc = CircularLane(end + np.array([25.0, 0]), 25, side * np.pi, side * np.pi / 2, clockwise=not clockwise, line_types=n)
        net.add_lane(name, name + "t", arc)
    return net, [("a", "c"), ("a", "ls"), ("a", "lt"), ("a", "rs"), ("a", "rt")]


NETS = {"intersection": crossing, "tree": tree}
PARAMETERS = [(0.5, 0.5), (0.1, 0.1), (0.9, 0.1), (0.1, 0.9), (0.9, 0.9)]


def branches(net, lane, depth=3):
    """The ways up to and including the roads after the next intersection."""
    way = [lane]
    for _ in range(depth):
        after = list(net.graph.get(way[-1][1], {}))
        if len(after) >= 2:
            return [way + [(way[-1][1], a)] for a in after]
        if not after:
            break
        way.append((way[-1][1], after[0]))
    return [way]


def contained(way, full):
    return any(full[i:i + len(way)] == way for i in range(len(full) - len(way) + 1))


def routes(ctx, netname, index, rate, quick):
    net0, ends = NETS[netname]()
    start, goal = ends[index]
    seen = 0
    for speed, lateral, params, along in itertools.product((6.0, 13.0) if quick else (3.0, 6.0, 9.0, 13.0), (0.0, 1.0) if quick else (0.0, 0.5, 1.0, -0.5, -1.0), PARAMETERS[:1] if quick and rate > 5 else PARAMETERS[::2] if quick else PARAMETERS, (30.0,) if quick and rate > 5 else (5.0, 30.0)):
        net = net0
        road = hw.make_road(net)
        first = next(iter(net.graph[start]))
        lane = net.get_lane((start, first, 0))
        car = MultipleModelVehicle(road, lane.position(along, lateral), lane.heading_at(along), speed, target_speed=speed)
        u = np.array(params)
        car.STEERING_PARAMETERS = list(LinearVehicle.STEERING_RANGE[0] + u * (LinearVehicle.STEERING_RANGE[1] - LinearVehicle.STEERING_RANGE[0]))
        car.plan_route_to(goal)
        road.vehicles.append(car)
        full = [tuple(r[:2]) for r in car.route]
        case = dict(net=netname, start=start, goal=goal, speed=speed, lateral=lateral, parameters=params, along=along, rate=rate)
        ctx.check(full[0] == (start, first) and full[-1][1] == goal, "routes/plan", "the route is %s" % full, **case)
        for t in range(int(400 / speed * rate)):
            lane_now = car.lane_index
            road.act()
            ways = [[tuple(r[:2]) for r in w] for w, _ in car.data]
            ctx.check(all(len(w) for w in ways), "routes/empty", "a possible route has no lane", frame=t, **case)
            ctx.check(all(a[1] == b[0] for w in ways for a, b in zip(w, w[1:])), "routes/connected", "possible routes are not connected: %s" % ways, frame=t, **case)
            ctx.check(len(set(map(tuple, ways))) == len(ways), "routes/distinct", "a possible route is listed twice: %s" % ways, frame=t, **case)
            ctx.check(all(r[2] == 0 for w, _ in car.data for r in w), "routes/lanes", "possible routes have unknown lanes", frame=t, **case)
            if t == 0:
                want = branches(net, full[0])
                ctx.check(sorted(ways) == sorted(want), "routes/first", "the possible routes are %s instead of %s" % (ways, want), **case)
            ctx.check(any(contained(w, full) for w in ways), "routes/followed", "the route followed is not possible any more: %s" % ways, frame=t, lane=lane_now, **case)
            if t % (3 * rate) == rate:
                assumed(ctx, car, case, t)
            ctx.trans()
            ctx.state((netname, index, rate, speed, lateral, params, along, t))
            road.step(1 / rate)
            s, _ = net.get_lane(full[-1] + (0,)).local_coordinates(car.position)
            if tuple(car.lane_index[:2]) == full[-1] and s > net.get_lane(full[-1] + (0,)).length - max(10, 1.5 * speed):
                # on the last road of an intersection, some way after it: every other road was rejected
                if netname == "intersection" and speed <= 10:
                    ctx.check(all(w[-1] == full[-1] for w in ways), "routes/rejected", "%s is still possible at the end of %s" % (ways, full), frame=t, **case)
                seen += 1
                break
        ctx.trace()
        ctx.outcome("followed")
    ctx.check(seen, "routes/end", "the vehicle never arrives")
    ctx.sample(case)


def assumed(ctx, car, case, t):
    before = freeze.digest([car.data, car.route, car.position, car.heading, car.speed, car.target_lane_index])
    for k in range(len(car.data) + 1):
        want = car.data[min(k, len(car.data) - 1)][0]
        v = car.assume_model_is_valid(k)
        ctx.check(v is not car and isinstance(v, LinearVehicle), "assumed/copy", "the copy is %s" % v, index=k, frame=t, **case)
        ctx.check(np.array_equal(v.position, car.position) and v.heading == car.heading and v.speed == car.speed and v.target_speed == car.target_speed, "assumed/state", "the copy starts elsewhere", index=k, frame=t, **case)
        ctx.check(list(v.route) == list(want) and tuple(v.target_lane_index) == tuple(want[0]), "assumed/route", "the copy follows %s instead of %s" % (v.route, want), index=k, frame=t, **case)
        road = hw.make_road(car.road.network)
        road.vehicles.append(v)
        v.road = road
        for _ in range(8):
            v.act()
            v.step(0.2)
        ctx.check(np.all(np.isfinite(v.position)), "assumed/finite", "the copy diverges", index=k, frame=t, **case)
        ctx.trans()
    ctx.check(freeze.digest([car.data, car.route, car.position, car.heading, car.speed, car.target_lane_index]) == before, "assumed/original", "simulating the copy changed the vehicle", frame=t, **case)
