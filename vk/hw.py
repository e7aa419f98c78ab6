"""Small scene builders around the public API of highway-env."""
import numpy as np

from highway_env.road.lane import LineType, StraightLane, SineLane, CircularLane
from highway_env.road.road import Road, RoadNetwork
from highway_env.road.objects import Obstacle, Landmark
from highway_env.vehicle.kinematics import Vehicle
from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle


def straight(lanes=3, length=10000, angle=0.0):
    return RoadNetwork.straight_road_network(lanes, length, angle)


def make_road(net, seed=0, history=False):
    return Road(network=net, vehicles=[], road_objects=[], np_random=np.random.RandomState(seed),
                record_history=history)


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def rect_corners(pos, length, width, heading):
    c, s = np.cos(heading), np.sin(heading)
    out = []
    for a, b in ((1, 1), (1, -1), (-1, -1), (-1, 1)):
        lx, ly = a * length / 2, b * width / 2
        out.append((pos[0] + c * lx - s * ly, pos[1] + s * lx + c * ly))
    return out


def separation(c1, c2):
    """Signed separation of two convex polygons along the best separating axis (> 0: disjoint)."""
    best = -np.inf
    for poly in (c1, c2):
        n = len(poly)
        for i in range(n):
            x1, y1 = poly[i]
            x2, y2 = poly[(i + 1) % n]
            nx, ny = y2 - y1, x1 - x2
            d = (nx * nx + ny * ny) ** 0.5
            nx, ny = nx / d, ny / d
            a = [nx * x + ny * y for x, y in c1]
            b = [nx * x + ny * y for x, y in c2]
            best = max(best, min(b) - max(a), min(a) - max(b))
    return best


def footprint_gap(b1, b2, ratio=0.9):
    return separation(rect_corners(b1.position, ratio * b1.LENGTH, ratio * b1.WIDTH, b1.heading),
                      rect_corners(b2.position, ratio * b2.LENGTH, ratio * b2.WIDTH, b2.heading))


def env_networks():
    """The road networks of every registered environment, by name."""
    import gym
    nets = {}
    for name in ENVS:
        env = gym.make(name).unwrapped
        env.seed(0)
        env.reset()
        nets[name] = env.road.network
    return nets


ENVS = ["highway-v0", "merge-v0", "roundabout-v0", "intersection-v0", "intersection-multi-agent-v0",
        "intersection-multi-agent-v1", "parking-v0", "parking-ActionRepeat-v0", "summon-v0",
        "summon-ActionRepeat-v0", "two-way-v0", "lane-keeping-v0"]
