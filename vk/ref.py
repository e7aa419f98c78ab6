"""Reference definitions of rewards, costs and endings, and helpers to set up environments."""
import gym
import numpy as np

from vk import hw

TOL = 1e-6


def make(name, seed=0, **config):
    env = gym.make(name).unwrapped
    env.configure(config)
    env.seed(seed)
    env.reset()
    return env


def lmap(v, x, y):
    return y[0] + (v - x[0]) * (y[1] - y[0]) / (x[1] - x[0])


def clip(v, a, b):
    return min(max(v, a), b)


def speed_index(car):
    """Index of the target speed among the allowed speeds."""
    n = car.SPEED_COUNT
    return int(round((car.target_speed - car.SPEED_MIN) / (car.SPEED_MAX - car.SPEED_MIN) * (n - 1)))


def on_road(car):
    """None when too close to call."""
    s, r = car.lane.local_coordinates(car.position)
    w = car.lane.width_at(s)
    if min(abs(abs(r) - w / 2), abs(s + 5), abs(s - car.lane.length - 5)) < TOL:
        return None
    return abs(r) <= w / 2 and -5 <= s < car.lane.length + 5


def arrived(car, distance=25):
    if not (car.lane_index[0].startswith("il") and car.lane_index[1].startswith("o")):
        return False
    s = car.lane.local_coordinates(car.position)[0]
    return None if abs(s - distance) < TOL else bool(s >= distance)


def lanes_of_road(env, car):
    return len(env.road.network.graph[car.lane_index[0]][car.lane_index[1]])


def highway_reward(env):
    car, cfg = env.vehicle, env.config
    ok = on_road(car)
    if ok is None:
        return None
    if not ok:
        return 0.0
    lane = car.target_lane_index[2] if isinstance(car, hw.ControlledVehicle) else car.lane_index[2]
    lo, hi = cfg["reward_speed_range"]
    r = cfg["collision_reward"] * bool(car.crashed) + 0.1 * lane / max(lanes_of_road(env, car) - 1, 1) \
        + 0.4 * clip((car.speed - lo) / (hi - lo), 0, 1)
    return lmap(r, (cfg["collision_reward"], 0.5), (0, 1))


def merge_reward(env, action):
    car = env.vehicle
    r = -1.0 * bool(car.crashed) + 0.1 * car.lane_index[2] + 0.2 * speed_index(car) / (car.SPEED_COUNT - 1)
    for v in env.road.vehicles:
        if tuple(v.lane_index) == ("b", "c", 2) and isinstance(v, hw.ControlledVehicle):
            r += -0.5 * (v.target_speed - v.speed) / v.target_speed
    if action in (0, 2):
        r -= 0.05
    return lmap(r, (-1.55, 0.3), (0, 1))


def roundabout_reward(env, action):
    car = env.vehicle
    r = -1.0 * bool(car.crashed) + 0.2 * speed_index(car) / 2 - 0.05 * (action in (0, 2))
    return lmap(r, (-1.05, 0.2), (0, 1))


def two_way_reward(env):
    car = env.vehicle
    n = lanes_of_road(env, car)
    return 0.8 * speed_index(car) / (car.SPEED_COUNT - 1) + 0.2 * (n - 1 - car.target_lane_index[2]) / (n - 1)


def intersection_agent_reward(env, car):
    cr = env.config["collision_reward"]
    a = arrived(car)
    if a is None:
        return None
    r = 1.0 if a else cr * bool(car.crashed) + 1.0 * (speed_index(car) == car.SPEED_COUNT - 1)
    return lmap(r, (cr, 1.0), (0, 1)) if env.config["normalize_reward"] else r


def intersection_reward(env):
    rs = [intersection_agent_reward(env, c) for c in env.controlled_vehicles]
    return None if None in rs else sum(rs) / len(rs)


GOAL_WEIGHTS = (1, 0.3, 0, 0, 0.02, 0.02)


def goal_reward(achieved, desired, crashed=False, summon=False, p=0.5):
    d = sum(w * abs(a - b) for w, a, b in zip(GOAL_WEIGHTS, achieved, desired))
    return -d ** p - (5.0 if summon and crashed else 0.0)


def goal_state(body, scales=(100, 100, 5, 5, 1, 1)):
    """The scaled state of a vehicle, or of a landmark (which does not move)."""
    v = getattr(body, "speed", 0) if isinstance(body, hw.Vehicle) else 0.0
    c, s = np.cos(body.heading), np.sin(body.heading)
    return tuple(x / k for x, k in zip((body.position[0], body.position[1], v * c, v * s, c, s), scales))


def success(env, car):
    """None when too close to call."""
    r = goal_reward(goal_state(car), goal_state(env.goal), env.vehicle.crashed, "ummon" in type(env).__name__)
    return None if abs(r + 0.12) < TOL else r > -0.12


def terminal(env, name, steps):
    """Should the episode be over after that many steps?  None when too close to call."""
    car, cfg = env.vehicle, env.config
    kind = name.split("-")[0]
    if kind == "highway":
        if car.crashed or steps >= cfg["duration"] * cfg["policy_frequency"]:
            return True
        if not cfg["offroad_terminal"]:
            return False
        ok = on_road(car)
        return None if ok is None else not ok
    if kind == "merge":
        if abs(car.position[0] - 370) < TOL:
            return None
        return bool(car.crashed or car.position[0] > 370)
    if kind == "roundabout":
        return bool(car.crashed or steps >= cfg["duration"])
    if kind == "two":
        return bool(car.crashed)
    if kind == "intersection":
        if any(c.crashed for c in env.controlled_vehicles) or steps >= cfg["duration"] * cfg["policy_frequency"]:
            return True
        a = [arrived(c) for c in env.controlled_vehicles]
        return False if False in a else None if None in a else True
    if kind in ("parking", "summon"):
        if any(c.crashed for c in env.controlled_vehicles) or steps >= cfg["duration"]:
            return True
        a = [success(env, c) for c in env.controlled_vehicles]
        return False if False in a else None if None in a else True
    if kind == "lane":
        return False
    raise ValueError(name)
