"""Light configurations of every registered environment, and their actions."""
import gym
import numpy as np

KIN = {"observation": {"type": "Kinematics", "vehicles_count": 4}}
LIGHT = {
    "highway-v0": dict(simulation_frequency=5, vehicles_count=6, lanes_count=3, vehicles_density=1.5),
    "merge-v0": dict(simulation_frequency=5),
    "roundabout-v0": dict(simulation_frequency=5),
    "two-way-v0": dict(simulation_frequency=5),
    "intersection-v0": dict(simulation_frequency=5, initial_vehicle_count=5),
    "intersection-multi-agent-v0": dict(simulation_frequency=5, initial_vehicle_count=4),
    "intersection-multi-agent-v1": dict(simulation_frequency=5, initial_vehicle_count=4),
    "parking-v0": dict(simulation_frequency=10),
    "parking-ActionRepeat-v0": dict(simulation_frequency=5),
    "summon-v0": dict(simulation_frequency=10, vehicles_count=4),
    "summon-ActionRepeat-v0": dict(simulation_frequency=5, vehicles_count=4),
    "lane-keeping-v0": dict(),
}
NAMES = sorted(LIGHT)
MAIN = ["highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0", "intersection-multi-agent-v0", "parking-v0", "summon-v0", "lane-keeping-v0"]


def raw(name, config=None):
    """The environment without the time limit; the tuple multi-agent version keeps its wrapper."""
    env = gym.make(name, config=config) if config else gym.make(name)
    if name == "intersection-multi-agent-v1":
        return env.env if type(env).__name__ == "TimeLimit" else env
    return env.unwrapped


def light(name, seed=0, **extra):
    config = dict(LIGHT[name], **extra)
    env = raw(name, config if name in ("intersection-v0", "intersection-multi-agent-v0") else None)     # making many vehicles takes time
    env.unwrapped.configure(config)
    env.seed(seed)
    obs = env.reset()
    return env, obs


def actions(env):
    """A few actions of the environment's action space."""
    def of(sp):
        if hasattr(sp, "n"):
            return [sp.n - 1, 0, 1] if sp.n == 3 else [3, 0, 1, 2, 4][:sp.n]
        return [np.array([0.8, -0.3][:sp.shape[0]], dtype=np.float32), np.array([-0.5, 1.0][:sp.shape[0]], dtype=np.float32),
                np.array([0.1, 0.0][:sp.shape[0]], dtype=np.float32)]
    sp = env.action_space
    if type(sp).__name__ == "Tuple":
        each = [of(s) for s in sp.spaces]
        n = min(len(e) for e in each)
        return [tuple(e[(i + k) % n] for k, e in enumerate(each)) for i in range(n)]
    return of(sp)
