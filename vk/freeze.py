"""Canonical values of object graphs, and of what can be seen of an environment."""
import types

import numpy as np

SKIP = {"viewer", "automatic_rendering_callback"}


def freeze(root, skip=SKIP):
    """A value equal for two graphs exactly when they have the same structure and contents.

    Objects (not plain containers, arrays and numbers) are numbered by first visit, so aliasing between objects counts."""
    seen = {}

    def f(o):
        if o is None or isinstance(o, (bool, str, bytes)):
            return o
        if isinstance(o, (int, np.integer)):
            return int(o)
        if isinstance(o, (float, np.floating)):
            return repr(float(o))
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                return ("a", o.shape, tuple(f(x) for x in o.ravel()))
            return ("a", o.shape, np.ascontiguousarray(o).tobytes())
        if isinstance(o, np.random.RandomState):
            s = o.get_state()
            return ("rng", s[0], s[1].tobytes(), s[2], s[3], s[4])
        if isinstance(o, (list, tuple)):
            return (type(o).__name__,) + tuple(f(x) for x in o)
        if type(o).__name__ == "deque":
            return ("deque",) + tuple(f(x) for x in o)
        if isinstance(o, dict):
            return ("dict",) + tuple((f(k), f(v)) for k, v in o.items())
        if isinstance(o, (set, frozenset)):
            return ("set",) + tuple(sorted(map(repr, map(f, o))))
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            return ("name", getattr(o, "__qualname__", getattr(o, "__name__", "?")))
        if isinstance(o, types.MethodType):
            return ("method", o.__func__.__qualname__, f(o.__self__))
        if id(o) in seen:
            return ("ref", seen[id(o)])
        seen[id(o)] = len(seen)
        d = getattr(o, "__dict__", None)
        if d is None:
            return ("obj", type(o).__name__, repr(o) if type(o).__repr__ is not object.__repr__ else "")
        return ("obj", type(o).__name__) + tuple((k, f(v)) for k, v in d.items() if k not in skip)

    return f(root)


def digest(x):
    """A short digest of anything freezable."""
    import hashlib
    return hashlib.blake2b(repr(freeze(x)).encode(), digest_size=8).hexdigest()


def value(x):
    """Rounded value of an observation, action, reward or info, comparable with ==."""
    if isinstance(x, dict):
        return tuple((k, value(x[k])) for k in sorted(x, key=str))
    if isinstance(x, (list, tuple)):
        return tuple(value(y) for y in x)
    if isinstance(x, np.ndarray):
        return (x.shape, np.round(x.astype(float), 9).tobytes()) if x.dtype != object else tuple(value(y) for y in x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return round(float(x), 9) + 0.0
    return x


def body(v):
    return (type(v).__name__, value(np.asarray(v.position)), value(v.heading), value(v.speed), bool(getattr(v, "crashed", False)), bool(getattr(v, "hit", False)),
            value(getattr(v, "target_lane_index", None)), value(getattr(v, "target_speed", None)), value(getattr(v, "timer", None)),
            value(getattr(v, "route", None)), value(getattr(v, "lane_index", None)), bool(getattr(v, "enable_lane_change", True)),
            value(getattr(v, "lateral_speed", 0)), value(getattr(v, "yaw_rate", 0)))


def scene(env):
    """The observable state of an environment: clock and bodies."""
    road = env.road
    return (env.time, env.steps, tuple(body(v) for v in road.vehicles), tuple(body(o) for o in road.objects),
            tuple(road.vehicles.index(c) if c in road.vehicles else -1 for c in env.controlled_vehicles))


def constants():
    """Identities of the containers and arrays of modules and classes, and of what they contain."""
    import sys
    seen, todo = set(), [m for k, m in list(sys.modules.items()) if k.split(".")[0] in ("highway_env", "gym")]
    for m in todo[:]:
        todo += [x for x in vars(m).values() if isinstance(x, type) or isinstance(x, (list, dict, tuple, set, np.ndarray, types.FunctionType)) and x is not vars(m)]
    todo = [x for x in todo if not isinstance(x, types.ModuleType)]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, type):
            seen.add(id(o))
            if o.__module__.split(".")[0] in ("highway_env", "gym"):
                todo += list(vars(o).values())
        elif isinstance(o, (list, tuple, set, frozenset, dict, np.ndarray)):
            seen.add(id(o))
            if isinstance(o, dict):
                todo += list(o.values())
            elif not isinstance(o, np.ndarray):
                todo += list(o)
        elif isinstance(o, types.FunctionType) and o.__defaults__:
            todo += list(o.__defaults__)
    return seen


def scribble(root, skip=SKIP):
    """Write into everything that can be written and draw from every random source of a graph of objects."""
    seen, arrays, rngs, lists, dicts, objects = constants(), [], [], [], [], []
    todo = [root]
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (bool, str, bytes, int, float, np.generic, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)) or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                todo += list(o.ravel())
            elif o.flags.writeable and o.dtype.kind == "f":
                arrays.append(o)
        elif isinstance(o, np.random.RandomState):
            rngs.append(o)
        elif isinstance(o, (list, tuple)) or type(o).__name__ == "deque":
            todo += list(o)
            if not isinstance(o, tuple):
                lists.append(o)
        elif isinstance(o, dict):
            todo += list(o.values())
            dicts.append(o)
        elif isinstance(o, types.MethodType):
            todo.append(o.__self__)
        elif isinstance(getattr(o, "__dict__", None), dict):
            todo += [v for k, v in o.__dict__.items() if k not in skip]
            objects.append(o)
    for a in arrays:
        a += 1.5
    for r in rngs:
        r.random_sample(3)
    for x in lists:
        x.append(None)
    for d in dicts:
        d["_scribble"] = 1
    for o in objects:
        o.__dict__["_scribble"] = 1
    return len(arrays) + len(rngs) + len(lists) + len(dicts) + len(objects)
