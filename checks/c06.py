"""C06: time-to-collision grids and the finite MDP match constant-speed prediction."""
import itertools
import sys
import types

import numpy as np

from vk import envs, hw, ref
from checks.c15 import connected_ref

PROP = "C06"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "7 road networks (1-4 lanes, successive roads with the same or another number of lanes, a fork, a circular road): all placements of 1 and 2 vehicles from 9-33 positions x "
             "5 speeds, each lane of the observer, 3 time steps and horizons, observers with 2-5 speeds; for each of 64 grids every state and action of the "
             "finite MDP, reachable states by breadth-first search; every observer lane and speed for the TimeToCollision window; all action sequences of "
             "length 2 in 5 environments",
    "thorough": "every seventh placement of 3 vehicles, sequences of length 4"}
ASSUMPTIONS = ["collision times within 1e-6 of a multiple of the time step, and vehicles at exactly one of the observer's speeds but in another direction or overlapping with "
               "it, are not judged",
               "the finite_mdp package is replaced by a stand-in that records the MDP it is given", "the MDP is for the default action set",
               "a relative speed below 0.01 m/s counts as 0.01 m/s"]


class Recorded:
    def __init__(self, transition, reward, terminal=None, state=0, **kw):
        self.transition, self.reward, self.terminal, self.state = transition, reward, terminal, state


def stub():
    pkg, mod = types.ModuleType("finite_mdp"), types.ModuleType("finite_mdp.mdp")
    mod.DeterministicMDP = Recorded
    pkg.mdp = mod
    sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = pkg, mod


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for n in range(7):
        for part in range(4):
            out.append(("grids", (n, part, 4, 2 if q else 3)))
    out += [("mdp", (lanes, part)) for lanes in (1, 2, 3, 4) for part in range(2)]
    out += [("window", (lanes,)) for lanes in (1, 2, 3, 4)]
    for name in ("highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "intersection-v0"):
        out.append(("episodes", (name, seed, 2 if q else 4)))
    return out


def networks(i):
    S = hw.StraightLane
    if i < 3:
        return hw.straight((1, 3, 4)[i], 2000)
    net = hw.RoadNetwork()
    if i == 6:
        for k in range(2):
            net.add_lane("0", "1", hw.CircularLane([0, 0], 200 + 4 * k, 0.0, 6.0))
        return net
    first, second = {3: (3, 3), 4: (3, 2), 5: (2, 2)}[i]
    for k in range(first):
        net.add_lane("0", "1", S([0, 4.0 * k], [300, 4.0 * k]))
    for k in range(second):
        net.add_lane("1", "2", S([300, 4.0 * k], [600, 4.0 * k]))
    if i == 5:
        for k in range(2):
            net.add_lane("1", "3", S([300, 4.0 * k], [500, 200.0 + 4.0 * k]))
            net.add_lane("9", "8", S([0, 40.0 + 4.0 * k], [300, 40.0 + 4.0 * k]))
    return net


def reference(road, me, q, horizon):
    """The grid, and the cells which cannot be judged."""
    graph = road.network.graph
    succ = {a: list(b) for a, b in graph.items()}
    lanes = len(graph[me.lane_index[0]][me.lane_index[1]])
    T = int(round(horizon / q))
    grid = np.zeros((me.SPEED_COUNT, lanes, T))
    unsure = np.zeros(grid.shape, dtype=bool)
    lane = road.network.get_lane(me.lane_index)
    s0 = lane.local_coordinates(me.position)[0]
    heading = np.array([np.cos(me.heading), np.sin(me.heading)])
    for k in range(me.SPEED_COUNT):
        speed = me.SPEED_MIN + (k * (me.SPEED_MAX - me.SPEED_MIN) / (me.SPEED_COUNT - 1) if me.SPEED_COUNT > 1 else 0)
        for o in road.vehicles:
            if o is me or not connected_ref(succ, me.lane_index, o.lane_index, me.route, False, 3):
                continue
            there = len(graph[o.lane_index[0]][o.lane_index[1]])
            cols = [o.lane_index[2]] if there == lanes else list(range(lanes))
            d = lane.local_coordinates(o.position)[0] - s0
            vo = o.speed * float(np.dot([np.cos(o.heading), np.sin(o.heading)], heading))
            margin = (o.LENGTH + me.LENGTH) / 2
            if abs(speed - o.speed) < 1e-9:
                if abs(vo - o.speed) > 1e-9 or abs(d) < margin + 1e-6:
                    unsure[k, cols, :] = True
                elif abs(d) < 0.011 * horizon + margin:
                    unsure[k, cols, :] = True
                continue
            rel = speed - vo
            if abs(abs(rel) - 0.01) < 1e-9 or (abs(rel) < 1e-12):
                unsure[k, cols, :] = True
            if abs(rel) <= 0.01:
                rel = 0.01 if rel > 0 else -0.01
            for m, cost in ((0.0, 1.0), (-margin, 0.5), (margin, 0.5)):
                t = (d + m) / rel
                if abs(t) < 1e-9:
                    unsure[k, cols, 0] = True
                    continue
                if t < 0:
                    continue
                x = t / q
                if abs(x - round(x)) < 1e-6:
                    for c in (round(x) - 1, round(x), round(x) + 1):
                        if 0 <= c < T:
                            unsure[k, cols, int(c)] = True
                    continue
                for c in (int(np.floor(x)), int(np.ceil(x))):
                    if c < T:
                        for j in cols:
                            grid[k, j, c] = max(grid[k, j, c], cost)
    return grid, unsure


def compare(ctx, got, want, unsure, key, case):
    ctx.trans()
    if np.shape(got) != want.shape:
        return ctx.violate(key + "/shape", "shape %s, expected %s" % (np.shape(got), want.shape), **case)
    bad = (np.abs(got - want) > 1e-9) & ~unsure
    if bad.any():
        c = tuple(int(x) for x in np.argwhere(bad)[0])
        ctx.violate(key, "cost %s at (speed, lane, time) %s, expected %s" % (got[c], c, want[c]), **case)
    ctx.outcome("costs %d of 1, %d of 0.5" % (min((want == 1).sum(), 12), min((want == 0.5).sum(), 12)))


def observer(road, pos, heading, speed, count, lo=20.0, hi=30.0):
    me = hw.MDPVehicle(road, pos, heading, speed)
    me.SPEED_COUNT, me.SPEED_MIN, me.SPEED_MAX = count, lo, hi
    me.speed_index = me.speed_to_index(speed)
    return me


def grids(ctx, n, part, parts, most):
    from highway_env.envs.common.finite_mdp import compute_ttc_grid
    net = networks(n)
    env, _ = envs.light("highway-v0", 0, vehicles_count=0)
    road = env.road = hw.make_road(net)
    start = 260.0 if n in (3, 4, 5) else 400.0
    home = ("0", "1")
    lanes = len(net.graph["0"]["1"])
    rels = [-123.0, -31.7, -4.3, 0.9, 11.2, 37.4, 88.1, 143.3]
    speeds = [0.0, 13.3, 20.0, 24.7, 36.1]
    spots = []
    for r in rels:
        for k in range(lanes):
            lane, s = net.get_lane(home + (k,)), start + r
            if n in (3, 4, 5) and s > lane.length:
                for to in net.graph["1"]:
                    if k < len(net.graph["1"][to]):
                        nxt = net.get_lane(("1", to, k))
                        spots.append((nxt.position(s - lane.length, 0.2), nxt.heading_at(s - lane.length)))
            else:
                spots.append((lane.position(s, 0.1 * k), lane.heading_at(s) + (0.3 if abs(r) > 80 else 0.0)))
    spots.append((np.array([100.0, 44.0]), 0.0))
    cars = [(i, v) for i in range(len(spots)) for v in speeds]
    pool = {c: hw.IDMVehicle(road, np.array(spots[c[0]][0]), spots[c[0]][1], c[1]) for c in cars}
    turn = 0
    quanta = [(1.0, 10), (0.5, 8), (0.25, 6)]
    observers = [(3, 20.0, 30.0), (2, 10.0, 30.0), (5, 0.0, 40.0), (1, 15.0, 30.0)]
    for count in range(1, most + 1):
        step = 1 if count < 3 else 7
        for i, combo in enumerate(itertools.combinations(cars, count)):
            if i % step or (i // step) % parts != part:
                continue
            turn += 1
            for own in range(lanes):
                lane = net.get_lane(home + (own,))
                cnt, lo, hi = observers[(turn + own) % 4]
                q, horizon = quanta[(turn // 4 + own) % 3]
                me = observer(road, lane.position(start, -0.1), lane.heading_at(start), (21.0, 30.0)[turn % 2], cnt, lo, hi)
                if n == 5:
                    me.plan_route_to(("2", "3")[turn % 2]) if turn % 3 else None
                road.vehicles = [pool[c] for c in combo]
                road.vehicles.insert(turn % (count + 1), me)
                env.vehicle = me
                want, unsure = reference(road, me, q, horizon)
                other = observer(road, lane.position(start + 50, 0), 0.0, 10.0, 3)
                env.vehicle = me if turn % 2 else other
                got = compute_ttc_grid(env, q, horizon, vehicle=me) if turn % 2 == 0 else compute_ttc_grid(env, q, horizon)
                case = dict(network=n, lane=own, observer=(cnt, lo, hi), step=q, horizon=horizon, vehicles=[(np.round(spots[c[0]][0], 2).tolist(), c[1]) for c in combo])
                compare(ctx, got, want, unsure, "grid", case)
                ctx.state((n, own, combo, turn % 12))
    ctx.sample(case)


def scenes(env, lanes, part):
    """Some traffic around an observer in each lane at each speed."""
    net = env.road.network
    menus = [[], [(30.3, 0, 5.0)], [(45.1, lanes - 1, 11.0), (-40.7, 0, 35.5)], [(13.1, 0, 12.1), (61.3, lanes // 2, 0.0), (-3.9, lanes - 1, 37.0)]]
    for own in range(lanes):
        for k in range(3):
            for m in menus[part::2]:
                me = hw.MDPVehicle(env.road, net.get_lane(("0", "1", own)).position(500, 0), 0.0, 20.0 + 5 * k)
                env.road.vehicles = [me] + [hw.IDMVehicle(env.road, net.get_lane(("0", "1", l)).position(500 + x, 0.2), 0.0, v) for x, l, v in m]
                # on the way to another lane and from another speed: the current lane and the chosen speed count
                me.target_lane_index = ("0", "1", min(max(own + (-1) ** (len(m) + k), 0), lanes - 1))
                me.speed += (0.0, 1.3, -2.1)[(own + len(m)) % 3]
                env.vehicle = me
                env.define_spaces()
                yield env.vehicle, own, k, m


def mdp(ctx, lanes, part):
    stub()
    for freq in (1, 2):
        env, _ = envs.light("highway-v0", 0, vehicles_count=0, lanes_count=lanes, policy_frequency=freq, simulation_frequency=4)
        for me, own, k, m in scenes(env, lanes, part):
            case = dict(lanes=lanes, lane=own, speed_index=k, vehicles=m, policy_frequency=freq)
            grid, unsure = reference(env.road, me, 1.0 / freq, 10)
            got = env.to_finite_mdp()
            shape = grid.shape
            n = int(np.prod(shape))
            ctx.check(tuple(got.original_shape) == shape, "mdp/shape", "shape %s, expected %s" % (got.original_shape, shape), **case)
            if tuple(got.original_shape) != shape:
                continue
            ctx.check(int(got.state) == np.ravel_multi_index((k, own, 0), shape), "mdp/state", "current state %s" % (got.state,), **case)
            table = np.asarray(got.transition)
            ctx.check(table.shape == (n, 5), "mdp/table", "transition table of shape %s" % (table.shape,), **case)
            terminal = np.asarray(got.terminal).ravel()
            ctx.check(terminal.shape == (n,), "mdp/terminal", "terminal of shape %s" % (terminal.shape,), **case)
            todo, seen = [(k, own, 0)], set()
            everything = list(np.ndindex(*shape))
            ahead = 0
            while todo or everything:
                from_start = bool(todo)
                st = todo.pop(0) if todo else everything.pop()
                if st in seen:
                    continue
                seen.add(st)
                ahead += from_start
                h, l, t = st
                i = int(np.ravel_multi_index(st, shape))
                if not unsure[st]:
                    want = bool(grid[st] == 1 or t == shape[2] - 1)
                    ctx.check(bool(terminal[i]) == want, "mdp/terminal", "terminal=%s in state %s" % (terminal[i], st), **case)
                for a, (dl, dh) in enumerate(((-1, 0), (0, 0), (1, 0), (0, 1), (0, -1))):
                    nh = h + dh if t == 0 else h
                    nxt = (int(ref.clip(nh, 0, shape[0] - 1)), int(ref.clip(l + dl, 0, shape[1] - 1)), min(t + 1, shape[2] - 1))
                    ctx.trans()
                    if int(table[i, a]) != np.ravel_multi_index(nxt, shape):
                        ctx.violate("mdp/transition", "action %d from %s leads to %s, expected %s" % (
                            a, st, [int(x) for x in np.unravel_index(int(table[i, a]) % n, shape)], nxt), **case)
                    if from_start:
                        todo.append(nxt)
                ctx.state((lanes, part, freq, own, k, str(m), st))
            ctx.outcome("%d states, %d reachable" % (len(seen), ahead))
            ctx.trace()
    ctx.sample(case)


def window_ref(grid, unsure, speed_index, lane):
    k, l, t = grid.shape
    out, no = np.ones((3, 3, t)), np.zeros((3, 3, t), dtype=bool)
    for i, j in itertools.product(range(3), range(3)):
        h, c = int(ref.clip(speed_index + i - 1, 0, k - 1)), lane + j - 1
        if 0 <= c < l:
            out[i, j], no[i, j] = grid[h, c], unsure[h, c]
    return out, no


def window(ctx, lanes):
    for freq, horizon in ((1, 10), (2, 5), (4, 6)):
        env, _ = envs.light("highway-v0", 0, vehicles_count=0, lanes_count=lanes, policy_frequency=freq, simulation_frequency=4,
                            observation={"type": "TimeToCollision", "horizon": horizon})
        for part in range(2):
            for me, own, k, m in scenes(env, lanes, part):
                case = dict(lanes=lanes, lane=own, speed_index=k, vehicles=m, policy_frequency=freq, horizon=horizon)
                got = env.observation_type.observe()
                grid, unsure = reference(env.road, me, 1.0 / freq, horizon)
                want, no = window_ref(grid, unsure, k, own)
                compare(ctx, got, want, no, "window", case)
                ctx.state((lanes, freq, own, k, str(m)))
    ctx.sample(case)


def episodes(ctx, name, seed, depth):
    for freq, horizon in ((1, 10), (2, 4)):
        env, obs = envs.light(name, seed, observation={"type": "TimeToCollision", "horizon": horizon}, policy_frequency=freq, simulation_frequency=5 * freq)
        acts = envs.actions(env)

        def look(obs, case):
            me = env.vehicle
            grid, unsure = reference(env.road, me, 1.0 / freq, horizon)
            want, no = window_ref(grid, unsure, me.speed_index, me.lane_index[2])
            compare(ctx, obs, want, no, "episode/%s" % name, case)
        for seq in itertools.product(range(len(acts)), repeat=depth):
            env.seed(seed)
            obs = env.reset()
            case = dict(env=name, seed=seed, policy_frequency=freq, horizon=horizon)
            look(obs, dict(case, sequence=[]))
            for i, a in enumerate(seq):
                obs, _, done, _ = env.step(acts[a])
                look(obs, dict(case, sequence=seq[:i + 1]))
                ctx.state((name, freq, seq[:i + 1]))
                if done:
                    break
            ctx.trace()
    ctx.sample(case)
