"""C12: vehicles move according to the kinematic bicycle model."""
import itertools

import numpy as np

from vk import hw
from highway_env.vehicle.kinematics import Vehicle

PROP = "C12"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one frame: 13 speeds x 9 headings x 9 steering x 9 accelerations x 4 time steps x crashed or not, for 4 vehicle "
             "classes; all command sequences of length 4 over 9 commands from 12 states; closest lane: poses around "
             "5 networks on a lattice",
    "thorough": "finer lattices, sequences of length 5, the networks of every environment"}
ASSUMPTIONS = ["the reference is an independent Euler step written from the documented equations",
               "poses equidistant (within 1e-9) from two lanes are not judged for the closest lane"]

SPEEDS = (0.0, 0.3, -0.7, 5.0, 14.2, 25.0, 39.9, 40.0, 41.0, 52.0, -12.0, -40.0, -45.0)
HEADINGS = (0.0, 0.4, 1.5707963, 2.2, 3.1, -0.9, -1.7, -2.9, 7.0)
STEER = (0.0, 0.02, -0.1, 0.3, 0.785, -0.785, 1.047, -1.047, -0.5)
ACC = (0.0, 1.0, -1.0, 5.0, -5.0, 12.0, -9.0, 0.01, -30.0)
DTS = (1 / 15, 0.1, 0.02, 0.5)
L = 5.0
VMAX = 40.0


def ref_step(x, y, h, v, steer, acc, dt, crashed):
    """The documented model, one explicit Euler step."""
    if crashed:
        steer, acc = 0.0, -v
    if v > VMAX:
        acc = min(acc, VMAX - v)
    if v < -VMAX:
        acc = max(acc, -VMAX - v)
    beta = np.arctan(0.5 * np.tan(steer))
    return (x + v * np.cos(h + beta) * dt, y + v * np.sin(h + beta) * dt,
            h + v * np.sin(beta) / (L / 2) * dt, v + acc * dt)


def tasks(tier, seed):
    out = []
    for cls in ("Vehicle", "ControlledVehicle", "MDPVehicle", "IDMVehicle"):
        for i in range(len(SPEEDS)):
            out.append(("one", (cls, i)))
    out += [("sequences", (i, 4 if tier == "quick" else 5)) for i in range(12)]
    nets = ["straight", "menu", "roundabout-v0", "intersection-v0", "merge-v0"]
    if tier != "quick":
        nets += ["highway-v0", "parking-v0", "summon-v0", "two-way-v0", "lane-keeping-v0"]
    for n in nets:
        for h in range(8):
            out.append(("closest", (n, h, 11 if tier == "quick" else 31)))
    out.append(("history", ()))
    return out


def make(cls, road, pos, h, v):
    return getattr(hw, cls)(road, pos, h, v)


def compare(ctx, veh, want, key, case):
    got = (veh.position[0], veh.position[1], veh.heading, veh.speed)
    err = max(abs(got[0] - want[0]), abs(got[1] - want[1]), abs(hw.wrap(got[2] - want[2])), abs(got[3] - want[3]))
    ctx.check(err < 1e-7, key, "state %s after the step, the model gives %s" % (got, want), **case)


def one(ctx, cls, i):
    road = hw.make_road(hw.straight(3, 500))
    v = SPEEDS[i]
    for h, st, ac, dt in itertools.product(HEADINGS, STEER, ACC, DTS):
        for crashed in (False, True):
            veh = make(cls, road, [100.0, 3.0], h, v)
            veh.crashed = crashed
            veh.action = {"steering": st, "acceleration": ac}
            veh.step(dt)
            case = dict(cls=cls, speed=v, heading=h, steering=st, acceleration=ac, dt=dt, crashed=crashed)
            compare(ctx, veh, ref_step(100.0, 3.0, h, v, st, ac, dt, crashed),
                    "frame/%s%s" % (cls, "/crashed" if crashed else ""), case)
            ctx.state((cls, v, h, st, ac, dt, crashed))
            ctx.trans()
            ctx.outcome("crashed" if crashed else ("overspeed" if abs(v) > VMAX else "normal"))
    ctx.sample(case)


COMMANDS = [(0, 0), (0.3, 2), (-0.3, -4), (1.0, 5), (-0.8, 0), (0, 8), (0, -8), (0.05, 1), "crash"]
STARTS = [(s, h) for s in (0.0, 10.0, 39.8, -39.7) for h in (0.0, 1.1, -2.5)]


def sequences(ctx, i, depth):
    """All command sequences: the state follows the model at every frame, whatever came before."""
    v0, h0 = STARTS[i]
    road = hw.make_road(hw.straight(3, 500))
    dt = 0.1

    def rec(veh_state, crashed, hist):
        if len(hist) == depth:
            ctx.trace()
            return
        for c in range(len(COMMANDS)):
            x, y, h, v = veh_state
            now_crashed = crashed or COMMANDS[c] == "crash"
            veh = Vehicle(road, [x, y], h, v)
            veh.crashed = now_crashed
            if COMMANDS[c] != "crash":
                veh.act({"steering": COMMANDS[c][0], "acceleration": COMMANDS[c][1]})
            veh.step(dt)
            st, ac = (0, 0) if COMMANDS[c] == "crash" else COMMANDS[c]
            want = ref_step(x, y, h, v, st, ac, dt, now_crashed)
            case = dict(start=(v0, h0), history=hist + (c,))
            compare(ctx, veh, want, "sequence", case)
            ctx.state((i, hist + (c,)))
            ctx.trans()
            if now_crashed:
                ctx.check(abs(veh.speed) <= abs(v) + 1e-12 and abs(hw.wrap(veh.heading - h)) < 1e-12, "sequence/crash",
                          "a crashed vehicle turned or sped up", **case)
            if abs(v) > VMAX and v * COMMANDS[c][1] > 0 if COMMANDS[c] != "crash" else False:
                ctx.check(abs(veh.speed) <= abs(v) + 1e-12, "sequence/overspeed", "overspeed grew", **case)
            rec((veh.position[0], veh.position[1], veh.heading, veh.speed), now_crashed, hist + (c,))

    rec((100.0, 3.0, h0, v0), False, ())
    # and as one long-lived object: commands are held until replaced, a crash latches, speed dies out
    for seq in itertools.product(range(len(COMMANDS)), repeat=3):
        veh = Vehicle(road, [100.0, 3.0], h0, v0)
        state, held = (100.0, 3.0, h0, v0), (0, 0)
        for c in seq:
            if COMMANDS[c] == "crash":
                veh.crashed = True
            else:
                veh.act({"steering": COMMANDS[c][0], "acceleration": COMMANDS[c][1]})
                held = COMMANDS[c]
            for k in range(2):   # the command is held for two frames
                if abs(state[3]) > VMAX and not veh.crashed:
                    held = (held[0], min(held[1], VMAX - state[3]) if state[3] > 0 else max(held[1], -VMAX - state[3]))
                state = ref_step(*state, *held, dt, veh.crashed)
                if veh.crashed:
                    held = (0, None)
                    held = (0, 0)
                veh.step(dt)
                compare(ctx, veh, state, "held", dict(start=(v0, h0), sequence=seq, frame=k))
                ctx.trans()
        if veh.crashed:
            for _ in range(120):
                s_before = abs(veh.speed)
                h_before = veh.heading
                veh.step(dt)
                ctx.check(abs(veh.speed) <= s_before and abs(veh.heading - h_before) < 1e-12, "stop/monotone",
                          "a crashed vehicle turned or did not slow down", sequence=seq)
            ctx.check(abs(veh.speed) < 1e-3, "stop", "a crashed vehicle still moves at %.3f m/s after 12 s" % veh.speed,
                      sequence=seq)
        ctx.trace()
    ctx.sample(dict(start=(v0, h0), commands=COMMANDS, depth=depth))


def network(name):
    if name == "straight":
        return hw.straight(4, 100, 0.4), (-20, 120), (-60, 30)
    if name == "menu":
        net = hw.RoadNetwork()
        net.add_lane("a", "b", hw.StraightLane([0, 0], [50, 0]))
        net.add_lane("a", "b", hw.StraightLane([0, 4], [50, 4], width=6))
        net.add_lane("b", "c", hw.CircularLane([50, 20], 20, -np.pi / 2, 0, True))
        net.add_lane("c", "d", hw.SineLane([70, 20], [70, 80], 2, 0.2, 0.3))
        net.add_lane("b", "a", hw.StraightLane([50, -4], [0, -4]))
        net.add_lane("d", "a", hw.CircularLane([30, 60], 12, 1.0, -2.0, False, forbidden=True))
        return net, (-15, 85), (-15, 90)
    import gym
    env = gym.make(name).unwrapped
    env.seed(0)
    env.reset()
    net = env.road.network
    pts = np.array([l.position(t * l.length, 0) for l in net.lanes_list() for t in (0, 0.5, 1)])
    lo, hi = pts.min(axis=0) - 10, pts.max(axis=0) + 10
    if name in ("highway-v0",):
        hi[0] = 100
    return net, (lo[0], hi[0]), (lo[1], hi[1])


def lane_mismatch(lane, p, h):
    s, r = lane.local_coordinates(p)
    return abs(r) + max(s - lane.length, 0, -s) + abs(hw.wrap(h - lane.heading_at(s)))


def closest(ctx, name, hi, n):
    """After any frame, the vehicle's lane is the closest one in distance and heading."""
    net, xr, yr = network(name)
    road = hw.make_road(net)
    h = hi * np.pi / 4 + 0.05
    for x in np.linspace(*xr, n):
        for y in np.linspace(*yr, n) + 0.0313:
            for v in (0.0, 9.0):
                veh = Vehicle(road, [x, y], h, v)
                for phase in ("created", "stepped"):
                    if phase == "stepped":
                        veh.act({"steering": 0.2, "acceleration": 1.0})
                        veh.step(0.3)
                    d = {}
                    for a, tos in net.graph.items():
                        for b, lanes in tos.items():
                            for k, l in enumerate(lanes):
                                d[(a, b, k)] = lane_mismatch(l, veh.position, veh.heading)
                    best = min(d.values())
                    idx = tuple(veh.lane_index)
                    case = dict(net=name, pos=(x, y), heading=h, speed=v, phase=phase)
                    ctx.check(idx in d and d[idx] <= best + 1e-7, "closest/%s" % phase,
                              "lane %s at %.4f, but the closest one is at %.4f" % (idx, d.get(idx, -1), best), **case)
                    ctx.check(veh.lane is net.get_lane(idx), "closest/lane", "vehicle.lane is not the lane of its index", **case)
                    ctx.state((name, hi, x, y, v, phase))
                    ctx.trans()
                    ctx.outcome("%s %s" % (name, idx))
    ctx.sample(case)


def history(ctx):
    """Recording the history does not change the motion."""
    for v0, h0 in STARTS:
        traj = []
        for rec in (False, True):
            road = hw.make_road(hw.straight(2, 300), history=rec)
            veh = Vehicle(road, [20, 1], h0, v0)
            road.vehicles = [veh]
            t = []
            for f in range(40):
                veh.act({"steering": 0.1 * np.sin(f), "acceleration": 2 * np.cos(f)})
                road.step(1 / 15)
                t.append((veh.position[0], veh.position[1], veh.heading, veh.speed, veh.lane_index))
                ctx.trans()
                ctx.state((v0, h0, rec, f))
            traj.append(t)
        ctx.check(traj[0] == traj[1], "history", "recording the history changes the motion", start=(v0, h0))
