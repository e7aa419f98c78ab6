"""C28: dynamic vehicles move according to the dynamic bicycle model."""
import itertools

import numpy as np

from vk import hw, ref
from highway_env.vehicle.dynamics import BicycleVehicle

PROP = "C28"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "one frame: 11 speeds x 7 lateral speeds x 7 yaw rates x 5 headings x 7 steering angles x 4 accelerations x 2 time steps, and crashed, for 3 parameter sets; all command "
             "sequences of length 5 over 5 commands from 9 starts; linear models: the same lattice for forward speeds, columns of every matrix against the exact linearisation; all action "
             "sequences of length 3 in lane-keeping-v0, with 3 actions, 2 starts and every answer (lowest, highest, middle) of the noise",
    "thorough": "sequences of length 7, twice as many speeds, rates and steering angles"}
ASSUMPTIONS = ["the linear models are judged at forward speeds of 1 m/s or more, where the tyre model is smooth",
               "the speed limit and the crash rule are those of other vehicles, the yaw rate is limited before each frame"]

SPEEDS = (0.0, 0.4, 0.99, 1.3, 4.0, 8.3, 14.9, 15.0, 17.0, -0.6, -5.0)
LATS = (0.0, 0.2, -0.2, 1.5, -1.1, 5.0, -6.0)
YAWS = (0.0, 0.1, -0.1, 0.9, -1.3, 6.0, -8.0)
HEADS = (0.0, 0.6, 1.9, -1.2, 3.0)
STEERS = (0.0, 0.05, -0.05, 0.4, -0.7, 1.5, -2.0)
ACCS = (0.0, 2.0, -3.0, 9.0)


class Heavy(BicycleVehicle):
    MASS = 3.0
    LENGTH_A = 1.8
    LENGTH_B = 1.8
    INERTIA_Z = 5.5
    FRICTION_FRONT = 20.0
    FRICTION_REAR = 31.0


class Unbalanced(BicycleVehicle):
    LENGTH_A = 1.2
    LENGTH_B = 2.9
    FRICTION_FRONT = 9.0
    MAX_ANGULAR_SPEED = 1.0
    MAX_SPEED = 8.0


CLASSES = {"default": BicycleVehicle, "heavy": Heavy, "unbalanced": Unbalanced}


def tasks(tier, seed):
    q = tier == "quick"
    out = []
    for c in CLASSES:
        for i in range(len(SPEEDS)):
            out.append(("frames", (c, i, q)))
        out.append(("linear", (c, q)))
        for i in range(9):
            out.append(("sequences", (c, i, 4 if q else 6)))
    for start in range(2):
        for first in range(3):
            out.append(("lane_keeping", (start, first, 3 if q else 4)))
    return out


def derivative(cls, state, steer, acc):
    """Rajamani (2011), chapter 2: tyre forces proportional to the slip angles."""
    x, y, psi, u, v, r = state
    m, iz, a, b = cls.MASS, cls.INERTIA_Z, cls.LENGTH_A, cls.LENGTH_B
    if abs(u) < 1:      # damping
        ff = -m * v - iz / a * r
        fr = -m * v + iz / a * r
    else:
        ff = 2 * cls.FRICTION_FRONT * (steer - np.arctan2(v + a * r, u))
        fr = 2 * cls.FRICTION_REAR * (0 - np.arctan2(v - b * r, u))
    return np.array([u * np.cos(psi) - v * np.sin(psi), u * np.sin(psi) + v * np.cos(psi), r, acc,
                     (ff + fr) / m - r * u, (a * ff - b * fr) / iz])


def step(cls, state, steer, acc, dt, crashed=False):
    state = np.array(state, dtype=float)
    if crashed:
        steer, acc = 0.0, -state[3]
    if state[3] > cls.MAX_SPEED:
        acc = min(acc, cls.MAX_SPEED - state[3])
    if state[3] < -cls.MAX_SPEED:
        acc = max(acc, -cls.MAX_SPEED - state[3])
    steer = min(max(steer, -np.pi / 2), np.pi / 2)
    state[5] = min(max(state[5], -cls.MAX_ANGULAR_SPEED), cls.MAX_ANGULAR_SPEED)
    return state + dt * derivative(cls, state, steer, acc)


def put(veh, state):
    veh.position = np.array([float(state[0]), float(state[1])])
    veh.heading, veh.speed, veh.lateral_speed, veh.yaw_rate = (float(z) for z in state[2:])


def agree(got, want, tol=1e-7):
    got, want = np.asarray(got, dtype=float).reshape(-1), np.asarray(want, dtype=float).reshape(-1)
    if got.shape != want.shape:
        return False
    return bool(np.all(np.abs(got - want) <= tol * (1 + np.abs(want))))


def frames(ctx, name, i, quick):
    cls = CLASSES[name]
    u = SPEEDS[i]
    road = hw.make_road(hw.straight(2, 200))
    for v, r, psi, st, acc in itertools.product(LATS, YAWS, HEADS, STEERS, ACCS):
        state = (50.0, 1.0, psi, u, v, r)
        for dt in ((1 / 15, 0.1)[(st > 0) ^ (v > 0)],) if quick else (1 / 15, 0.1, 0.02, 0.3):
            for crashed in (False, True) if st == STEERS[3] else (False,):
                veh = cls(road if dt < 0.1 else None, [0, 0], 0, 0)
                put(veh, state)
                veh.crashed = crashed
                veh.act({"steering": st, "acceleration": acc})
                case = dict(model=name, state=state, steering=st, acceleration=acc, dt=dt, crashed=crashed)
                if not crashed:
                    got = veh.derivative
                    ctx.check(agree(got, derivative(cls, state, st, acc)), "derivative/%s" % name,
                              "derivative %s, the model gives %s" % (got.reshape(-1), derivative(cls, state, st, acc)), **case)
                    ctx.check(agree(veh.state, state), "state/%s" % name, "state %s" % veh.state.reshape(-1), **case)
                veh.step(dt)
                want = step(cls, state, st, acc, dt, crashed)
                ctx.check(agree(veh.state, want), "frame/%s%s" % (name, "/crashed" if crashed else ""), "state %s after a frame, the model gives %s" % (veh.state.reshape(-1), want), **case)
                ctx.trans()
        ctx.state((name, i, v, r, psi, st, acc))
        ctx.outcome("%s speed" % ("low" if abs(u) < 1 else "beyond" if abs(u) > cls.MAX_SPEED else "normal"))
    ctx.sample(case)


COMMANDS = [(0.0, 0.0), (0.1, 1.0), (-0.4, -2.0), (1.8, 6.0), "crash"]
STARTS = [(u, psi) for u in (0.2, 8.3, 14.5) for psi in (0.0, 1.0, -2.6)]


def sequences(ctx, name, i, depth):
    cls = CLASSES[name]
    u, psi = STARTS[i]
    road = hw.make_road(hw.straight(2, 200))
    for seq in itertools.product(range(len(COMMANDS)), repeat=depth):
        veh = cls(road, [50, 1], psi, u)
        state, held, crashed = np.array([50.0, 1.0, psi, u, 0.0, 0.0]), (0.0, 0.0), False
        for k, c in enumerate(seq):
            if COMMANDS[c] == "crash":
                veh.crashed = crashed = True
            else:
                held = COMMANDS[c]
            for _ in range(2):
                veh.act({"steering": held[0], "acceleration": held[1]})
                veh.step(0.05)
                state = step(cls, state, held[0], held[1], 0.05, crashed)
            ctx.trans()
            ctx.check(agree(veh.state, state, 1e-6), "sequence/%s" % name, "state %s, the model gives %s" % (veh.state.reshape(-1), state), start=STARTS[i], history=seq[:k + 1])
            ctx.check(abs(veh.yaw_rate) < 1e3, "sequence/finite", "yaw rate %s" % veh.yaw_rate, start=STARTS[i], history=seq[:k + 1])
            ctx.state((name, i, seq[:k + 1]))
        ctx.trace()
        ctx.outcome("crashed" if crashed else "driving")
    ctx.sample(dict(start=STARTS[i], commands=seq))


def linear(ctx, name, quick):
    """The linear models are the linearisation of the dynamics around straight driving."""
    cls = CLASSES[name]
    for u in (1.0, 1.7, 4.0, 8.3, 12.0, 15.0, 20.0):
        veh = cls(None, [0, 0], 0, u)
        h = 1e-6

        def f(z):      # [y, psi, v, r, steering] -> derivative of [y, psi, v, r]
            return derivative(cls, (0.0, z[0], z[1], u, z[2], z[3]), z[4], 0.0)[[1, 2, 4, 5]]
        jac = np.array([(f(h * e) - f(-h * e)) / (2 * h) for e in np.eye(5)]).T
        case = dict(model=name, speed=u)
        tol = 1e-5
        a, b = veh.full_lateral_lpv_dynamics()
        ctx.check(agree(a, jac[:, :4], tol), "linear/full/A/%s" % name, "A = %s, the linearisation is %s" % (a.tolist(), jac[:, :4].tolist()), **case)
        ctx.check(agree(b, jac[:, 4:], tol), "linear/full/B/%s" % name, "B = %s, the linearisation is %s" % (b.tolist(), jac[:, 4:].tolist()), **case)
        a, b = veh.lateral_lpv_dynamics()
        ctx.check(agree(a, jac[2:, 2:4], tol), "linear/lateral/A/%s" % name, "A = %s, the linearisation is %s" % (a.tolist(), jac[2:, 2:4].tolist()), **case)
        ctx.check(agree(b, jac[2:, 4:], tol), "linear/lateral/B/%s" % name, "B = %s, the linearisation is %s" % (b.tolist(), jac[2:, 4:].tolist()), **case)
        # the structures are exact in the friction coefficients
        for fr in itertools.product((0.0, 5.0, 15.0, 40.0), repeat=2):
            tuned = type("Tuned", (cls,), dict(FRICTION_FRONT=fr[0], FRICTION_REAR=fr[1]))
            for full in (False, True):
                a0, phi, _ = veh.full_lateral_lpv_structure() if full else veh.lateral_lpv_structure()
                got = a0 + fr[0] * phi[0] + fr[1] * phi[1]
                want = (tuned(None, [0, 0], 0, u).full_lateral_lpv_dynamics() if full else tuned(None, [0, 0], 0, u).lateral_lpv_dynamics())[0]
                ctx.check(agree(got, want), "linear/structure/%s" % name, "structure %s, matrix %s" % (got.tolist(), want.tolist()), frictions=fr, full=full, **case)
                ctx.trans()
            ctx.state((name, u, fr))
        # linear derivative: exact kinematics, linear lateral dynamics (whatever the speed the vehicle had before)
        veh = cls(None, [0, 0], 0, 6.0)
        for v, r, psi, st, acc in itertools.product((0.0, 0.3, -0.8), (0.0, 0.2, -0.5), HEADS, (0.0, 0.1, -0.3), (0.0, 2.0)):
            state = (3.0, -2.0, psi, u, v, r)
            put(veh, state)
            veh.act({"steering": st, "acceleration": acc})
            want = derivative(cls, state, st, acc)
            want[4:] = jac[2:] @ np.array([0, 0, v, r, st])
            got = veh.derivative_linear
            ctx.check(agree(got, want, tol), "linear/derivative/%s" % name, "%s, the linear model gives %s" % (got.reshape(-1), want), state=state, steering=st, acceleration=acc, model=name)
            ctx.state((name, u, v, r, psi, st, acc))
            ctx.trans()
            ctx.outcome("linear")
        # and it approximates the dynamics to second order
        for eps in (0.1, 0.05, 0.025):
            put(veh, (0, 0, 0, u, 0.02 * eps * u, 0.01 * eps * u))
            veh.act({"steering": 0.02 * eps, "acceleration": 0})
            d = np.abs(veh.derivative - veh.derivative_linear).max()
            ctx.check(d <= 50 * eps ** 2, "linear/close/%s" % name, "the models differ by %s for a deviation of %s" % (d, eps), **case)
    ctx.trace()
    ctx.sample(case)


class Noise:
    """The generator of the environment, with the answers of the noise decided by the explorer."""

    def __init__(self, real, answer):
        self.real, self.answer = real, answer

    def uniform(self, low=0.0, high=1.0, size=None):
        k = self.answer
        pattern = np.array([(0.0, 0.5, 1.0)[(k + i * (k // 3)) % 3] for i in range(int(np.prod(size)) if size is not None else 1)])
        out = low + (high - low) * pattern
        return out.reshape(size) if size is not None else float(out[0])

    def __getattr__(self, name):
        return getattr(self.real, name)


def lane_keeping(ctx, start, first, depth):
    """Reward, reference, noisy observations and switching of the lane to keep."""
    from vk import envs
    acts = [np.array([x], dtype=np.float32) for x in (0.0, 0.9, -0.6)]
    for noise in ((0.05, 0.05), (0.0, 0.0), (0.4, 0.1)):
        env = ref.make("lane-keeping-v0", state_noise=noise[0], derivative_noise=noise[1])
        for rest in itertools.product(range(3), repeat=depth - 1):
            seq = (first,) + rest
            for answer in range(9) if noise[0] else (0,):
                env.seed(3)
                env.reset()
                env.np_random = Noise(env.np_random, answer)
                lanes = [env.road.network.get_lane(("c", "d", 0)), env.road.network.get_lane(("a", "b", 0))]
                k = 0
                ctx.check(env.lane is lanes[0], "lane/initial", "the lane to keep is not the first one")
                veh = env.vehicle
                if start == 1:
                    put(veh, (119.0, 12.0, 0.2, 8.3, 0.0, 0.0))       # beyond the end of the first lane
                    veh.on_state_update()
                case = dict(noise=noise, sequence=seq, answer=answer, start=start)
                for a in seq:
                    before = veh.state.copy()
                    s, r = lanes[k].local_coordinates(veh.position)
                    margin = abs(abs(r) - lanes[k].width / 2)
                    if k == 0 and not (abs(r) <= lanes[k].width / 2 and -5 <= s < lanes[k].length + 5) and margin > 1e-6:
                        k = 1
                    obs, reward, done, info = env.step(acts[a])
                    ctx.trans()
                    ctx.check(env.lane is lanes[k], "lane/switch", "the lane to keep is not the expected one", **case)
                    s, r = lanes[k].local_coordinates(veh.position)
                    ctx.check(abs(reward - (1 - (r / lanes[k].width) ** 2)) < 1e-7, "lane/reward", "reward %s at %s m from the centre line" % (reward, r), **case)
                    ctx.check(done is False or done == 0, "lane/done", "done=%s" % done, **case)
                    st, acc = float(np.clip(acts[a][0], -1, 1)) * np.pi / 3, 0.0
                    want = before.reshape(-1)[[1, 2, 4, 5]]
                    dev = np.asarray(obs["state"]).reshape(-1) - want
                    ctx.check(np.all(np.abs(dev) <= noise[0] + 1e-9), "lane/state", "state observed with an error of %s" % dev, **case)
                    der = derivative(BicycleVehicle, before.reshape(-1), st, acc)[[1, 2, 4, 5]]
                    dev = np.asarray(obs["derivative"]).reshape(-1) - der
                    ctx.check(np.all(np.abs(dev) <= noise[1] + 1e-6), "lane/derivative", "derivative observed with an error of %s" % dev, **case)
                    s0, r0 = lanes[k].local_coordinates(before.reshape(-1)[:2])
                    want = [before[1, 0] - r0, lanes[k].heading_at(s0), 0, 0]
                    ctx.check(agree(obs["reference_state"], want), "lane/reference", "reference %s, expected %s" % (np.asarray(obs["reference_state"]).reshape(-1), want), **case)
                    state = before.reshape(-1)
                    state = step(BicycleVehicle, state, st, acc, 0.1)
                    ctx.check(agree(veh.state, state, 1e-6), "lane/step", "state %s, the model gives %s" % (veh.state.reshape(-1), state), **case)
                    ctx.state((start, seq, noise, answer, len(case)))
                    ctx.outcome("lane %d" % k)
                ctx.trace()
    ctx.sample(case)
