"""
C34: the spring loaded inverted pendulum and its hybrid linear approximation.
Every (robot, apex state, leg angle) of a grid and every sequence of leg angles
up to the depth bound.  The oracle is a separate model of the same mechanics: a
point mass in Cartesian coordinates with the spring's force along the leg,
integrated to 1e-11; derivatives are difference quotients of that model.
"""
import itertools
import math
import os
import signal
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
from scipy.integrate import solve_ivp  # noqa: E402

import neural_network_lyapunov.spring_loaded_inverted_pendulum as sl  # noqa
import neural_network_lyapunov.slip_hybrid_linear_system as sh  # noqa: E402

#         mass, l0, k, g
ROBOTS = [(80., 1., 20000., 9.81), (1., 1., 120., 10.), (2., .5, 900., 4.),
          (10., 2., 3000., 9.81)]
HEIGHTS = (.75, 1., 1.05, 1.3)        # times l0
SPEEDS = (0., .7, 2.5, -1.5)     # times sqrt(g l0) / 3
ANGLES = (0., .125, .3, -.2, .55, 1., -1.)


class Model:
    """ the reference: x to the right, y up, foot fixed in stance """

    def __init__(self, robot):
        self.m, self.l0, self.k, self.g = robot

    def force(self, p):
        r = math.hypot(p[0], p[1])
        a = self.k * (self.l0 - r) / self.m / r
        return a * p[0], a * p[1] - self.g

    def energy(self, p, v, foot=None):
        e = self.m * (v[0]**2 + v[1]**2) / 2 + self.m * self.g * p[1]
        if foot is not None:
            r = math.hypot(p[0] - foot, p[1])
            e += self.k * (r - self.l0)**2 / 2
        return e

    def polar(self, s, foot):
        x, y, vx, vy = s[0] - foot, s[1], s[2], s[3]
        r = math.hypot(x, y)
        return np.array([r, math.atan2(-x, y), (x * vx + y * vy) / r,
                         (x * vy - y * vx) / r**2, foot])

    def cart(self, q):
        """ q = r, theta, r', theta', foot """
        r, th, dr, dth, foot = q
        s, c = math.sin(th), math.cos(th)
        return np.array([foot - r * s, r * c, -dr * s - r * dth * c,
                         dr * c - r * dth * s]), foot

    def fall(self, s, theta):
        """ flight until the foot touches the ground of height 0 """
        d = s[1] - self.l0 * math.cos(theta)
        if d < 0:
            return None
        t = (s[3] + math.sqrt(s[3]**2 + 2 * self.g * d)) / self.g
        return t, np.array([s[0] + s[2] * t, self.l0 * math.cos(theta), s[2],
                            s[3] - self.g * t])

    def stance(self, s, foot):
        """ (duration, state at lift off) / "fell" / None = not decided """
        s = np.array([s[0] - foot, s[1], s[2], s[3]])
        r0 = math.hypot(s[0], s[1])
        if (s[0] * s[2] + s[1] * s[3]) / r0 > -.02:
            return None

        def up(t, p):
            return math.hypot(p[0], p[1]) - self.l0
        up.terminal, up.direction = True, 1

        def ground(t, p):
            return p[1]
        ground.terminal, ground.direction = True, -1

        def f(t, p):
            a = self.force(p)
            return [p[2], p[3], a[0], a[1]]
        sol = solve_ivp(f, (0, 9), s, method="DOP853", rtol=1e-11,
                        atol=1e-12, events=[up, ground])
        r = np.hypot(sol.y[0], sol.y[1])
        if r.min() < .15 * self.l0:
            return None
        if len(sol.t_events[1]):
            e = sol.y[:, -1]
            return "fell" if r[-1] < self.l0 - 1e-3 and e[3] < -1e-2 else None
        if not len(sol.t_events[0]):
            return None
        e = sol.y_events[0][0]
        if e[1] < 5e-2 * self.l0 or \
                (e[0] * e[2] + e[1] * e[3]) / self.l0 < .02:
            return None
        return sol.t_events[0][0], e + [foot, 0, 0, 0]

    def step(self, s, theta):
        """ from a flight state to the next apex """
        a = self.fall(s, theta)
        if a is None:
            return None
        foot = a[1][0] + self.l0 * math.sin(theta)
        b = self.stance(a[1], foot)
        if b is None or b == "fell":
            return b
        e = b[1]
        t3 = e[3] / self.g
        return {"t_td": a[0], "td": a[1], "foot": foot, "t_st": b[0], "lo": e,
                "t_up": t3, "t": a[0] + b[0] + t3,
                "apex": np.array([e[0] + e[2] * t3,
                                  e[1] + e[3]**2 / 2 / self.g, e[2]])}


def quotient(fun, x, d=1e-5):
    """ Jacobian of fun at x (central), None where fun is not decided """
    cols = []
    for i in range(len(x)):
        v = []
        for s in (d, -d):
            y = np.array(x, dtype=float)
            y[i] += s
            r = fun(y)
            if r is None:
                return None
            v.append(np.atleast_1d(r))
        cols.append((v[0] - v[1]) / (2 * d))
    return np.stack(cols, axis=1)


class Cx:
    """ comparisons which remember that something failed """

    def __init__(self, cx, **where):
        self.cx, self.where = cx, where

    def same(self, what, got, want, tol):
        self.cx.trans()
        got, want = np.asarray(got, dtype=float), np.asarray(
            want, dtype=float)
        if got.size != want.size:
            self.cx.fail("shape of " + what, got=list(got.shape),
                         want=list(want.shape), **self.where)
            return False
        got = got.reshape(want.shape)
        big = 1 + (abs(want).max() if want.size else 0)
        if not (abs(got - want) <= tol * big).all():
            self.cx.fail(what, got=got, want=want, **self.where)
            return False
        return True

    def none(self, what, r):
        self.cx.trans()
        if any(e is not None for e in r):
            self.cx.fail(what, got=[None if e is None else "value"
                                    for e in r], **self.where)


def grid(tier, robot):
    m, l0, k, g = robot
    u = math.sqrt(g * l0) / 3
    hs = HEIGHTS if tier == "quick" else HEIGHTS + (.97, 1.12, 1.7)
    vs = SPEEDS if tier == "quick" else SPEEDS + (1.6, 4., -.4)
    an = ANGLES if tier == "quick" else ANGLES + (.05, .42, -.45, .8)
    return [h * l0 for h in hs], [v * u for v in vs], an


def tasks(tier):
    n = range(2 if tier == "quick" else len(ROBOTS))
    out = []
    for i in range(len(ROBOTS)):
        out += [("local", i, 0, tier), ("stones", i, 0, tier)]
    for i in n:
        h, v, a = grid(tier, ROBOTS[i])
        for j in range(len(v)):
            out.append(("map", i, j, tier))
            out.append(("linear", i, j, tier))
        for j in range(len(STARTS)):
            out.append(("sim", i, j, tier))
    if tier == "quick":
        out += [("map", 2, 1, tier), ("map", 3, 2, tier),
                ("sim", 2, 0, tier), ("linear", 3, 1, tier)]
    return out


STARTS = [(0., 1.2, .7, 0.), (-.75, 1.1, 1.6, .6), (3., 1.5, -1., -1.),
          (.5, 1.05, 3., 0.), (0., .8, .5, 0.), (1., .9, -.6, -.5)]


def local(cx, i, tier):
    """ the pieces, at every state of a grid """
    robot = ROBOTS[i]
    M, S = Model(robot), sl.SLIP(*robot)
    m, l0, k, g = robot
    for r, th, dr, dth, foot in itertools.product(
            (.6 * l0, .9 * l0, l0), (-1., -.3, 0., .5, 1.25), (-1.5, 0., .75),
            (-2., 0., .5), (0., -1.5)):
        cx.states()
        q = np.array([r, th, dr, dth, foot])
        C = Cx(cx, robot=i, state=q.tolist())
        s, _ = M.cart(q)
        q0 = q.copy()

        def rates(q):
            # second derivatives of r and theta of a particle moving with
            # the acceleration (ax, ay)
            p, f = M.cart(q)
            x, y, vx, vy = p[0] - f, p[1], p[2], p[3]
            ax, ay = M.force((x, y))
            r = math.hypot(x, y)
            d = (x * vx + y * vy) / r
            dd = (vx * vx + vy * vy + x * ax + y * ay - d * d) / r
            w = (x * vy - y * vx) / r**2
            dw = (x * ay - y * ax) / r**2 - 2 * w * d / r
            return np.array([d, w, dd, dw, 0.])
        C.same("stance dynamics", S.stance_dynamics(q), rates(q), 1e-10)
        J = quotient(rates, q)
        C.same("gradient of the stance dynamics",
               S.stance_dynamics_gradient(q), J, 1e-6)
        C.same("energy in stance", S.stance_phase_energy(q),
               M.energy(s[:2], s[2:], foot), 1e-11)
        C.same("energy in flight", S.flight_phase_energy(s),
               M.energy(s[:2], s[2:]), 1e-11)
        C.same("lift off guard", S.liftoff_guard(q), r - l0, 1e-12)
        C.same("flight dynamics", S.flight_dynamics(s),
               [s[2], s[3], 0, -g], 1e-12)
        if r == l0:
            C.same("lift off", S.liftoff_transition(q), s, 1e-11)
            C.same("gradient of lift off", S.liftoff_transition_gradient(q),
                   quotient(lambda q: np.array([
                       q[4] - l0 * math.sin(q[1]), l0 * math.cos(q[1]),
                       *M.cart([l0, *q[1:]])[0][2:]]), q), 1e-6)
        # touch down at the leg angle th with the velocity dr, dth
        pre = np.array([foot, l0 * math.cos(th), dr, dth])

        def land(p, t):
            return M.polar([*p[:1], l0 * math.cos(t), *p[2:]],
                           p[0] + l0 * math.sin(t))
        pre0 = pre.copy()
        C.same("touch down", S.touchdown_transition(pre, th),
               land(pre, th), 1e-11)
        C.same("touch down guard", S.touchdown_guard(pre + [0, .25, 0, 0],
                                                     th), .25, 1e-11)
        a = S.touchdown_transition_gradient(pre, th)
        C.same("gradient of touch down (state)", a[0],
               quotient(lambda p: land(p, th), pre), 1e-6)
        C.same("gradient of touch down (leg)", a[1],
               quotient(lambda t: land(pre, t[0]), [th]), 1e-6)
        # from lift off to the apex
        up = np.array([foot, r, dth, dr])
        a = S.liftoff_to_apex_gradient(up)
        if dr < 0:
            C.none("an apex without going up", a)
        else:
            def top(p):
                return np.array([p[0] + p[2] * p[3] / g,
                                 p[1] + p[3]**2 / 2 / g, p[2], p[3] / g])
            J = quotient(top, up)
            C.same("next apex", [*a[1], a[3]], top(up), 1e-11)
            C.same("gradient of the next apex", a[0], J[:3], 1e-6)
            C.same("gradient of the time to the apex", a[2], J[3], 1e-6)
        C.same("apex guard", S.apex_guard(up), dr, 1e-12)
        if not (q0 == q).all() or not (pre0 == pre).all():
            cx.fail("an argument was changed", robot=i)
            return
        cx.traces()
    cx.outcome("local", i)


def stones(cx, i, tier):
    """ touching down on stepping stones; edges belong to the stones """
    robot = ROBOTS[i]
    M, S = Model(robot), sl.SLIP(*robot)
    m, l0, k, g = robot
    for z, x, vx, vz, th, h in itertools.product(
            (1., 1.5, 2.25), (0., -1.), (-1.5, 0., 2.), (-1., 0., 1.5),
            (0., .3, -.6), (-1., 0., .25, 1.)):
        cx.states()
        s = np.array([x, l0 * z, vx, vz])
        d = s[1] - l0 * math.cos(th) - h
        t = (vz + math.sqrt(vz * vz + 2 * g * d)) / g if d >= 0 else None
        if abs(d) < 1e-9 and th != 0:
            continue
        foot = x + l0 * math.sin(th) + vx * t if t is not None else x
        for left, right in ((-9., 9.), (foot - .25, foot + .25),
                            (foot + .01, foot + 1.), (foot - 1., foot - .01),
                            (-math.inf, foot + .5), (foot - .5, math.inf),
                            (foot + .5, math.inf), (-math.inf, math.inf)):
            st = sl.SteppingStone(left, right, h)
            C = Cx(cx, robot=i, state=s.tolist(), stone=[left, right, h],
                   leg=th)
            a = S.time_to_touchdown(s, st, th)
            b = S.can_touch_stepping_stone(s, st, th)
            if t is None:
                if vz <= 0 and (a is not None or b):
                    cx.fail("touch down on a stone above the foot",
                            **C.where)
                continue
            on = left <= foot <= right
            if (a is not None) != on or bool(b) != on:
                cx.fail("touch down on the stone", want=on, **C.where)
            elif on:
                C.same("time to touch down", a, t, 1e-11)
        cx.traces()
    # the edge itself, in exact numbers
    S = sl.SLIP(1., 1., 50., 10.)
    for left, right, on in ((1., 2., True), (0., 1., True),
                            (1.0000001, 2., False), (0., .9999999, False)):
        a = S.time_to_touchdown(np.array([0., 2.25, 2., 0.]),
                                sl.SteppingStone(left, right, 0.), 0.)
        cx.trans()
        if (a is not None) != on:
            cx.fail("edge of a stone", stone=[left, right], want=on)
    H = sh.SlipHybridLinearSystem(*robot)
    for n, (l, r, h) in enumerate(((-math.inf, 0., .25), (1., 2., 0.),
                                   (3., math.inf, -1.))):
        H.add_stepping_stone(l, r, h)
        got = [(e.left, e.right, e.height) for e in H.stepping_stones]
        cx.trans()
        if len(got) != n + 1 or got[-1] != (l, r, h):
            cx.fail("the terrain", got=got)
    got = (H.slip.mass, H.slip.l0, H.slip.k, H.slip.g)
    if got != robot:
        cx.fail("the robot of the hybrid system", got=got, want=robot)
    cx.outcome("stones", i)


def amap(cx, i, j, tier):
    """ apex to apex, its gradient and the gradients of its parts """
    robot = ROBOTS[i]
    M, S = Model(robot), sl.SLIP(*robot)
    m, l0, k, g = robot
    hs, vs, an = grid(tier, robot)
    v = vs[j]
    for h, th, x in itertools.product(hs, an, (0., -2.)):
        if x and th != an[2]:
            continue
        cx.states()
        C = Cx(cx, robot=i, apex=[x, h, v], leg=th)
        s = np.array([x, h, v])
        d = h - l0 * math.cos(th)
        w = M.step([x, h, v, 0.], th) if d >= 0 else None
        if d >= 0 and w is None:
            # (standing still on a straight leg, the code's integration of
            # the stance never ends)
            cx.count("undecided")
            continue
        got = S.apex_map(x, h, v, th)
        grads = S.apex_to_apex_gradient(s, th) if abs(d) > 1e-3 else None
        if d < 0:
            if d < -1e-9:
                C.none("a step with the foot in the ground", got)
                if grads is not None:
                    C.none("a step with the foot in the ground (gradient)",
                           grads)
                    C.none("time to the ground from below it",
                           S.apex_to_touchdown_gradient(s, th))
            continue
        if w == "fell" or w["lo"][3] < -1e-3:
            C.none("a step of a robot that fell", got)
            if grads is not None:
                C.none("a step of a robot that fell (gradient)", grads)
            cx.outcome("fell", th > 0, v > 0)
            cx.count("falls")
            continue
        if w["lo"][3] < 1e-3:
            continue
        if not (v * th < 0 and got[0] is None):
            if got[0] is None:
                cx.fail("the step exists", apex=s, leg=th, robot=i)
                return
            C.same("next apex", got[:3], w["apex"], 1e-4)
            C.same("time to the next apex", got[3], w["t"], 1e-4)
            C.same("energy of the apexes",
                   m * got[2]**2 / 2 + m * g * got[1],
                   m * v * v / 2 + m * g * h, 1e-4)
        cx.outcome("step", i, j, h, th)
        cx.count("steps")
        if grads is None:
            continue
        if grads[0] is None:
            cx.fail("the step exists (gradient)", apex=s, leg=th, robot=i)
            return
        C.same("next apex (gradient)", grads[2], w["apex"], 1e-4)
        C.same("time to the next apex (gradient)", grads[5], w["t"], 1e-4)
        C.same("state before touch down", grads[8], w["td"], 1e-9)
        C.same("state after lift off", grads[11], w["lo"], 1e-4)
        a = S.apex_to_touchdown_gradient(s, th)
        C.same("touch down state", a[2], w["td"], 1e-9)
        C.same("touch down time", a[5], w["t_td"], 1e-9)
        if not (s == [x, h, v]).all():
            cx.fail("the apex state was changed", robot=i)
            return
        if d < .02 * l0:
            continue

        def whole(z):
            w = M.step([z[0], z[1], z[2], 0.], z[3])
            if w is None or w == "fell":
                return None
            return np.concatenate((w["apex"], [w["t"]], w["td"], [w["t_td"]],
                                   w["lo"]))
        J = quotient(whole, [x, h, v, th])
        if J is None or abs(J).max() > 300:
            cx.count("undecided")
            continue
        tol = 2e-3
        C.same("gradient of the next apex", grads[0], J[:3, :3], tol)
        C.same("gradient of the next apex (leg)", grads[1], J[:3, 3], tol)
        C.same("gradient of the time", grads[3], J[3, :3], tol)
        C.same("gradient of the time (leg)", grads[4], J[3, 3], tol)
        C.same("gradient of touch down", grads[6], J[4:8, :3], tol)
        C.same("gradient of touch down (leg)", grads[7], J[4:8, 3], tol)
        C.same("gradient of lift off", grads[9], J[9:13, :3], tol)
        C.same("gradient of lift off (leg)", grads[10], J[9:13, 3], tol)
        C.same("apex to touch down", a[0], J[4:8, :3], 1e-5)
        C.same("apex to touch down (leg)", a[1], J[4:8, 3], 1e-5)
        C.same("time to touch down, gradient", a[3], J[8, :3], 1e-5)
        C.same("time to touch down, gradient (leg)", a[4], J[8, 3], 1e-5)

        def stance(q):
            p, f = M.cart(q)
            b = M.stance(p, f)
            if b is None or b == "fell":
                return None
            return np.concatenate((M.polar(b[1], f), [b[0]]))
        q = M.polar(w["td"], w["foot"])
        J = quotient(stance, q)
        a = S.touchdown_to_liftoff_gradient(q)
        if a[0] is None:
            cx.fail("the stance ends", robot=i, state=q)
            return
        if J is None or abs(J).max() > 300:
            continue
        C.same("stance map", [*a[1], a[3]], stance(q), 1e-4)
        C.same("gradient of the stance map", a[0], J[:5], tol)
        C.same("gradient of the time in stance", a[2], J[5], tol)
        cx.traces()


def linear(cx, i, j, tier):
    """ the linear approximation of the map and of its domain """
    robot = ROBOTS[i]
    M, H = Model(robot), sh.SlipHybridLinearSystem(*robot)
    m, l0, k, g = robot
    hs, vs, an = grid(tier, robot)
    v = vs[j]
    for h, th, x, z0 in itertools.product(hs, an, (0., 1.5), (0., -.75, .5)):
        if (x != 0) != (z0 != 0) or h - l0 * math.cos(th) < .02 * l0:
            continue
        a = np.array([x, h + z0, v])

        def whole(y):
            w = M.step([y[0], y[1] - z0, y[2], 0.], y[3])
            if w is None or w == "fell":
                return None
            return np.array([w["apex"][0], w["apex"][1] + z0, w["apex"][2],
                             w["t"], w["lo"][3], w["foot"]])
        y0 = np.array([x, h + z0, v, th])
        w = whole(y0)
        if w is None or abs(w[4]) < 1e-3:
            continue
        good = w[4] > 0
        J = quotient(whole, y0) if good else np.zeros((6, 4))
        if J is None or abs(J).max() > 300:
            continue
        f = w[5]
        for left, right in ((-math.inf, math.inf), (f - .5, f + 1.),
                            (f - 2., math.inf), (-math.inf, f + .125),
                            (f - 1e-3, f + 1e-3),
                            (f + .1, f + 1.), (f - 3., f - .2)):
            cx.states()
            C = Cx(cx, robot=i, apex=a.tolist(), leg=th,
                   stone=[left, right, z0])
            st = sl.SteppingStone(left, right, z0)
            a0 = a.copy()
            r = H.apex_map_linear_approximation(a, st, th)
            if not (a0 == a).all():
                cx.fail("the apex state was changed", **C.where)
                return
            if not good or not left <= f <= right:
                C.none("a step next to the stone", r)
                cx.outcome("miss", i)
                continue
            if r[0] is None:
                cx.fail("the step on the stone exists", **C.where)
                return
            A, B, c, at, bt, ct, P, q = r
            tol = 2e-3
            C.same("A", A, J[:3, :3], tol)
            C.same("B", B, J[:3, 3], tol)
            C.same("time: slope", [*np.ravel(at), *np.ravel(bt)], J[3], tol)
            if np.size(A) == 9 and np.size(B) == 3 and np.size(c) == 3:
                C.same("value of the linear map", np.reshape(A, (3, 3)) @ a
                       + np.ravel(B) * th + np.ravel(c), w[:3], 1e-4)
                C.same("c", c, w[:3] - J[:3] @ y0, 5e-3)
            C.same("value of the time", np.ravel(at) @ a + bt * th + ct,
                   w[3], 1e-4)
            # the domain: every row is one of the linearised conditions
            conds = [(h - l0 * math.cos(th),
                      np.array([0, 1., 0, l0 * math.sin(th)])),
                     (w[4], J[4])]
            if left > -math.inf:
                conds.append((f - left, J[5]))
            if right < math.inf:
                conds.append((right - f, -J[5]))
            want = [np.array([*-dg, gv - dg @ y0]) / np.linalg.norm(dg)
                    for gv, dg in conds]
            P, q = np.asarray(P), np.ravel(q)
            cx.trans()
            if P.shape != (len(want), 4) or q.shape != (len(want), ):
                cx.fail("shape of the domain", got=list(P.shape),
                        **C.where)
                return
            rows = [np.array([*p, e]) / max(np.linalg.norm(p), 1e-9)
                    for p, e in zip(P, q)]
            if not any(all(abs(rows[b] - want[o]).max() <=
                           5e-3 * (1 + abs(want[o]).max())
                           for o, b in enumerate(perm))
                       for perm in itertools.permutations(range(len(want)))):
                cx.fail("the domain of the linear map", got=rows, want=want,
                        **C.where)
                return
            cx.outcome("linear", i, j, left > -math.inf, right < math.inf)
            cx.traces()


def sim(cx, i, j, tier):
    """ every sequence of leg angles """
    robot = ROBOTS[i]
    M, S = Model(robot), sl.SLIP(*robot)
    m, l0, k, g = robot
    u = math.sqrt(g * l0) / 3
    x0 = np.array(STARTS[j]) * [1., l0, u, u]
    an = (.1, .25, -.15, .5, 1., -1.) if tier == "quick" else ANGLES
    depth = 2 if tier == "quick" else 3
    for n in range(1, depth + 1):
        for legs in itertools.product(an, repeat=n):
            if x0[1] <= l0 * math.cos(legs[0]):
                continue
            cx.states()
            C = Cx(cx, robot=i, start=x0.tolist(), legs=list(legs))
            # the reference history
            want, s, t, end = [], x0.copy(), 0., True
            for th in legs:
                d = s[1] - l0 * math.cos(th)
                if abs(d) < 1e-3:
                    end = None
                    break
                if d < 0:
                    break
                a = M.fall(s, th)
                foot = a[1][0] + l0 * math.sin(th)
                want.append(("flight", t, s, t + a[0], a[1], None))
                b = M.stance(a[1], foot)
                if b is None:
                    end = None
                    break
                t += a[0]
                if b == "fell":
                    want.append(("fall", t, a[1], None, None, foot))
                    break
                want.append(("stance", t, a[1], t + b[0], b[1], foot))
                if b[1][3] < 1e-2:
                    end = None
                    break
                up = b[1][3] / g
                t += b[0] + up
                s = np.array([b[1][0] + b[1][2] * up,
                              b[1][1] + b[1][3]**2 / 2 / g, b[1][2], 0.])
            if end is None and len(want) < 2:
                continue
            start = x0.copy()
            got = S.simulate(x0, list(legs))
            cx.trans()
            if not (start == x0).all():
                cx.fail("the start was changed", **C.where)
                return
            if len(got) < len(want) or (end and len(got) != len(want)):
                cx.fail("number of phases", got=len(got), want=len(want),
                        **C.where)
                return
            for p, (kind, ta, sa, tb, sb, foot) in enumerate(want):
                G = got[p]
                tol = 2e-4
                ok = C.same("start of a phase (time)", G.t[0], ta, tol)
                if kind == "flight":
                    e0, e1 = sa, sb
                else:
                    e0 = M.polar(sa, foot)
                    e1 = None if sb is None else M.polar(sb, foot)
                ok = ok and C.same("start of a phase", G.y[:, 0], e0, tol)
                if tb is not None:
                    ok = ok and C.same("end of a phase (time)", G.t[-1], tb,
                                       tol) and C.same(
                        "end of a phase", G.y[:, -1], e1, 1e-3)
                else:
                    ok = ok and C.same("leg angle of a fallen robot",
                                       abs(G.y[1, -1]), math.pi / 2, 1e-3)
                if not ok:
                    return
                E = None
                for y, tt in zip(G.y.T, G.t):
                    if kind == "flight":
                        r = tt - ta
                        if not C.same("flight", y, [
                                sa[0] + sa[2] * r,
                                sa[1] + sa[3] * r - g * r * r / 2, sa[2],
                                sa[3] - g * r], tol):
                            return
                    else:
                        c, f = M.cart(y)
                        e = M.energy(c[:2], c[2:], f)
                        E = M.energy(sa[:2], sa[2:], foot)
                        if not C.same("energy in stance", e, E, 1e-3):
                            return
                cx.outcome(kind, p, th > 0)
            cx.traces()


def work(cx, task):
    kind, i, j, tier = task

    def stuck(*_):
        raise RuntimeError("the simulation does not end")
    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(240 if tier == "quick" else 1500)
    try:
        run(cx, kind, i, j, tier)
    finally:
        signal.alarm(0)
    cx.sample(task=list(task))


def run(cx, kind, i, j, tier):
    if kind == "local":
        local(cx, i, tier)
    elif kind == "stones":
        stones(cx, i, tier)
    elif kind == "map":
        amap(cx, i, j, tier)
    elif kind == "linear":
        linear(cx, i, j, tier)
    else:
        sim(cx, i, j, tier)


if __name__ == "__main__":
    mc.main("C34", tasks, work,
            rule="every robot x apex state x leg angle x stepping stone of "
            "the grids and every sequence of leg angles up to the depth "
            "bound; states = states and histories, transitions = answers "
            "compared with the Cartesian reference",
            assumptions=[
                "the code integrates with rtol 1e-8: maps are compared to "
                "1e-4, gradients to 2e-3 relative",
                "grazing contacts (leg not shortening at touch down, lift off "
                "within 1e-3 of the horizontal) and legs shorter than 15% are "
                "left out",
                "apex_map refuses steps with the leg pointing backwards"])
