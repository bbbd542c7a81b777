"""
C25: simulation models.  The fixed-step integrator is compared with an
independently written classical Runge-Kutta step over every system / step /
length / array kind of a family (and its call history is monitored); every
plant model of the examples is compared, on a product grid of states and
inputs, with an independently derived equation of motion (Newton's law with a
solved constraint force, rigid body kinematics), its linearisation with the
derivative of that reference, and its controllers with the optimality equation
they are supposed to satisfy.
"""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import scipy.integrate  # noqa: E402
import scipy.linalg  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.integrator as integrator  # noqa: E402
import neural_network_lyapunov.examples.rocket.rocket as rocket  # noqa: E402
import neural_network_lyapunov.examples.pole.pole as pole  # noqa: E402
import neural_network_lyapunov.examples.pendulum.pendulum as pendulum  # noqa
import neural_network_lyapunov.examples.quadrotor2d.quadrotor_2d as quad2d  # noqa
import neural_network_lyapunov.examples.quadrotor3d.quadrotor as quad3d  # noqa
import neural_network_lyapunov.examples.car.unicycle as unicycle  # noqa
import neural_network_lyapunov.examples.car.acceleration_car as acar  # noqa

DT = torch.float64
PI = math.pi
THETA = (0., PI / 2, -PI / 2, PI, .7, -2.3)


# ---------------------------------------------------------------- references
def rot2(t):
    return np.array([[math.cos(t), -math.sin(t)],
                     [math.sin(t), math.cos(t)]])


def ref_rocket(p, x, u):
    """ force u (body frame) applied at the bottom end of the rocket """
    R = rot2(x[2])
    acc = R @ np.array([u[0], u[1]]) / p.mass + np.array([0, -p.gravity])
    arm = R @ np.array([0., -p.length / 2])
    f = R @ np.array([u[0], u[1]])
    torque = arm[0] * f[1] - arm[1] * f[0]
    return np.array([x[3], x[4], x[5], acc[0], acc[1], torque / p.inertia])


def ref_rocket2(p, x, u):
    """ the same rocket, described by its bottom end """
    arm = rot2(x[2]) @ np.array([0., -p.length / 2])  # bottom - centre
    d = ref_rocket(p, np.concatenate((np.zeros(2), x[2:])), u)
    w, al = x[5], d[5]
    perp = np.array([-arm[1], arm[0]])
    acc = d[3:5] + al * perp - w * w * arm
    return np.array([x[3], x[4], x[5], acc[0], acc[1], al])


def ref_pole(p, x, u):
    """ two point masses and a massless rod: solve for the rod force """
    r = np.array([x[0], x[1],
                  math.sqrt(p.length**2 - x[0]**2 - x[1]**2)])
    v = np.array([x[5], x[6], -(x[0] * x[5] + x[1] * x[6]) / r[2]])
    # m_ee a_A = u + T r - m_ee g ;  m_s a_B = -T r - m_s g
    # r . (a_B - a_A) + v.v = 0
    u = np.asarray(u)
    T = (v @ v - r @ u / p.m_ee) / (r @ r * (1 / p.m_ee + 1 / p.m_sphere))
    g = np.array([0, 0, p.gravity])
    aA = (u + T * r) / p.m_ee - g
    aB = -T * r / p.m_sphere - g
    rel = aB - aA
    return np.array([x[5], x[6], aA[0], aA[1], aA[2], rel[0], rel[1]])


def ref_pole_flipped(p, x, u):
    """ known finding: the velocity cross term of the vertical generalised
    force has the wrong sign """
    z = math.sqrt(p.length**2 - x[0]**2 - x[1]**2)
    JA = np.hstack((np.eye(3), np.zeros((3, 2))))
    JB = np.hstack((np.eye(3), [[1., 0], [0, 1.], [-x[0] / z, -x[1] / z]]))
    M = p.m_ee * JA.T @ JA + p.m_sphere * JB.T @ JB
    f = np.zeros(5)
    f[2] = -4 * p.m_sphere * x[0] * x[1] * x[5] * x[6] / z**3
    ret = ref_pole(p, x, u)
    ret[2:] += np.linalg.solve(M, f)
    return ret


def ref_pendulum(p, x, u):
    tau = u[0] - p.damping * x[1] + p.length * np.array(
        [0, -p.mass * p.gravity]) @ np.array([math.cos(x[0]),
                                              math.sin(x[0])])
    return np.array([x[1], tau / (p.mass * p.length**2)])


def ref_quad2d(p, x, u):
    f = rot2(x[2]) @ np.array([0, u[0] + u[1]])
    return np.array([x[3], x[4], x[5], f[0] / p.mass,
                     f[1] / p.mass - p.gravity,
                     p.length * (u[0] - u[1]) / p.inertia])


def rpy_mat(rpy):
    def ax(i, a):
        R = np.eye(3)
        j, k = (i + 1) % 3, (i + 2) % 3
        R[j, j] = R[k, k] = math.cos(a)
        R[k, j] = math.sin(a)
        R[j, k] = -math.sin(a)
        return R
    return ax(2, rpy[2]) @ ax(1, rpy[1]) @ ax(0, rpy[0])


def ref_quad3d(p, x, u):
    R = rpy_mat(x[3:6])
    acc = R[:, 2] * sum(u) / p.mass - np.array([0, 0, p.gravity])
    arms = p.arm_length * np.array([[1., 0, 0], [0, 1., 0], [-1., 0, 0],
                                    [0, -1., 0]])
    torque = np.zeros(3)
    for i in range(4):
        torque = torque + np.cross(arms[i], [0, 0, u[i]])
        torque[2] = torque[2] + (-1)**i * p.z_torque_to_force_factor * u[i]
    J = np.diag(p.inertia)
    w = np.asarray(x[9:12])
    wdot = np.linalg.solve(J, torque - np.cross(w, J @ w))
    # body angular velocity as a function of the angle rates:
    #   w = roll' ex + Rx' pitch' ey + (Ry Rx)' yaw' ez
    Rx = rpy_mat([x[3], 0, 0])
    Ryx = rpy_mat([x[3], x[4], 0])
    E = np.stack([np.array([1., 0, 0]), Rx.T @ np.array([0, 1., 0]),
                  Ryx.T @ np.array([0, 0, 1.])], axis=1)
    return np.concatenate((x[6:9], np.linalg.solve(E, w), acc, wdot))


def ref_unicycle(p, x, u):
    return np.array([u[0] * math.cos(x[2]), u[0] * math.sin(x[2]), u[1]])


def ref_acar(p, x, u):
    return np.array([x[3] * math.cos(x[2]), x[3] * math.sin(x[2]), u[0],
                     u[1]])


PLANTS = {
    "rocket": (lambda v: rocket.Rocket(), ref_rocket),
    "rocket2": (lambda v: rocket.Rocket2(), ref_rocket2),
    "pole": (lambda v: pole.Pole(*[(2., 5., 1.5), (1., 1., .5),
                                   (.3, 2., 1.)][v]), ref_pole),
    "pendulum": (lambda v: pendulum.Pendulum(DT), ref_pendulum),
    "quad2d": (lambda v: quad2d.Quadrotor2D(DT), ref_quad2d),
    "quad3d": (lambda v: quad3d.Quadrotor(DT), ref_quad3d),
    "unicycle": (lambda v: unicycle.Unicycle(DT), ref_unicycle),
    "acar": (lambda v: acar.AccelerationCar(DT), ref_acar),
}


def retune(p, name, v):
    """ A variant with other physical parameters (they are attributes). """
    if v == 0 or name in ("pole", "unicycle", "acar"):
        return
    for i, a in enumerate(("length", "mass", "inertia", "gravity", "damping",
                           "arm_length", "z_torque_to_force_factor")):
        if hasattr(p, a):
            setattr(p, a, getattr(p, a) * (1.25 + .25 * i))
    if name == "quad3d":
        p.inertia = np.array([3E-3, 5E-3, 9E-3])


def grid(name, tier):
    th = THETA if tier == "thorough" else THETA[:1] + THETA[3:]
    vals = {
        "rocket": [(0., 2.), (-1.,), th, (.5,), (-2., 1.), (0., -3., 1.)],
        "rocket2": [(0., 2.), (-1.,), th, (.5,), (-2., 1.), (0., -3., 1.)],
        "pole": [(0., .2, -.35), (0., -.3, .15), (.4,), (-1.,), (0., .5),
                 (0., 2., -1.), (0., -.7, 3.)],
        "pendulum": [THETA, (0., 1., -2.5)],
        "quad2d": [(0., 2.), (-1.,), th, (.5,), (-2., 1.), (0., -3.)],
        "quad3d": [(1.,), (-2.,), (.5,), (0., .6, -2.), (0., -.8, 1.2),
                   (0., 2.5, -1.), (1.5,), (0., -.5), (2.,), (0., 1., -2.),
                   (0., -1.5, .5), (0., .7)],
        "unicycle": [(0., 3.), (-1., 2.), THETA],
        "acar": [(0., 3.), (-1., 2.), THETA, (0., 1., -2.)],
    }[name]
    uvals = {
        "rocket": [(0., .5, -1.), (0., 4.905, 2.)],
        "rocket2": [(0., .5, -1.), (0., 4.905, 2.)],
        "pole": [(0., 2.), (0., -3.), (0., 49., 10.)],
        "pendulum": [(0., 1.5, -20.)],
        "quad2d": [(0., 2.38383, 5.), (0., 2.38383, 1.)],
        "quad3d": [(0., 1.14777), (1.14777, 3.), (1.14777, .2), (1.14777,)],
        "unicycle": [(0., 1., -2.), (0., .5, -1.)],
        "acar": [(0., 1., -2.), (0., .5, -1.)],
    }[name]
    if name == "pole":
        return [x for x in itertools.product(*vals)], list(
            itertools.product(*uvals))
    return list(itertools.product(*vals)), list(itertools.product(*uvals))


def derivative(f, z):
    cols = []
    for i in range(len(z)):
        h = 1e-5 * max(1., abs(z[i]))
        e = np.zeros(len(z))
        e[i] = h
        cols.append((8 * (f(z + e) - f(z - e)) -
                     (f(z + 2 * e) - f(z - 2 * e))) / (12 * h))
    return np.stack(cols, axis=1)


def close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(
        np.abs(a - b) <= tol * np.maximum(1., np.abs(b)))


LINEARIZE = {
    "rocket": ["linearized_dynamics:np"],
    "rocket2": ["linearized_dynamics:np"],
    "pole": ["gradient:torch"],
    "quad2d": ["linearized_dynamics:np", "linearized_dynamics:torch"],
    "quad3d": ["dynamics_gradient:np"],
    "unicycle": ["dynamics_gradient:np", "dynamics_gradient:torch"],
}


def plant(cx, task):
    _, name, variant, part, parts, tier = task
    make, ref = PLANTS[name]
    p = make(variant)
    retune(p, name, variant)
    if name == "pole":
        x, u = np.array([.2, -.3, .4, -1., .5, 2., -.7]), np.zeros(3)
        if close(p.dynamics(x, u), ref_pole_flipped(p, x, u), 1e-9):
            cx.fail("pole: sign of the velocity cross term", x=x)
            ref = ref_pole_flipped
    with_torch = True
    if name == "acar":
        try:
            p.dynamics(torch.zeros(4, dtype=DT), torch.zeros(2, dtype=DT))
        except RuntimeError as e:
            if "zero-dimensional" not in str(e):
                raise
            cx.fail("acar: dynamics of tensors crashes")
            with_torch = False
    xs, us = grid(name, tier)
    pts = [(x, u) for x in xs for u in us][part::parts]
    for n, (x, u) in enumerate(pts):
        if n % 64 == 0 and cx.out_of_time():
            return
        cx.states()
        x, u = np.array(x), np.array(u)
        want = ref(p, x, u)
        xn, un = x.copy(), u.copy()
        got = p.dynamics(xn, un)
        if not close(got, want, 1e-9):
            cx.fail(f"{name}: dynamics (numpy)", x=x, u=u, got=got, want=want,
                    variant=variant)
            return
        xt, ut = torch.tensor(x, dtype=DT), torch.tensor(u, dtype=DT)
        gt = p.dynamics(xt, ut) if with_torch else torch.from_numpy(want)
        if not isinstance(gt, torch.Tensor) or gt.dtype != DT or not close(
                gt.detach().numpy(), want, 1e-9):
            cx.fail(f"{name}: dynamics (torch)", x=x, u=u, got=gt, want=want,
                    variant=variant)
            return
        if not (np.array_equal(x, xn) and np.array_equal(u, un)
                and np.array_equal(xt.numpy(), x)
                and np.array_equal(ut.numpy(), u)):
            cx.fail(f"{name}: dynamics changed its arguments", x=x, u=u)
            return
        cx.trans(2)
        # linearisation
        if name in LINEARIZE and (n % 3 == 0 or tier == "thorough"):
            J = derivative(lambda z: ref(p, z[:len(x)], z[len(x):]),
                           np.concatenate((x, u)))
            Aw, Bw = J[:, :len(x)], J[:, len(x):]
            for how in LINEARIZE[name]:
                fn, kind = how.split(":")
                args = (x.copy(), u.copy()) if kind == "np" else (
                    xt.clone(), ut.clone())
                A, B = getattr(p, fn)(*args)
                if kind == "torch":
                    if args[0].requires_grad or args[1].requires_grad:
                        cx.fail(f"{name}: {fn} left requires_grad set")
                        return
                    A, B = A.detach().numpy(), B.detach().numpy()
                if not (close(A, Aw, 1e-6) and close(B, Bw, 1e-6)):
                    cx.fail(f"{name}: linearisation ({kind})", x=x, u=u, A=A,
                            B=B, want_A=Aw, want_B=Bw, variant=variant)
                    return
                cx.trans()
            # the torch model is differentiable with the same derivative
            if n % 9 == 0 and with_torch:
                ja, jb = torch.autograd.functional.jacobian(
                    p.dynamics, (xt, ut))
                if not (close(ja.numpy(), Aw, 1e-6)
                        and close(jb.numpy(), Bw, 1e-6)):
                    cx.fail(f"{name}: autodiff of the torch model", x=x, u=u,
                            variant=variant)
                    return
        if name == "pendulum":
            A, B = p.dynamics_gradient(torch.tensor(x, dtype=DT))
            J = derivative(lambda z: ref(p, z[:2], z[2:]),
                           np.concatenate((x, u)))
            if not close(np.hstack((A.numpy(), B.numpy())), J, 1e-6):
                cx.fail("pendulum: linearisation", x=x, A=A, B=B, want=J,
                        variant=variant)
                return
            E = energy_pendulum(cx, p, x, u)
            if E:
                return
        cx.outcome(name, variant, np.round(want, 4))
        cx.traces()
    cx.sample(plant=name, x=x, u=u, xdot=want)


def energy_pendulum(cx, p, x, u):
    E = -p.mass * p.gravity * p.length * math.cos(x[0]) + \
        .5 * p.mass * (p.length * x[1])**2
    for kind in ("np", "torch"):
        z = x if kind == "np" else torch.tensor(x, dtype=DT)
        got = float(p.potential_energy(z)) + float(p.kinetic_energy(z))
        if not (abs(got - E) <= 1e-9 * max(1, abs(E))):
            cx.fail("pendulum: energy", x=x, got=got, want=E)
            return True
    xdes = np.array([PI, 0.])
    Ed = p.mass * p.gravity * p.length
    for gain in (.5, 2.):
        c = p.energy_shaping_control(x, xdes, gain)
        if c.shape != (1, ):
            cx.fail("pendulum: energy shaping control shape")
            return True
        # pumps energy towards the desired level, never away from it
        want = -gain * (x[1] if x[1] != 0 else 1.) * (E - Ed)
        if not (abs(c[0] - want) <= 1e-9 * max(1, abs(want))):
            cx.fail("pendulum: energy shaping control", x=x, got=c, want=want)
            return True
    return False


def kleinman(A, B, Q, R, K):
    """ None if u = K x is the LQR policy of (A, B, Q, R). """
    M = A + B @ K
    if np.linalg.eigvals(M).real.max() >= -1e-9:
        return "closed loop is not stable"
    S = scipy.linalg.solve_continuous_lyapunov(M.T, -(Q + K.T @ R @ K))
    if not close(K, -np.linalg.solve(R, B.T @ S), 1e-5):
        return "gain is not optimal"
    return S


def lqr(cx, task):
    for variant in (0, 1):
        p = pendulum.Pendulum(DT)
        retune(p, "pendulum", variant)
        J = derivative(lambda z: ref_pendulum(p, z[:2], z[2:]),
                       np.array([PI, 0., 0.]))
        for q1, q2, r in itertools.product((1., 10., .1), (1., 5.),
                                           (1., .1, 20.)):
            cx.states()
            Q, R = np.diag([q1, q2]), np.array([[r]])
            K = np.asarray(p.lqr_control(Q, R))
            v = kleinman(J[:, :2], J[:, 2:], Q, R, K)
            cx.trans()
            if isinstance(v, str):
                cx.fail("pendulum lqr: " + v, Q=Q, R=R, K=K)
                return
        q = quad2d.Quadrotor2D(DT)
        retune(q, "quad2d", variant)
        if not close(q.u_equilibrium.numpy(), [q.mass * q.gravity / 2] * 2):
            cx.fail("quad2d: equilibrium thrust", got=q.u_equilibrium)
            return
        xe, ue = np.zeros(6), q.u_equilibrium.numpy()
        J = derivative(lambda z: ref_quad2d(q, z[:6], z[6:]),
                       np.concatenate((xe, ue)))
        for a, b, r, kind in itertools.product((1., 10.), (1., .1),
                                               (1., 10.), ("np", "torch")):
            cx.states()
            Q = np.diag([a, 2 * a, 10., b, b, b / 2])
            R = np.array([[r, .1], [.1, 2 * r]])
            args = (xe, ue) if kind == "np" else (torch.from_numpy(xe),
                                                  torch.from_numpy(ue))
            K, S = q.lqr_control(Q, R, *args)
            v = kleinman(J[:, :6], J[:, 6:], Q, R, K)
            cx.trans()
            if isinstance(v, str):
                cx.fail("quad2d lqr: " + v, Q=Q, R=R, K=K)
                return
            if not close(S, v, 1e-5):
                cx.fail("quad2d lqr: cost-to-go matrix", got=S, want=v)
                return
        # equilibria of the models
        for name, x, u in (
                ("rocket", np.zeros(6), lambda p: [0, p.hover_thrust]),
                ("rocket2", np.zeros(6), lambda p: [0, p.hover_thrust]),
                ("quad2d", np.zeros(6), lambda p: p.u_equilibrium.numpy()),
                ("pendulum", np.array([PI, 0]), lambda p: [0.]),
                ("pendulum", np.zeros(2), lambda p: [0.]),
                ("unicycle", np.array([1., 2, .3]), lambda p: [0., 0]),
                ("acar", np.array([1., 2, .3, 0]), lambda p: [0., 0])):
            p = PLANTS[name][0](0)
            retune(p, name, variant)
            d = p.dynamics(x.copy(), np.array(u(p), dtype=float))
            cx.states()
            if not close(d, np.zeros(len(x)), 1e-9):
                cx.fail(f"{name}: equilibrium", got=d)
                return
    p = quad3d.Quadrotor(DT)
    if not close(p.dynamics(np.zeros(12), np.full(4, p.hover_thrust)),
                 np.zeros(12)):
        cx.fail("quad3d: equilibrium")
    # documented geometry of the vehicles: torques are proportional to the
    # arm, thrust is shared equally, yaw torque is the stated fraction
    cx.traces()
    cx.outcome("lqr")


def pose(cx, task):
    """ next_pose: exact solutions """
    tol = 5e-3
    for kind, dt in itertools.product(("np", "torch"), (.01, .1, .5)):
        for th, v, w in itertools.product(THETA, (0., 1., -2.),
                                          (0., .5, -1.)):
            cx.states()
            x = np.array([.5, -1., th])
            u = np.array([v, w])
            if w == 0:
                want = x + dt * np.array([v * math.cos(th), v * math.sin(th),
                                          0])
            else:
                want = x + np.array([
                    v / w * (math.sin(th + w * dt) - math.sin(th)),
                    -v / w * (math.cos(th + w * dt) - math.cos(th)), w * dt])
            p = unicycle.Unicycle(DT)
            a = (x.copy(), u.copy()) if kind == "np" else (
                torch.from_numpy(x.copy()), torch.from_numpy(u.copy()))
            got = p.next_pose(a[0], a[1], dt)
            cx.trans()
            if not close(got, want, tol):
                cx.fail("unicycle: next_pose", x=x, u=u, dt=dt, got=got,
                        want=want)
                return
            # accelerating car: heading linear, speed linear
            if kind == "np":
                for acc in (0., 1.5):
                    z = np.array([.5, -1., th, v])
                    c = acar.AccelerationCar(DT)
                    got = c.next_pose(z.copy(), np.array([w, acc]), dt)
                    s = scipy.integrate.solve_ivp(
                        lambda t, q: [(v + acc * t) * math.cos(th + w * t),
                                      (v + acc * t) * math.sin(th + w * t)],
                        (0, dt), z[:2], rtol=1e-10, atol=1e-12).y[:, -1]
                    want = np.array([s[0], s[1], th + w * dt])
                    cx.trans()
                    if not close(got, want, tol):
                        cx.fail("acar: next_pose", x=z, u=[w, acc], dt=dt,
                                got=got, want=want)
                        return
    q = quad2d.Quadrotor2D(DT)
    for kind, dt, th, du in itertools.product(
            ("np", "torch"), (.01, .1), THETA, (0., .1, -.2)):
        cx.states()
        x = np.array([1., 2., th, .5, -1., .3])
        u = q.u_equilibrium.numpy() + np.array([du, -du])
        want = scipy.integrate.solve_ivp(
            lambda t, z: ref_quad2d(q, z, u), (0, dt), x, rtol=1e-10,
            atol=1e-12).y[:, -1]
        a = (x.copy(), u.copy()) if kind == "np" else (
            torch.from_numpy(x.copy()), torch.from_numpy(u.copy()))
        got = q.next_pose(a[0], a[1], dt)
        cx.trans()
        if not close(got, want, tol):
            cx.fail("quad2d: next_pose", x=x, u=u, dt=dt, got=got, want=want)
            return
    cx.traces()
    cx.outcome("pose")


# ---------------------------------------------------------------- integrator
def systems():
    A = np.array([[0., 1.], [-2., -.3]])
    B = np.array([[0.], [1.]])

    def lin(x, u, m=None):
        if isinstance(x, torch.Tensor):
            return torch.from_numpy(A) @ x + torch.from_numpy(B) @ u
        return A @ x + B @ u

    def nonlin(x, u):
        lib = torch if isinstance(x, torch.Tensor) else np
        y = lib.stack((x[1], lib.sin(x[0]) * u[0] - x[1] * x[1] * x[0]))
        return y

    def clock(x, u):
        # x[0] is time: a quadrature, so every stage must see its own time
        lib = torch if isinstance(x, torch.Tensor) else np
        return lib.stack((1. + 0 * x[0], x[0]**4 + u[0]**2 * x[0]**3))

    return {"linear": (lin, 2, 1), "nonlinear": (nonlin, 2, 1),
            "clock": (clock, 2, 1)}


def rk4_reference(f, u, x0, dt, n):
    """ Butcher tableau, double precision """
    a = [[], [.5], [0, .5], [0, 0, 1.]]
    b = [1 / 6, 1 / 3, 1 / 3, 1 / 6]
    x = np.array(x0, dtype=float)
    for _ in range(n):
        k = []
        for row in a:
            y = x + dt * sum((c * kk for c, kk in zip(row, k)), 0 * x)
            k.append(np.asarray(f(y, u), dtype=float))
        x = x + dt * sum(bi * ki for bi, ki in zip(b, k))
    return x


CONTROLLERS = {
    "constant": lambda x: x[:1] * 0 + .7,
    "feedback": lambda x: -2. * x[:1] + .5 * x[1:2],
    "alias": lambda x: x[:1],
}


def rk4(cx, task):
    _, sysname, tier = task
    f, nx, nu = systems()[sysname]
    steps = (0, 1, 2, 3, 7) if tier == "quick" else (0, 1, 2, 3, 5, 7, 13, 50)
    dts = (0., .01, .1, .5, -.1)
    for kind, cname, dt, n, x0 in itertools.product(
            ("np", "torch"), CONTROLLERS, dts, steps,
            ((0., 0.), (.5, -1.), (2., .25))):
        cx.states()
        x = np.array(x0) if kind == "np" else torch.tensor(x0, dtype=DT)
        keep = np.array(x0)
        calls = []
        uses = []

        def controller(z):
            calls.append(np.array(z))
            return CONTROLLERS[cname](z)

        def dyn(z, u):
            uses.append(np.array(u))
            return f(z, u)
        with np.errstate(all="ignore"):
            x_end, u = integrator.rk4_constant_control(dyn, controller, x, dt,
                                                       n)
        cx.trans()
        u_ref = np.array(CONTROLLERS[cname](keep))
        want = rk4_reference(f, u_ref, keep, dt, n)
        if not (np.abs(want) < 1e6).all():
            cx.count("runs that blow up, not compared")
            continue
        where = dict(system=sysname, kind=kind, controller=cname, dt=dt,
                     steps=n, x0=list(x0))
        if not close(np.array(u), u_ref, 1e-12):
            cx.fail("integrator: control is not the controller's answer at "
                    "the start", got=u, want=u_ref, **where)
            return
        if not close(np.array(x_end), want, 1e-10):
            cx.fail("integrator: end state", got=x_end, want=want, **where)
            return
        if any(not close(v, u_ref, 1e-12) for v in uses):
            cx.fail("integrator: control changed during the step", **where)
            return
        if any(not np.array_equal(c, keep) for c in calls) or (
                n > 0 and not calls):
            cx.fail("integrator: controller asked away from the start",
                    calls=calls, **where)
            return
        if not np.array_equal(np.array(x), keep):
            cx.fail("integrator: start state was modified", **where)
            return
        if isinstance(x_end, torch.Tensor) != (kind == "torch"):
            cx.fail("integrator: kind of array", **where)
            return
        # composing two shorter runs under the same control gives the same end
        for k in range(1, n):
            mid, _ = integrator.rk4_constant_control(
                f, lambda z: u, x, dt, k)
            end, _ = integrator.rk4_constant_control(
                f, lambda z: u, mid, dt, n - k)
            cx.trans()
            if not close(np.array(end), want, 1e-10):
                cx.fail("integrator: runs do not compose", split=k, **where)
                return
            if tier == "quick" and k >= 2:
                break
        cx.outcome(sysname, cname, np.round(want, 6))
        cx.traces()
    # differentiable
    x = torch.tensor([.5, -1.], dtype=DT, requires_grad=True)
    g = torch.autograd.functional.jacobian(
        lambda z: integrator.rk4_constant_control(
            f, CONTROLLERS["feedback"], z, .1, 3)[0], x)
    w = derivative(lambda z: rk4_reference(f, np.array(
        CONTROLLERS["feedback"](z)), z, .1, 3), np.array([.5, -1.]))
    if not close(g.numpy(), w, 1e-6):
        cx.fail("integrator: gradient", got=g, want=w, system=sysname)
    cx.sample(system=sysname, jacobian=w)
    # scalar states, as in the documentation
    x, u = integrator.rk4_constant_control(lambda x, u: -x + u, lambda x: 2.,
                                           1., .1, 4)
    w = rk4_reference(lambda x, u: -x + u, 2., 1., .1, 4)
    if not (abs(x - float(w)) <= 1e-12) or u != 2.:
        cx.fail("integrator: scalar state", got=x, want=w)


def tasks(tier):
    ts = []
    for s in systems():
        ts.append(("rk4", s, tier))
    ts += [("lqr", ), ("pose", )]
    parts = {"quad3d": 16, "pole": 8, "rocket": 2, "rocket2": 2}
    for name in PLANTS:
        variants = (0, 1, 2) if name == "pole" else \
            (0, 1) if name not in ("unicycle", "acar") else (0, )
        for v in variants:
            n = parts.get(name, 1)
            for k in range(n):
                ts.append(("plant", name, v, k, n, tier))
    return ts


def work(cx, task):
    {"rk4": rk4, "lqr": lqr, "pose": pose, "plant": plant}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C25", tasks, work,
            rule="every point of the state x input product grid of each "
            "vehicle model (two or three parameter sets); every system x "
            "controller x step size x number of steps x start of the "
            "integrator family, and every split of a run in two; states = "
            "points, transitions = model evaluations compared",
            assumptions=["derivatives are compared with fourth-order "
                         "differences of the reference, tolerance 1e-6"])
