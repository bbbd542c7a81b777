"""
C26: data generated from the simulator.  The oracle drives the physics engine
itself, in a client of its own: load the same world, settle, put the robot in
the start state, step.  Enumerated: every world x representation x image
format x start state x duration, and every history of operations (samples,
rollouts, data sets, operations of a second generator living at the same time)
up to a depth - each operation must return what it returns in isolation.
"""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import matplotlib  # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pybullet as pb  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.pybullet_data_generation as pdg  # noqa: E402
import neural_network_lyapunov.worlds as worlds  # noqa: E402
import neural_network_lyapunov.examples.car.utils_simulation as us  # noqa

DT = torch.float64
EYE, TARGET, UP = [0, -3, 0], [0, 0, 0], [0, 0, 1]
WORLDS = {
    "pendulum": (lambda: worlds.get_load_urdf_callback(
        worlds.urdf_path("pendulum.urdf")), True),
    "cartpole": (lambda: worlds.get_load_urdf_callback(
        worlds.urdf_path("cartpole.urdf")), True),
    "cubes": (lambda: worlds.get_load_falling_cubes_callback(), False),
    "table": (lambda: worlds.get_load_cluttered_table_callback(), False),
}


class Client:
    """ the pybullet module, bound to one client """
    def __init__(self):
        self.id = pb.connect(pb.DIRECT)

    def __getattr__(self, name):
        a = getattr(pb, name)
        if callable(a):
            return lambda *args, **kw: a(*args, physicsClientId=self.id, **kw)
        return a


class Reference:
    """ An independent driver of the physics engine. """
    def __init__(self, world, width=16, height=16, eye=EYE, target=TARGET):
        cb, self.joint = WORLDS[world]
        p = self.p = Client()
        p.setGravity(0, 0, -9.8)
        p.setTimeStep(1. / 240)
        p.setPhysicsEngineParameter(enableFileCaching=0)
        self.view = pb.computeViewMatrix(eye, target, UP)
        self.proj = pb.computeProjectionMatrixFOV(45., 1., .1, 3.1)
        self.w, self.h = width, height
        self.robot = cb()(p)
        self.nj = p.getNumJoints(self.robot)
        if self.joint:
            for i in range(self.nj):
                p.setJointMotorControl2(self.robot, i, pb.VELOCITY_CONTROL,
                                        force=0)
        for _ in range(120):
            p.stepSimulation()
        self.saved = p.saveState()
        self.cache = {}

    @property
    def dim(self):
        return 2 * self.nj if self.joint else 12

    def picture(self):
        im = self.p.getCameraImage(width=self.w, height=self.h,
                                   viewMatrix=self.view,
                                   projectionMatrix=self.proj)[2]
        im = np.asarray(im).reshape(self.h, self.w, 4)
        return im[:, :, :3].astype(float).transpose(2, 0, 1) / 255

    def run(self, x0, steps):
        """ state after 2 * steps, pictures at 0, steps and 2 * steps """
        key = (tuple(x0), steps)
        if key in self.cache:
            return self.cache[key]
        p = self.p
        p.restoreState(self.saved)
        if self.joint:
            for i in range(self.nj):
                p.resetJointState(self.robot, i, x0[i], x0[self.nj + i])
        else:
            p.resetBasePositionAndOrientation(
                self.robot, list(x0[:3]),
                pb.getQuaternionFromEuler(list(x0[3:6])))
            p.resetBaseVelocity(self.robot, list(x0[6:9]), list(x0[9:12]))
        pics = [self.picture()]
        for _ in range(2):
            for _ in range(steps):
                p.stepSimulation()
            pics.append(self.picture())
        if self.joint:
            s = [p.getJointState(self.robot, i) for i in range(self.nj)]
            x = [v[0] for v in s] + [v[1] for v in s]
        else:
            pos, orn = p.getBasePositionAndOrientation(self.robot)
            vel, w = p.getBaseVelocity(self.robot)
            x = list(pos) + list(pb.getEulerFromQuaternion(orn)) + list(
                vel) + list(w)
        self.cache[key] = (np.array(x), pics)
        return self.cache[key]

    def close(self):
        pb.disconnect(physicsClientId=self.id)

    @property
    def id(self):
        return self.p.id


def gray(pic, on):
    if not on:
        return pic
    return (.2989 * pic[0] + .5870 * pic[1] + .1140 * pic[2])[None]


def starts(world, tier):
    if world == "pendulum":
        s = list(itertools.product((0., math.pi / 2, -2.), (0., 1., -3.)))
    elif world == "cartpole":
        s = list(itertools.product((0., .5), (.3, math.pi, -1.), (0., -.7),
                                   (0., 2.)))
        s = [q + (0., ) * 0 for q in s]
    else:
        z = 1. if world == "table" else .4
        s = [[.1, -.2, z, 0, 0, 0, 0, 0, 0, 0, 0, 0],
             [0, 0, z + .5, .3, -.4, 1., 0, 0, 0, 0, 0, 0],
             [0, 0, z, 0, 0, 0, .5, -1., 2., 0, 0, 0],
             [0, 0, z, .1, .2, -.3, .5, 0, .1, 1., -2., 3.],
             [-.05, .02, z / 2, 0, 0, .5, 0, 0, -1., 0, 0, 0]]
    return s


def expand(world, s, dim):
    """ cartpole: put the listed values on the joints that exist """
    s = list(s)
    if world == "cartpole":
        n = dim // 2
        q, v = s[:2], s[2:]
        return q + [0.] * (n - 2) + v + [0.] * (n - 2)
    return s


def check_sample(cx, name, got, want, grayscale, dtype, where):
    x1, X, Xn = got
    wx, pics = want
    tol = 1e-9 if dtype == torch.float64 else 1e-5
    if x1.dtype != dtype or X.dtype != dtype or Xn.dtype != dtype:
        cx.fail(f"{name}: precision", got=str(x1.dtype), **where)
        return False
    if x1.shape != (len(wx), ) or not (np.abs(
            x1.numpy() - wx).max() <= tol * max(1, np.abs(wx).max())):
        cx.fail(f"{name}: next state", got=x1, want=wx, **where)
        return False
    wX = np.concatenate((gray(pics[0], grayscale), gray(pics[1], grayscale)))
    wXn = gray(pics[2], grayscale)
    for what, g, w in (("images", X, wX), ("next image", Xn, wXn)):
        if tuple(g.shape) != w.shape or not (np.abs(g.numpy() - w).max() <= 1e-5):
            cx.fail(f"{name}: {what}", shape=list(g.shape),
                    want_shape=list(w.shape), **where)
            return False
        if float(g.min()) < 0 or float(g.max()) > 1:
            cx.fail(f"{name}: {what} out of range", **where)
            return False
    return True


FORMATS = [(16, False, DT, EYE, TARGET), (8, True, DT, EYE, TARGET),
           (12, False, torch.float32, EYE, TARGET),
           (8, True, torch.float32, [1., -2., .5], [.2, 0, .1])]
DURATIONS = ((.1, 12), (1 / 240, 0), (1 / 120, 1), (.05, 6), (1.025, 123),
             (.031, 3))


def sim(cx, task):
    _, world, fmt, tier = task
    size, grayscale, dtype, eye, target = FORMATS[fmt]
    ref = Reference(world, size, size, eye, target)
    g = pdg.PybulletSampleGenerator(
        WORLDS[world][0](), WORLDS[world][1], image_width=size,
        image_height=size, grayscale=grayscale, camera_eye_position=eye,
        camera_target_position=target, dtype=dtype)
    if g.x_dim != ref.dim:
        cx.fail("state dimension", got=g.x_dim, want=ref.dim, world=world)
        return
    for s in starts(world, tier):
        x0 = expand(world, s, g.x_dim)
        xt = torch.tensor(x0, dtype=dtype)
        x0 = xt.double().tolist()
        for dt, steps in DURATIONS[:None if tier == "thorough" else 5]:
            cx.states()
            before = xt.clone()
            got = g.generate_sample(xt, dt)
            cx.trans()
            if not torch.equal(before, xt):
                cx.fail("start state was modified", world=world, x0=x0)
                return
            want = ref.run(x0, steps)
            if not check_sample(cx, "sample", got, want, grayscale, dtype,
                                dict(world=world, x0=x0, dt=dt, fmt=fmt)):
                return
            cx.outcome(world, np.round(want[0], 5))
        cx.traces()
    cx.sample(world=world, x0=x0, dt=dt, next=want[0])
    ref.close()


def ref_rollout(ref, x0, steps, n, grayscale, dtype):
    xs = [np.array(x0)]
    Xs = []
    for k in range(n):
        x = torch.tensor(xs[-1], dtype=dtype).double().tolist()
        nx, pics = ref.run(x, steps)
        if k == 0:
            Xs += [gray(pics[0], grayscale), gray(pics[1], grayscale)]
        Xs.append(gray(pics[2], grayscale))
        xs.append(nx)
    return np.array(xs), np.array(Xs)


def check_rollout(cx, name, got, want, dtype, where):
    x, X = got
    wx, wX = want
    tol = 1e-8 if dtype == torch.float64 else 1e-4
    if x.dtype != dtype or X.dtype != dtype:
        cx.fail(f"{name}: precision", **where)
        return False
    if tuple(x.shape) != wx.shape or not (np.abs(x.numpy() - wx).max() <= tol * max(
            1, np.abs(wx).max())):
        cx.fail(f"{name}: states", got=x, want=wx, **where)
        return False
    if tuple(X.shape) != wX.shape or not (np.abs(X.numpy() - wX).max() <= 1e-5):
        cx.fail(f"{name}: images", shape=list(X.shape), **where)
        return False
    return True


def check_dataset(cx, name, g, ref, lo, up, dt, steps, N, R, grayscale,
                  dtype, where, **kw):
    x, xn, X, Xn = g.generate_dataset(torch.tensor(lo, dtype=dtype),
                                      torch.tensor(up, dtype=dtype), dt, N, R,
                                      **kw)
    nc = 1 if grayscale else 3
    shapes = [(N * R, ref.dim), (N * R, ref.dim), (N * R, 2 * nc, ref.w,
                                                   ref.h),
              (N * R, nc, ref.w, ref.h)]
    if [tuple(t.shape) for t in (x, xn, X, Xn)] != shapes:
        cx.fail(f"{name}: shapes", got=[list(t.shape) for t in (x, xn, X,
                                                                Xn)], **where)
        return False
    for i in range(R):
        x0 = x[i * N].double().numpy()
        if (x0 < np.array(lo) - 1e-6).any() or (
                x0 > np.array(up) + 1e-6).any():
            cx.fail(f"{name}: start state outside the box", x0=x0, **where)
            return False
        wx, wX = ref_rollout(ref, x0.tolist(), steps, N, grayscale, dtype)
        for n in range(N):
            k = i * N + n
            tol = 1e-8 if dtype == torch.float64 else 1e-4
            ok = np.abs(x[k].numpy() - wx[n]).max() <= tol * max(
                1, np.abs(wx).max()) and np.abs(
                    xn[k].numpy() - wx[n + 1]).max() <= tol * max(
                        1, np.abs(wx).max())
            if not ok:
                cx.fail(f"{name}: state pair", rollout=i, step=n, got=[
                    x[k], xn[k]], want=[wx[n], wx[n + 1]], **where)
                return False
            ok = np.abs(X[k].numpy() - np.concatenate(
                (wX[n], wX[n + 1]))).max() < 1e-5 and np.abs(
                    Xn[k].numpy() - wX[n + 2]).max() < 1e-5
            if not ok:
                cx.fail(f"{name}: image pair", rollout=i, step=n, **where)
                return False
    return x


def boxes(world, dim):
    if world == "pendulum":
        return [-1., -.5], [2., 1.5]
    if world == "cartpole":
        return [-.5] * dim, [.25] * dim
    lo = [0., 0, .4 if world == "cubes" else 1.] + [0.] * 9
    up = [.1, .2, .9 if world == "cubes" else 1.5] + [.3] * 3 + [.5] * 6
    return lo, up


def hist(cx, task):
    """ every history of operations up to a depth, two generators alive """
    _, world, other, fmt, first, tier = task
    size, grayscale, dtype, eye, target = FORMATS[fmt]
    depth = 2 if tier == "quick" else 3
    refs = {0: Reference(world, size, size, eye, target),
            1: Reference(other, size, size, eye, target)}
    gens = {}
    names = {0: world, 1: other}
    for i in (1, 0):
        gens[i] = pdg.PybulletSampleGenerator(
            WORLDS[names[i]][0](), WORLDS[names[i]][1], image_width=size,
            image_height=size, grayscale=grayscale, camera_eye_position=eye,
            camera_target_position=target, dtype=dtype)
    ops = [("sample", 0, 0), ("sample", 0, 1), ("rollout", 0, 0),
           ("dataset", 0, 0), ("sample", 1, 0), ("rollout", 1, 1),
           ("data_to_rollouts", 0, 0)]

    def apply(op, where):
        kind, i, k = op
        g, ref = gens[i], refs[i]
        ss = starts(names[i], tier)
        x0 = torch.tensor(expand(names[i], ss[(3 * k + 1) % len(ss)],
                                 g.x_dim), dtype=dtype)
        xl = x0.double().tolist()
        cx.trans()
        if kind == "sample":
            return check_sample(cx, "history: sample",
                                g.generate_sample(x0, .05), ref.run(xl, 6),
                                grayscale, dtype, where)
        if kind == "rollout":
            return check_rollout(cx, "history: rollout",
                                 g.generate_rollout(x0, .05, 2),
                                 ref_rollout(ref, xl, 6, 2, grayscale, dtype),
                                 dtype, where)
        if kind == "data_to_rollouts":
            x1 = torch.tensor(expand(names[i], ss[2], g.x_dim), dtype=dtype)
            rx, rX = g.data_to_rollouts(torch.stack((x0, x1)), .05, 1)
            if len(rx) != 2 or len(rX) != 2:
                cx.fail("data_to_rollouts: number of rollouts", **where)
                return False
            return all(check_rollout(
                cx, "history: data_to_rollouts", (rx[j], rX[j]),
                ref_rollout(ref, z.double().tolist(), 6, 1, grayscale,
                            dtype), dtype, where)
                for j, z in enumerate((x0, x1)))
        lo, up = boxes(names[i], g.x_dim)
        r = check_dataset(cx, "history: dataset", g, ref, lo, up, .05, 6, 2,
                          1, grayscale, dtype, where)
        return r is not False

    for tail in itertools.product(ops, repeat=depth - 1):
        if cx.out_of_time():
            return
        seq = (ops[first], ) + tail
        cx.states()
        for j, op in enumerate(seq):
            if not apply(op, dict(world=world, other=other,
                                  history=[list(o) for o in seq[:j + 1]])):
                return
        cx.outcome(world, other, seq)
        cx.traces()
    cx.sample(world=world, other=other, history=[list(o) for o in seq])
    for r in refs.values():
        r.close()


def dataset(cx, task):
    _, world, fmt, tier = task
    size, grayscale, dtype, eye, target = FORMATS[fmt]
    ref = Reference(world, size, size, eye, target)
    g = pdg.PybulletSampleGenerator(
        WORLDS[world][0](), WORLDS[world][1], image_width=size,
        image_height=size, grayscale=grayscale, camera_eye_position=eye,
        camera_target_position=target, dtype=dtype)
    lo, up = boxes(world, g.x_dim)
    for N, R in itertools.product((1, 2, 3), (1, 2, 3)):
        cx.states()
        where = dict(world=world, N=N, rollouts=R)
        x = check_dataset(cx, "dataset", g, ref, lo, up, .05, 6, N, R,
                          grayscale, dtype, where)
        if x is False:
            return
        cx.trans()
        firsts = {tuple(x[i * N].tolist()) for i in range(R)}
        if len(firsts) != R:
            cx.fail("dataset: all rollouts start at the same state", **where)
            return
        for mean, std in ((lo, 0.), (up, 0.), ([1e3] * len(lo), 1.),
                          ([-1e3] * len(lo), 1.),
                          ([.5 * (a + b) for a, b in zip(lo, up)], .1)):
            x = check_dataset(
                cx, "normal dataset", g, ref, lo, up, .05, 6, N, R, grayscale,
                dtype, where, x_mean=torch.tensor(mean, dtype=dtype),
                x_std=std * torch.ones(len(lo), dtype=dtype))
            if x is False:
                return
            cx.trans()
            if std == 0. or abs(mean[0]) == 1e3:
                w = np.clip(mean, lo, up)
                if any(not (np.abs(x[i * N].numpy() - w).max() <= 1e-5)
                       for i in range(R)):
                    cx.fail("normal dataset: start state", mean=mean, std=std,
                            got=x[0], want=w, **where)
                    return
        cx.traces()
    cx.outcome("dataset", world)
    ref.close()


def nonsquare(cx, task):
    g = pdg.PybulletSampleGenerator(WORLDS["pendulum"][0](), True,
                                    image_width=16, image_height=8)
    x0 = torch.tensor([.3, 0.], dtype=DT)
    cx.states()
    cx.trans()
    try:
        x1, X, Xn = g.generate_sample(x0, .05)
    except ValueError as e:
        cx.fail("non-square image", message=str(e))
        return
    ref = Reference("pendulum", 16, 8)
    wx, pics = ref.run(x0.tolist(), 6)
    if tuple(X.shape) != (6, 16, 8) or not (np.abs(x1.numpy() - wx).max() <= 1e-9):
        cx.fail("non-square sample", shape=list(X.shape))
        return
    # documented as [channel, width, height]
    w = np.concatenate((pics[0], pics[1])).transpose(0, 2, 1)
    if not (np.abs(X.numpy() - w).max() <= 1e-5):
        cx.fail("non-square picture content")


def tools(cx, task):
    """ data loader, noise, display """
    for n, b in itertools.product((1, 2, 5, 8), (1, 2, 3, 8, 20)):
        for shape in ((2, ), (6, 4, 4)):
            cx.states()
            x = torch.arange(n * int(np.prod(shape)), dtype=DT).reshape(
                (n, ) + shape)
            y = -x.clone()
            dl = pdg.get_dataloader(x, y, b)
            for _ in range(2):
                seen = []
                sizes = []
                for bx, by in dl:
                    cx.trans()
                    sizes.append(len(bx))
                    if not torch.equal(bx, -by):
                        cx.fail("data loader: pair broken", n=n, batch=b)
                        return
                    seen += [tuple(r.reshape(-1).tolist()) for r in bx]
                if sorted(seen) != sorted(
                        tuple(r.reshape(-1).tolist()) for r in x):
                    cx.fail("data loader: not every sample exactly once",
                            n=n, batch=b)
                    return
                if max(sizes) > b or len(sizes) != math.ceil(n / b):
                    cx.fail("data loader: batch size", n=n, batch=b,
                            sizes=sizes)
                    return
            cx.traces()
    # noise: standard deviation = percentage of the mean magnitude, per column
    for shape, pct in itertools.product(((4000, 3), (4000, 2, 2)),
                                        (0., .1, .5)):
        cx.states()
        n = shape[0]
        base = torch.tensor([1., -2., 0.] if len(shape) == 2 else
                            [[1., -2.], [0., 8.]], dtype=DT)
        sign = torch.ones((n, ) + (1, ) * (len(shape) - 1), dtype=DT)
        sign[::2] = -1
        x = base * sign * torch.linspace(.5, 1.5, n, dtype=DT).reshape(
            sign.shape)
        keep = x.clone()
        for p in (pct, pct * torch.ones(shape[1:], dtype=DT)):
            y = pdg.add_noise(x, p)
            cx.trans()
            if not torch.equal(x, keep):
                cx.fail("add_noise changed its argument", shape=shape)
                return
            d = y - x
            want = pct * keep.abs().mean(dim=0)
            if y.shape != x.shape or y.dtype != x.dtype or (
                    (d.std(dim=0) - want).abs() > .1 * want + 1e-12).any() \
                    or (d.mean(dim=0).abs() > .1 * want + 1e-12).any():
                cx.fail("add_noise: distribution", got=d.std(dim=0),
                        want=want)
                return
            if pct > 0:
                e = (d / want.clamp(min=1e-9)).reshape(n, -1)[:, [0, 1]]
                if not (abs(float((e[:, 0] * e[:, 1]).mean())) <= .1) or \
                        not (abs(float((e[1:, 0] * e[:-1, 0]).mean())) <= .1):
                    cx.fail("add_noise: samples are not independent")
                    return
        cx.traces()
    # display
    show = plt.show
    plt.show = lambda *a, **k: None
    try:
        for c, nxt, clamp in itertools.product((1, 2, 3, 6), (False, True),
                                               (False, True)):
            if nxt and c in (1, 3):
                continue
            cx.states()
            cx.trans()
            k = 3 if c in (3, 6) else 1
            lo, hi = (-.5, 1.5) if clamp else (0., 1.)
            X = torch.linspace(lo, hi, c * 12, dtype=DT).reshape(c, 4, 3)
            Y = torch.linspace(hi, lo, k * 12, dtype=DT).reshape(
                k, 4, 3) if nxt else None
            keep = X.clone()
            plt.close("all")
            pdg.show_sample(X, Y, clamp=clamp)
            shown = [np.asarray(im.get_array()) for ax in plt.gcf().axes
                     for im in ax.get_images()]
            want = [X[:k]] + ([X[k:]] if c > k else []) + (
                [Y[:k]] if nxt else [])
            want = [w.clamp(0, 1).numpy().transpose(1, 2, 0) for w in want]
            ok = len(shown) == len(want) and all(
                np.abs(s.reshape(w.shape) - w).max() < 1e-9
                for s, w in zip(shown, want))
            if not ok or not torch.equal(X, keep):
                cx.fail("show_sample: pictures shown", channels=c, next=nxt,
                        clamp=clamp, shown=len(shown), want=len(want))
                return
            cx.traces()
    finally:
        plt.show = show
        plt.close("all")
    cx.outcome("tools")


# ------------------------------------------------------------------- car world
def ray_reference(state, psi, bodies, reach):
    """ distance along a ray that leaves the car psi clockwise... of heading
    (psi measured against the heading, clockwise positive as documented) """
    th = state[2] - psi
    o = np.array(state[:2])
    d = np.array([math.cos(th), math.sin(th)])
    best = reach
    for b in bodies:
        if b[0] == "cyl":
            _, cxy, r = b
            m = o - np.array(cxy)
            bq = m @ d
            c = m @ m - r * r
            disc = bq * bq - c
            if disc > 0 and c > 0:
                t = -bq - math.sqrt(disc)
                if 0 < t < best:
                    best = t
        else:
            _, lo, hi = b
            tmin, tmax = -math.inf, math.inf
            for k in range(2):
                if abs(d[k]) < 1e-12:
                    if not lo[k] <= o[k] <= hi[k]:
                        tmin = math.inf
                    continue
                t1, t2 = (lo[k] - o[k]) / d[k], (hi[k] - o[k]) / d[k]
                tmin, tmax = max(tmin, min(t1, t2)), min(tmax, max(t1, t2))
            if 0 < tmin <= tmax and tmin < best:
                best = tmin
    return best


def rays(cx, task):
    P = us.get_parameters()
    p = Client()
    us.generate_wall(p, 1., .1)
    bodies = [("box", (-10., 9.9), (10., 10.1))]
    for cxy, r in (((2., 1.), .5), ((-3., 4.), .25), ((0., -5.), 1.)):
        s = p.createCollisionShape(pb.GEOM_CYLINDER, radius=r, height=1.)
        p.createMultiBody(0, s, -1, [cxy[0], cxy[1], 0.])
        bodies.append(("cyl", cxy, r))
    goal = us.generate_goal(p, np.array([4., -4., 0.]))
    if not (abs(np.array(p.getLinkState(goal, 0)[0]) -
           np.array([4., -4., 0.])).max() <= 1e-9):
        cx.fail("goal position", got=p.getLinkState(goal, 0)[0])
        return
    for key, n in (("psi_nominal", P["num_rays_control"]),
                   ("psi_nominal_full", P["num_rays_data"])):
        psi = P[key]
        if psi.shape != (n, 1) or (np.diff(psi[:, 0]) <= 0).any():
            cx.fail("sensor directions", key=key, shape=list(psi.shape))
            return
    if not (abs(P["psi_nominal"][0, 0] - P["psi_min"]) <= 1e-12) or not (abs(
            P["psi_nominal"][-1, 0] - P["psi_max"]) <= 1e-12) or not (abs(
            P["psi_nominal_full"][-1, 0] - math.pi) <= 1e-12):
        cx.fail("sensor field of view")
        return
    for x, y, th, reach, data, key in itertools.product(
            (0., -2.), (0., 3.), (0., math.pi / 2, -2., math.pi, .7),
            (100., 6.), (False, True), ("psi_nominal", "psi_nominal_full")):
        cx.states()
        psi = P[key]
        state = np.array([x, y, th])
        keep = state.copy()
        got = us.getDistances(p, state, P["robotHeight"], len(psi), reach,
                              psi, data=data)
        cx.trans()
        want = np.array([ray_reference(state, a, bodies, reach)
                         for a in psi[:, 0]])
        # rays that graze an obstacle or a corner depend on rounding
        robust = np.ones(len(want), dtype=bool)
        for e in (1e-3, -1e-3):
            w2 = np.array([ray_reference([x, y, th + e], a, bodies, reach)
                           for a in psi[:, 0]])
            robust &= np.abs(w2 - want) < .3
        if data:
            want, robust = want[:-1], robust[:-1]
        if got.shape != want.shape:
            cx.fail("distances: number of rays", got=got.shape, data=data)
            return
        bad = robust & (np.abs(got - want) > .05)
        if bad.any() or not np.array_equal(state, keep):
            i = int(np.argmax(bad))
            cx.fail("distances", state=state, ray=i, got=got[i], want=want[i],
                    data=data, reach=reach)
            return
        cx.outcome("rays", np.round(want, 2))
        cx.traces()
    p.resetSimulation()
    for k in range(4):
        cx.states()
        cx.trans()
        h = .5 + k
        try:
            o = us.generate_obstacles(p, h, .1)
        except TypeError as e:
            if "0-dimensional" not in str(e):
                raise
            cx.fail("obstacles: crash with numpy arrays of one element")
            break
        n = p.getNumJoints(o)
        if not 10 <= n <= 200:
            cx.fail("obstacles: how many", got=n)
            return
        pos = np.array([p.getLinkState(o, i)[0] for i in range(n)])
        if (abs(pos[:, 0]) > 10).any() or (pos[:, 1] < -8).any() or \
                (pos[:, 1] > 10).any() or not (abs(pos[:, 2]).max() <= 1e-9) or \
                len({tuple(q) for q in pos}) != n:
            cx.fail("obstacles: where", got=pos)
            return
        for i in range(n):
            sh = p.getCollisionShapeData(o, i)[0]
            if not (.1 - 1e-9 <= sh[3][1] <= .25 + 1e-9
                    and abs(sh[3][0] - h) < 1e-9):
                cx.fail("obstacles: size", got=sh)
                return
        p.resetSimulation()
    cx.sample(state=state, distances=want[:5])


def tasks(tier):
    ts = [("tools", ), ("rays", ), ("nonsquare", )]
    for w in WORLDS:
        for f in range(len(FORMATS)):
            ts.append(("sim", w, f, tier))
        ts.append(("dataset", w, 1, tier))
        if tier == "thorough":
            ts.append(("dataset", w, 2, tier))
    for w, o, f in (("pendulum", "cubes", 1), ("cubes", "pendulum", 2),
                    ("cartpole", "pendulum", 3), ("table", "cubes", 1),
                    ("pendulum", "pendulum", 0)):
        for first in range(7):
            ts.append(("hist", w, o, f, first, tier))
    return ts


def work(cx, task):
    {"sim": sim, "hist": hist, "dataset": dataset, "tools": tools,
     "rays": rays, "nonsquare": nonsquare}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C26", tasks, work,
            rule="every world x image format x start state x duration; every "
            "history of 2 (thorough 3) operations over two generators that "
            "live at the same time; every data set shape; every sensor "
            "configuration of the car world; states = configurations or "
            "histories, transitions = operations compared with an "
            "independently driven simulation",
            assumptions=["the physics engine and its renderer are "
                         "deterministic (they are the reference)",
                         "rays that graze an obstacle are not compared"])
