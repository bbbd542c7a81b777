"""
C24: rotations.  Every attitude of a grid that contains all multiples of pi/6
of two full turns (so the gimbal-lock attitudes, the +-pi seams and the wrapped
representations are all in it) plus awkward values, for both array types and
both precisions.  The oracle is independent: unit quaternions for the rotation,
the angular-velocity (cross product) formulas for its derivative.
"""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.geometry_transform as gt  # noqa: E402

ODD = (0.3, -1.7, 1e-8, -1e-3, 25.1, -100.)


def angles(tier):
    if tier == "quick":
        ks = (-7, -6, -4, -3, -2, 0, 1, 3, 5, 6)
        return [k * math.pi / 6 for k in ks] + [0.3, -1.7, 1e-8]
    return [k * math.pi / 6 for k in range(-12, 13)] + list(ODD)


def qmul(a, b):
    return np.array([
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]])


def quat(axis, a):
    q = np.zeros(4)
    q[0] = math.cos(a / 2)
    q[1 + axis] = math.sin(a / 2)
    return q


def rotate(q, v):
    w = qmul(qmul(q, np.concatenate(([0.], v))), q * [1, -1, -1, -1])
    return w[1:]


def skew(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def reference(r, p, y):
    """ roll about x, then pitch about the fixed y, then yaw about the fixed
    z """
    q = qmul(quat(2, y), qmul(quat(1, p), quat(0, r)))
    R = np.stack([rotate(q, e) for e in np.eye(3)], axis=1)
    # axes, in the world frame, about which each angle turns the body
    yaw_axis = np.array([0., 0., 1.])
    pitch_axis = rotate(quat(2, y), np.array([0., 1., 0.]))
    roll_axis = rotate(qmul(quat(2, y), quat(1, p)), np.array([1., 0., 0.]))
    return R, [skew(a) @ R for a in (roll_axis, pitch_axis, yaw_axis)]


def tasks(tier):
    a = angles(tier)
    return [("grid", i, tier) for i in range(len(a))]


def work(cx, task):
    _, i, tier = task
    A = angles(tier)
    for r, p in itertools.product([A[i]], A):
        # gradients are compared with autodiff for one yaw value per (r, p)
        for iy, y in enumerate(A):
            cx.states()
            R, dR = reference(r, p, y)
            variants = [("numpy64", np.array([r, p, y])),
                        ("torch64", torch.tensor([r, p, y],
                                                 dtype=torch.float64))]
            if iy % 4 == 0:
                variants += [
                    ("torch32", torch.tensor([r, p, y],
                                             dtype=torch.float32)),
                    ("numpy strided", np.array([[r, 9.], [p, 9.],
                                                [y, 9.]])[:, 0]),
                    ("torch grad", torch.tensor([r, p, y],
                                                dtype=torch.float64,
                                                requires_grad=True))]
            for name, x in variants:
                arr = x.detach().numpy() if isinstance(x, torch.Tensor) else x
                before = arr.copy()
                tol = 1e-12 if "32" not in name else 3e-5
                for rep in range(2 if iy == 0 else 1):
                    M = gt.rpy2rotmat(x)
                    G = gt.rpy2rotmat_gradient(x)
                    cx.trans()
                    if isinstance(x, torch.Tensor) != isinstance(
                            M, torch.Tensor) or any(
                            isinstance(g, torch.Tensor) != isinstance(
                                x, torch.Tensor) for g in G):
                        cx.fail("kind of array", variant=name)
                        return
                    if M.dtype != x.dtype or any(
                            g.dtype != x.dtype for g in G):
                        cx.fail("precision of the result", variant=name,
                                got=str(M.dtype))
                        return

                    def num(t):
                        return t.detach().numpy() if isinstance(
                            t, torch.Tensor) else t
                    m = num(M).astype(float)
                    if m.shape != (3, 3) or not (abs(m - R).max() <= tol):
                        cx.fail("rotation matrix", variant=name,
                                rpy=[r, p, y], got=m, want=R)
                        return
                    if not (abs(m @ m.T - np.eye(3)).max() <= tol) or \
                            not (abs(np.linalg.det(m) - 1) <= tol):
                        cx.fail("not a rotation", variant=name,
                                rpy=[r, p, y])
                        return
                    if len(G) != 3:
                        cx.fail("number of derivatives", got=len(G))
                        return
                    for j, (g, w) in enumerate(zip(G, dR)):
                        g = num(g).astype(float)
                        if g.shape != (3, 3) or not (abs(g - w).max() <= tol):
                            cx.fail("derivative of the rotation matrix",
                                    variant=name, rpy=[r, p, y], angle=j,
                                    got=g, want=w)
                            return
                if name == "torch grad":
                    # differentiable: both functions, through autodiff
                    jac = torch.autograd.functional.jacobian(
                        gt.rpy2rotmat, x)
                    for j in range(3):
                        if not (abs(jac[:, :, j].numpy() - dR[j]).max() <= 1e-11):
                            cx.fail("autodiff through the rotation matrix",
                                    rpy=[r, p, y], angle=j)
                            return
                    if iy == 0:
                        h = torch.autograd.functional.jacobian(
                            lambda z: torch.stack(
                                gt.rpy2rotmat_gradient(z)), x)
                        # mixed second derivatives are symmetric
                        for a, b in itertools.product(range(3), repeat=2):
                            if not (abs(h[a, :, :, b] - h[b, :, :, a]).max() <= \
                                    1e-10):
                                cx.fail("autodiff through the derivative",
                                        rpy=[r, p, y], angles=[a, b])
                                return
                if not np.array_equal(arr, before):
                    cx.fail("input was modified", variant=name)
                    return
                cx.traces()
        cx.outcome(round(r, 6), round(p, 6))
    cx.sample(rpy=[r, p, y], R=R)


if __name__ == "__main__":
    mc.main("C24", tasks, work,
            rule="every (roll, pitch, yaw) of the angle grid x array kinds; "
            "states = attitudes, transitions = calls compared with the "
            "quaternion reference",
            assumptions=["tolerance 1e-12 (3e-5 in single precision)"])
