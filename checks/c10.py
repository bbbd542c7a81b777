"""
C10: hybrid (piecewise affine) systems: simulation, mode selection, bounds,
mixed-integer encoding, cost-to-go and state-space partition describe the
same set-valued map.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402
from fractions import Fraction as F  # noqa: E402
import cells as C  # noqa: E402
import nets  # noqa: E402
from mip import Encoding  # noqa: E402

from neural_network_lyapunov import hybrid_linear_system as hls  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip, utils  # noqa: E402

DT = torch.float64


def t(v):
    return torch.tensor(v, dtype=DT)


def boxpoly(lo, up, cut=None):
    """ rows (a, b): a.x <= b of a box, plus an optional cutting row """
    n = len(lo)
    rows = []
    for i in range(n):
        e = [F(0)] * n
        e[i] = F(1)
        rows.append((list(e), F(up[i])))
        rows.append(([-v for v in e], -F(lo[i])))
    if cut is not None:
        rows.append(([F(v) for v in cut[0]], F(cut[1])))
    return rows


# domains over [x; u] (dimension 1 or 2): lists of polytopes
D1 = {
    "one": [boxpoly([-1], [1])],
    "split": [boxpoly([-1], [0]), boxpoly([0], [1])],
    "overlap": [boxpoly([-1], [F(1, 2)]), boxpoly([F(-1, 4)], [2])],
    "gap": [boxpoly([-1], [F(-1, 2)]), boxpoly([F(1, 4)], [1]),
            boxpoly([2], [2])],
    "three": [boxpoly([0], [1]), boxpoly([-2], [0]), boxpoly([1], [3])],
    # the extremes of the domain lie in the first mode, in the last mode
    "down": [boxpoly([1], [3]), boxpoly([0], [1]), boxpoly([-2], [0])],
    "up": [boxpoly([-2], [0]), boxpoly([0], [1]), boxpoly([1], [3])],
}
D2 = {
    "one": [boxpoly([-1, 0], [1, 2])],
    "quad": [boxpoly([-1, -1], [0, 0]), boxpoly([0, -1], [1, 0]),
             boxpoly([-1, 0], [0, 1]), boxpoly([0, 0], [1, 1])],
    "triangles": [boxpoly([-1, -1], [1, 1], ([1, 1], 0)),
                  boxpoly([-1, -1], [1, 1], ([-1, -1], 0))],
    "wedge": [boxpoly([-1, -1], [1, 1], ([1, -2], 0)),
              boxpoly([-1, -1], [1, 1], ([-1, 2], 0)),
              boxpoly([F(-1, 2), F(-1, 2)], [F(1, 2), F(3, 2)])],
    "apart": [boxpoly([-2, -1], [-1, 1]), boxpoly([0, -1], [2, 0])],
    "stairs": [boxpoly([0, -3], [2, -1]), boxpoly([-1, -1], [0, 0]),
               boxpoly([-2, 0], [-1, 1])],
}
D3 = {
    "half": [boxpoly([-1, -1, 0], [1, 0, 1]), boxpoly([-1, 0, 0],
                                                      [1, 1, 1])],
    "cut": [boxpoly([-1, -1, -1], [1, 1, 1], ([1, 1, -1], 0)),
            boxpoly([-1, -1, -1], [1, 1, 1], ([-1, -1, 1], 0))],
}


def polytope_vertices(rows):
    """ exact vertices of {a.x <= b}, by enumerating square subsystems """
    n = len(rows[0][0])
    vs = set()
    for sub in itertools.combinations(rows, n):
        M = [list(a) + [b] for a, b in sub]
        ok = True
        for c in range(n):
            p = next((r for r in range(c, n) if M[r][c] != 0), None)
            if p is None:
                ok = False
                break
            M[c], M[p] = M[p], M[c]
            M[c] = [v / M[c][c] for v in M[c]]
            for r in range(n):
                if r != c and M[r][c] != 0:
                    M[r] = [v - M[r][c] * w for v, w in zip(M[r], M[c])]
        if ok:
            x = tuple(M[i][n] for i in range(n))
            if inside(rows, x):
                vs.add(x)
    return sorted(vs)


def inside(rows, x):
    return all(sum(a * v for a, v in zip(r, x)) <= b for r, b in rows)


def dynamics(n, nx, k):
    s = nets.stream(900 + k)
    A = [[next(s) for _ in range(n)] for _ in range(nx)]
    return A, [next(s) / 2 for _ in range(nx)]


def systems():
    for nm, dom in list(D1.items()):
        yield "auto", nm, dom, 1, 0
    for nm, dom in list(D2.items()):
        yield "auto", nm, dom, 2, 0
        yield "ctrl", nm, dom, 1, 1
    for nm, dom in list(D3.items()):
        yield "auto", nm, dom, 3, 0
        yield "ctrl", nm, dom, 2, 1
        yield "ctrl", nm, dom, 1, 2


def tasks(tier):
    n = len(list(systems()))
    reps = range(2 if tier == "quick" else 8)
    ret = []
    for i in range(n):
        for k in reps:
            ret.append(("system", i, k, tier))
    for i in range(10):
        for k in reps:
            ret.append(("cost", i, k, tier))
    ret += [("partition", i, tier) for i in range(8)]
    ret += [("bounded", )]
    ret += [("continuous", i) for i in range(6)]
    ret += [("goals", i) for i in range(6)]
    return ret


def make(kind, dom, nx, nu, k):
    n = nx + nu
    modes = []
    for m, rows in enumerate(dom):
        A, c = dynamics(n, nx, 17 * k + m)
        modes.append((A, c, rows))
    def used():
        # the system is used while it is built, mode by mode
        x, u = torch.zeros(nx, dtype=DT), torch.zeros(nu, dtype=DT)
        for call in (lambda: s.mixed_integer_constraints(),
                     lambda: s.mixed_integer_constraints(
                         *[v + d for v in ([x] if kind == "auto" else [x, u])
                           for d in (-1., 1.)]),
                     lambda: (s.x_lo_all, s.x_up_all),
                     lambda: s.mode(x) if kind == "auto" else s.mode(x, u),
                     lambda: s.step_forward(x) if kind == "auto" else
                     s.step_forward(x, u)):
            try:
                call()
            except Exception:
                pass
    if kind == "auto":
        s = hls.AutonomousHybridLinearSystem(nx, DT)
        for A, c, rows in modes:
            s.add_mode(nets.tensor(A), nets.tensor(c),
                       nets.tensor([r[0] for r in rows]),
                       nets.tensor([r[1] for r in rows]))
            used()
    else:
        s = hls.HybridLinearSystem(nx, nu, DT)
        for A, c, rows in modes:
            Af = nets.tensor(A)
            s.add_mode(Af[:, :nx], Af[:, nx:], nets.tensor(c),
                       nets.tensor([r[0] for r in rows]),
                       nets.tensor([r[1] for r in rows]))
            used()
    return s, modes


def axis_points(dom, n, dense):
    pts = []
    for j in range(n):
        s = set()
        for rows in dom:
            for v in polytope_vertices(rows):
                s.add(v[j])
        lo, up = min(s), max(s)
        s |= {(a + b) / 2 for a, b in zip(sorted(s), sorted(s)[1:])}
        if dense:
            s |= {lo + (up - lo) * F(i, 8) for i in range(9)}
        # (points just off a face decide whether the modes are closed sets
        # with exactly these faces)
        near = F(1, 2**20)
        s |= {v + d for v in (s if n == 1 else (lo, up))
              for d in (near, -near)} if n < 3 else set()
        s |= {lo - F(1, 2), up + F(1, 2)}
        pts.append(sorted(s))
    return pts


def fl(x):
    return [float(v) for v in x]


def system(cx, i, k, tier):
    kind, nm, dom, nx, nu = list(systems())[i]
    n = nx + nu
    s, modes = make(kind, dom, nx, nu, k)
    kw = dict(system=(kind, nm), k=k)
    # ---- bounds: exact, from the vertices of every mode ----
    allv = [polytope_vertices(rows) for _, _, rows in modes]
    lo = [min(v[j] for vs in allv for v in vs) for j in range(n)]
    up = [max(v[j] for vs in allv for v in vs) for j in range(n)]
    glo = np.concatenate((s.x_lo_all, s.u_lo_all)) if nu else s.x_lo_all
    gup = np.concatenate((s.x_up_all, s.u_up_all)) if nu else s.x_up_all
    if not np.allclose(glo, fl(lo), atol=1e-7) or not np.allclose(
            gup, fl(up), atol=1e-7):
        cx.fail("range of the domain", got=(glo, gup), want=(lo, up), **kw)
    for m, (A, c, rows) in enumerate(modes):
        mlo = np.concatenate((s.x_lo[m], s.u_lo[m])) if nu else s.x_lo[m]
        mup = np.concatenate((s.x_up[m], s.u_up[m])) if nu else s.x_up[m]
        wl = [min(v[j] for v in allv[m]) for j in range(n)]
        wu = [max(v[j] for v in allv[m]) for j in range(n)]
        if not np.allclose(mlo, fl(wl), atol=1e-7) or not np.allclose(
                mup, fl(wu), atol=1e-7):
            cx.fail("range of a mode", mode=m, got=(mlo, mup),
                    want=(wl, wu), **kw)
        if kind == "auto":
            img = [[sum(a * v for a, v in zip(r, x)) for r in A]
                   for x in allv[m]]
            bl, bu = s.mode_derivative_bounds(m)
            if not np.allclose(bl, fl(map(min, zip(*img))), atol=1e-6) or \
                    not np.allclose(bu, fl(map(max, zip(*img))), atol=1e-6):
                cx.fail("range of A x in a mode", mode=m, got=(bl, bu),
                        want=img, **kw)
    if kind == "auto":
        img = [[sum(a * v for a, v in zip(r, x)) + ci
                for r, ci in zip(A, c)]
               for (A, c, _), vs in zip(modes, allv) for x in vs]
        if not np.allclose(s.dx_lower, fl(map(min, zip(*img))), atol=1e-6) \
                or not np.allclose(s.dx_upper, fl(map(max, zip(*img))),
                                   atol=1e-6):
            cx.fail("range of the next state", **kw)
    # ---- encodings: default bounds, and bounds given by the caller ----
    encs = [(None, Encoding(s.mixed_integer_constraints(), num_input=n))]
    wide = ([v - 1 for v in lo], [v + 1 for v in up])
    tight = ([a + (b - a) * F(1, 4) for a, b in zip(lo, up)],
             [b - (b - a) * F(1, 8) for a, b in zip(lo, up)])
    for b in (wide, tight):
        for conv in (lambda v: t(fl(v)), lambda v: np.array(fl(v))):
            if kind == "auto":
                e = s.mixed_integer_constraints(conv(b[0]), conv(b[1]))
            else:
                e = s.mixed_integer_constraints(
                    conv(b[0][:nx]), conv(b[1][:nx]), conv(b[0][nx:]),
                    conv(b[1][nx:]))
            encs.append((b, Encoding(e, num_input=n)))
    pts = axis_points([m[2] for m in modes], n, n < 3 or tier != "quick")
    batch = []
    for x in itertools.product(*pts):
        ok = [m for m in range(len(modes)) if inside(modes[m][2], x)]
        nxt = {m: [sum(a * v for a, v in zip(r, x)) + ci
                   for r, ci in zip(modes[m][0], modes[m][1])] for m in ok}
        xt, ut = t(fl(x[:nx])), t(fl(x[nx:]))
        cx.states()
        cx.outcome(nm, tuple(ok))
        kx = dict(x=x, **kw)
        # simulation
        if kind == "auto":
            gm = s.mode(xt)
            try:
                gx = s.step_forward(xt)
            except s.StepForwardException:
                gx = None
            poss = s.possible_dx(xt)
        else:
            gm = s.mode(xt, ut)
            gx, gm2 = s.step_forward(xt, ut)
            if gm2 != gm:
                cx.fail("step_forward reports another mode", **kx)
            poss = s.possible_dx(xt, ut)
        if gm != (ok[0] if ok else None):
            cx.fail("mode", got=gm, want=ok, **kx)
        if (gx is None) != (not ok) or ok and not np.allclose(
                gx, fl(nxt[ok[0]])):
            cx.fail("next state", got=gx, want=nxt, **kx)
        if ok:
            # derivative of the next state: A (and B) of the mode
            A = modes[ok[0]][0]
            xg = t(fl(x)).requires_grad_()
            y = s.step_forward(xg) if kind == "auto" else \
                s.step_forward(xg[:nx], xg[nx:])[0]
            for r, yr in zip(A, y):
                d, = torch.autograd.grad(yr, xg, retain_graph=True)
                if not np.allclose(d, fl(r)):
                    cx.fail("derivative of the next state", got=d, want=r,
                            **kx)
            for m in range(len(modes)) if kind == "auto" else ():
                w = [sum(a * v for a, v in zip(r, x)) + ci
                     for r, ci in zip(modes[m][0], modes[m][1])]
                if not np.allclose(s.step_forward(xt, m), fl(w)):
                    cx.fail("next state in a given mode", mode=m, **kx)
        if len(poss) != len(ok) or any(
                not np.allclose(p, fl(nxt[m])) for p, m in zip(poss, ok)):
            cx.fail("possible next states", got=poss, want=nxt, **kx)
        if ok:
            batch.append((x, nxt[ok[0]]))
        # encodings
        for b, e in encs:
            inb = b is None or all(p <= v <= q for p, v, q in zip(
                b[0], x, b[1]))
            xf = np.array(fl(x))
            for z in e.binaries():
                r = e.at(xf, z)
                cx.trans()
                sel = [m for m in range(len(modes)) if z[m] == 1]
                good = len(sel) == 1 and sel[0] in ok
                if r is None:
                    if good and inb:
                        cx.fail("encoding cuts off a transition", z=z,
                                bounds=b, **kx)
                    continue
                if not good:
                    cx.fail("encoding admits a wrong mode", z=z, bounds=b,
                            **kx)
                    continue
                w = fl(nxt[sel[0]])
                if not np.allclose(r[0], w, atol=1e-7) or not np.allclose(
                        r[1], w, atol=1e-7):
                    cx.fail("encoding gives another next state", z=z,
                            bounds=b, got=r[:2], want=w, **kx)
        if len(cx.fails) > 5:
            return
    # batched simulation
    if kind == "auto":
        X = t([fl(x) for x, _ in batch])
        Y = s.step_forward(X)
    else:
        X = t([fl(x) for x, _ in batch])
        Y, got = s.step_forward(X[:, :nx], X[:, nx:])
        want = [next(m for m in range(len(modes)) if inside(modes[m][2], x))
                for x, _ in batch]
        if [int(m) for m in got] != want:
            cx.fail("batched modes", got=got, want=want, **kw)
    if not np.allclose(Y, [fl(y) for _, y in batch]):
        cx.fail("batched simulation", **kw)
    # the constraint as added to a program
    for x, y in batch[::max(1, len(batch) // 6)]:
        mip = gurobi_torch_mip.GurobiTorchMILP(DT)
        mip.gurobi_model.setParam("OutputFlag", 0)
        xv = mip.addVars(nx, lb=t(fl(x[:nx])), ub=t(fl(x[:nx])))
        uv = mip.addVars(nu, lb=t(fl(x[nx:])), ub=t(fl(x[nx:]))) if nu \
            else []
        yv = mip.addVars(nx, lb=-gurobipy.GRB.INFINITY)
        if kind == "auto":
            s.add_dynamics_constraint(mip, xv, yv, "s", "z",
                                      gurobipy.GRB.BINARY)
        else:
            s.add_dynamics_constraint(mip, xv, yv, uv, "s", "z")
        ok = [m for m in range(len(modes)) if inside(modes[m][2], x)]
        for j in range(nx):
            vals = [sum(a * v for a, v in zip(modes[m][0][j], x)) +
                    modes[m][1][j] for m in ok]
            for sense, w in ((gurobipy.GRB.MAXIMIZE, max(vals)),
                             (gurobipy.GRB.MINIMIZE, min(vals))):
                mip.setObjective([t([1.])], [[yv[j]]], 0., sense)
                mip.gurobi_model.optimize()
                cx.trans()
                if mip.gurobi_model.status != gurobipy.GRB.Status.OPTIMAL \
                        or not (abs(mip.gurobi_model.ObjVal - float(w)) <= 1e-6):
                    cx.fail("dynamics constraint in a program", x=x, **kw)
    cx.traces()
    cx.sample(points=len(batch), **kw)


def cost(cx, i, k, tier):
    """ every start on a grid x every horizon x goals: exact discrete cost """
    nm = list(D1)[i % 5] if i < 5 else list(D2)[i % 5]
    dom = (D1 if i < 5 else D2)[nm]
    n = 1 if i < 5 else 2
    s, modes = make("auto", dom, n, 0, 40 + k)
    pts = axis_points(dom, n, True)
    goals = [None, [F(0)] * n, [F(1, 2)] * n]

    def c1(x):
        return (x * x).sum() + 0.25

    def c2(x):
        return x[0]   # a view of the state
    for T in (0, 1, 2, 3, 5):
        for goal in goals:
            for cost_fun, name in ((c1, "quadratic"), (c2, "view")):
                want_pairs = []
                starts = list(itertools.product(*pts))
                if goal is not None:
                    # just inside and just outside the goal's 1e-3 ball
                    starts += [tuple(g + F(d, 8192) for g in goal)
                               for d in (5, -5, 7, 9)]
                for x0 in starts:
                    xs, left = [list(x0)], False
                    for step in range(T):
                        if goal is not None and sum(
                                float(a - b)**2 for a, b in zip(
                                    xs[-1], goal))**0.5 < 1e-3:
                            break
                        m = next((m for m in modes if inside(m[2], xs[-1])),
                                 None)
                        if m is None:
                            left = True
                            break
                        xs.append([sum(a * v for a, v in zip(r, xs[-1])) + ci
                                   for r, ci in zip(m[0], m[1])])
                    cx.states()
                    kw = dict(x0=x0, T=T, goal=goal, cost=name,
                              system=(nm, n, k))
                    x0t = t(fl(x0))
                    try:
                        r = hls.compute_discrete_time_system_cost_to_go(
                            s, x0t, T, cost_fun,
                            None if goal is None else t(fl(goal)))
                    except s.StepForwardException:
                        r = None
                    cx.trans()
                    cx.outcome(len(xs), left)
                    if x0t.tolist() != fl(x0):
                        cx.fail("the start state was modified", **kw)
                    if (r is None) != left:
                        cx.fail("leaving the domain", got=r is None,
                                want=left, **kw)
                        continue
                    if left:
                        continue
                    cs = [sum(v * v for v in x) + F(1, 4) if cost_fun is c1
                          else x[0] for x in xs]
                    togo = [float(sum(cs[j:])) for j in range(len(cs))]
                    if r[1].shape != (n, len(xs)) or not np.allclose(
                            r[1].T, [fl(x) for x in xs]):
                        cx.fail("cost-to-go: trajectory", **kw)
                    elif not (abs(r[0].item() - togo[0]) <= 1e-8) or \
                            not np.allclose(r[2], togo, atol=1e-8):
                        cx.fail("cost-to-go: value", got=(r[0], r[2]),
                                want=togo, **kw)
                    want_pairs += list(zip([fl(x) for x in xs], togo))
                    if len(cx.fails) > 5:
                        return

                def pruner(x):
                    return x[0] > 0.3
                got = hls.generate_cost_to_go_samples(
                    s, [t(fl(x)) for x in starts], T, cost_fun, True,
                    None if goal is None else t(fl(goal)), pruner)
                w = [p for p in want_pairs if not p[0][0] > 0.3]
                if len(got) != len(w) or any(
                        not np.allclose(a[0], b[0]) or not (abs(
                            a[1].item() - b[1]) <= 1e-8)
                        for a, b in zip(got, w)):
                    cx.fail("cost-to-go samples", T=T, goal=goal,
                            got=len(got), want=len(w), system=(nm, n, k))
    cx.traces()


def continuous(cx, i):
    """ piecewise-constant velocity and linear decay: closed forms """
    s = hls.AutonomousHybridLinearSystem(1, DT)
    P = t([[1.], [-1.]])
    if i < 3:
        # xdot = -1 for x >= 0 half, +1 else; moves to 0 in time |x|
        v1, v2 = [(-1., 1.), (-0.5, 0.25), (-1., 2.)][i]
        s.add_mode(t([[0.]]), t([v1]), P, t([40., 0.]))
        s.add_mode(t([[0.]]), t([v2]), P, t([0., 40.]))
        for x0 in (2., 1.5, 1., 0.5, -0.5, -1., -2.):
            v = v1 if x0 > 0 else v2
            for frac in (0.25, 0.5, 0.9):
                T = abs(x0 / v) * frac
                cx.states()
                for goal in (None, t([0.])):
                    tot, xs, cg, sol = \
                        hls.compute_continuous_time_system_cost_to_go(
                            s, t([x0]), T, lambda x: x[0]**2, goal)
                    want = x0**2 * T + x0 * v * T**2 + v**2 * T**3 / 3
                    cx.trans()
                    cx.outcome(round(want, 6))
                    last = x0 + v * T
                    if not (abs(tot.item() - want) <= 1e-5) or not (abs(
                            xs[0, -1].item() - last) <= 1e-6) or not (abs(
                                cg[0].item() - want) <= 1e-5) or not (abs(
                                    cg[-1].item()) <= 1e-9):
                        cx.fail("continuous-time cost-to-go", x0=x0, T=T,
                                got=tot.item(), want=want)
                    for tt, x, c in zip(sol.t, xs[0], cg):
                        w = want - (x0**2 * tt + x0 * v * tt**2 +
                                    v**2 * tt**3 / 3)
                        if not (abs(x.item() - x0 - v * tt) <= 1e-6) or not (abs(
                                c.item() - w) <= 1e-5):
                            cx.fail("continuous-time cost-to-go along the "
                                    "trajectory", x0=x0, T=T, time=tt)
                # reaches the goal and stops
                T = abs(x0 / v) + 0.3
                if v1 * v2 < 0:
                    tot, xs, cg, sol = \
                        hls.compute_continuous_time_system_cost_to_go(
                            s, t([x0]), T, lambda x: x[0]**2, t([0.]))
                    want = abs(x0**3 / (3 * v))
                    cx.trans()
                    if not (abs(tot.item() - want) <= 1e-4) or not (abs(
                            xs[0, -1].item()) <= 2e-3) or not (abs(
                                sol.t[-1] - (abs(x0) - 1e-3) / abs(v)
                            ) <= 1e-6):
                        cx.fail("continuous-time cost-to-go to the goal",
                                x0=x0, got=tot.item(), want=want)
    else:
        a = (-1., -0.5, 0.25)[i - 3]
        s.add_mode(t([[a]]), t([0.]), P, t([4., 4.]))
        for x0 in (1., -0.5, 0.25, 5.):
            for T in (0., 0.5, 2.):
                cx.states()
                cx.trans()
                want = x0**2 * (np.exp(2 * a * T) - 1) / (2 * a)
                try:
                    tot, xs, cg, sol = \
                        hls.compute_continuous_time_system_cost_to_go(
                            s, t([x0]), T, lambda x: x[0]**2)
                except s.StepForwardException:
                    if x0 != 5.:
                        cx.fail("left the domain", x0=x0, T=T)
                    pairs = hls.generate_cost_to_go_samples(
                        s, [t([x0])], T, lambda x: x[0]**2, False)
                    if pairs:
                        cx.fail("samples outside of the domain", x0=x0)
                    continue
                cx.outcome(round(float(want), 6))
                if x0 == 5. and T > 0:
                    cx.fail("trajectory outside of the domain", x0=x0, T=T)
                elif x0 != 5. and not (abs(tot.item() - want) <= 1e-5 * (
                        1 + abs(want))):
                    cx.fail("continuous-time cost-to-go", x0=x0, T=T,
                            got=tot.item(), want=want)
    cx.traces()


def goals(cx, i):
    """ decay towards a goal (in one or two dimensions, constant or state
    dependent cost): the time at which it is reached, and samples """
    n = 1 + i % 2
    rate = (1., 0.5, 2.)[i // 2]
    for g in ([F(0)] * n, [F(1, 2)] * n, [F(-1, 4)] * n):
        g = fl(g)
        s = hls.AutonomousHybridLinearSystem(n, DT)
        s.add_mode(-rate * torch.eye(n, dtype=DT), rate * t(g),
                   torch.cat((torch.eye(n), -torch.eye(n))).to(DT),
                   4 * torch.ones(2 * n, dtype=DT))
        pairs, starts = [], []
        for x0 in itertools.product((-1., 0.75, 2.), repeat=n):
            r0 = float(np.linalg.norm(np.array(x0) - g))
            hit = np.log(r0 * 1e3) / rate
            for cname, cost, integral in (
                    ("one", lambda x: torch.ones((), dtype=DT),
                     lambda a, b: b - a),
                    ("dist", lambda x: torch.sum((x - t(g))**2),
                     lambda a, b: r0**2 * (np.exp(-2 * rate * a) - np.exp(
                         -2 * rate * b)) / (2 * rate))):
                for T, goal in ((hit + 3., g), (hit * 0.5, g),
                                (hit + 3., None)):
                    cx.states()
                    cx.trans()
                    tot, xs, cg, sol = \
                        hls.compute_continuous_time_system_cost_to_go(
                            s, t(x0), T, cost,
                            None if goal is None else t(goal))
                    end = T if goal is None else min(T, hit)
                    cx.outcome(cname, goal is None, T > hit)
                    kw = dict(x0=x0, T=T, goal=goal, cost=cname, at=g)
                    if not (abs(sol.t[-1] - end) <= 5e-3):
                        cx.fail("continuous-time goal: end of the simulation",
                                got=sol.t[-1], want=end, **kw)
                        continue
                    end = sol.t[-1]
                    if not (abs(tot.item() - integral(0., end)) <= 1e-4):
                        cx.fail("continuous-time goal: cost", got=tot.item(),
                                want=integral(0., end), **kw)
                    for tt, x, c in zip(sol.t, xs.T, cg):
                        w = np.array(g) + (np.array(x0) - g) * np.exp(
                            -rate * tt)
                        if not np.allclose(x, w, atol=1e-5) or not (abs(
                                c.item() - integral(tt, end)) <= 1e-4):
                            cx.fail("continuous-time goal: trajectory",
                                    time=tt, **kw)
                            break
                    if cname == "dist" and goal is not None and T > hit:
                        starts.append(t(x0))
                        pairs += [(x, c) for x, c in zip(xs.T, cg)]
        # the samples are these trajectories (the same horizon for all)
        for prune in (None, lambda x: x[0] > 0.3):
            got = hls.generate_cost_to_go_samples(
                s, starts + [t([5.] * n)], 30.,
                lambda x: torch.sum((x - t(g))**2), False, t(g), prune)
            cx.trans()
            if prune is None and len({tuple(x.tolist()) for x, _ in got} & {
                    tuple(x0.tolist()) for x0 in starts}) != len(
                        {tuple(x0.tolist()) for x0 in starts}):
                cx.fail("continuous-time samples: a start is missing", at=g)
            for x, c in got:
                r = float(np.linalg.norm(x.numpy() - g))
                w = (r**2 - 1e-6) / (2 * rate)
                if not (abs(c.item() - w) <= 1e-4) or (
                        prune is not None and prune(x)):
                    cx.fail("continuous-time samples", x=x.tolist(),
                            got=c.item(), want=w, at=g)
                    break
            if prune is not None and len(got) == 0:
                cx.fail("continuous-time samples: none left", at=g)
    cx.traces()


def partition(cx, i, tier):
    """ the cells of a partition cover the box and overlap as requested """
    los = [(-1., 1.), (0.1, 0.7), (-0.3, 0.2), (1 / 3, 2 / 3)]
    xd = 1 + i % 2
    ud = 1 + (i // 2) % 2
    for shift in range(4):
        xb = [los[(shift + j) % 4] for j in range(xd)]
        ub = [los[(shift + 2 + j) % 4] for j in range(ud)]
        for nb in itertools.product((1, 2, 3), repeat=xd + ud):
            if xd + ud == 4 and tier == "quick" and sum(nb) % 2:
                continue
            for frac in ((0., 0.1, -0.2) if i < 4 else (0.25, 1.5)):
                xdel = t([frac * (1 + j) for j in range(xd)])
                udel = t([frac / (1 + j) for j in range(ud)])
                r = hls.partition_state_input_space(
                    t([b[0] for b in xb]), t([b[1] for b in xb]),
                    t([b[0] for b in ub]), t([b[1] for b in ub]),
                    torch.tensor(nb[:xd], dtype=torch.int),
                    torch.tensor(nb[xd:], dtype=torch.int), xdel, udel)
                sx, su, xl, xu, ul, uu = [v.numpy() for v in r]
                cen = np.hstack((sx, su))
                lo, up = np.hstack((xl, ul)), np.hstack((xu, uu))
                kw = dict(bounds=xb + ub, breaks=nb, delta=frac)
                cx.states(len(cen))
                cx.trans()
                cx.outcome(nb, frac)
                want = []
                ok = True
                for idx in itertools.product(*[range(m) for m in nb]):
                    row = []
                    for j, q in enumerate(idx):
                        b = (xb + ub)[j]
                        w = (b[1] - b[0]) / nb[j]
                        d = (xdel.tolist() + udel.tolist())[j] * w
                        c0 = b[0] + w * (q + 0.5)

                        def cl(v):
                            return min(max(v, b[0]), b[1])
                        row.append((c0, cl(c0 - w / 2 - d),
                                    cl(c0 + w / 2 + d)))
                    want.append([v for tr in zip(*row) for v in tr])
                got = np.hstack((cen, lo, up))
                want = np.array(sorted(want))
                got = np.array(sorted(got.tolist()))
                if got.shape != want.shape or not np.allclose(
                        got, want, atol=1e-12, rtol=0):
                    ok = False
                    cx.fail("partition cells", got=got.tolist()[:3],
                            want=want.tolist()[:3], **kw)
                if len(cx.fails) > 3:
                    return
                if frac >= 0 and ok:
                    # outer faces reached exactly; no gap between cells
                    for j, b in enumerate(xb + ub):
                        if lo[:, j].min() > b[0] or up[:, j].max() < b[1]:
                            cx.fail("partition does not reach the bounds",
                                    axis=j, got=(lo[:, j].min(),
                                                 up[:, j].max()), **kw)
    cx.traces()


def bounded(cx):
    """ boundedness test of a polyhedron: all small integer matrices """
    for n, rows in ((1, 2), (2, 3)):
        vals = (-1, 0, 1) if n == 1 else (-1, 0, 1)
        for M in itertools.product(
                itertools.product(vals, repeat=n), repeat=rows):
            if n == 2 and list(M) != sorted(M):
                continue
            # exact: the recession cone {M d <= 0} is trivial
            dirs = {(1, ), (-1, )} if n == 1 else {
                d for d in itertools.product((-1, 0, 1), repeat=2)
                if d != (0, 0)}
            if n == 2:
                # extreme rays of the cone are among the perpendiculars
                dirs |= {(a, b) for r in M for a, b in (
                    (-r[1], r[0]), (r[1], -r[0])) if (a, b) != (0, 0)}
            unb = any(all(sum(a * b for a, b in zip(r, d)) <= 0 for r in M)
                      for d in dirs)
            got = utils.is_polyhedron_bounded(t([list(map(float, r))
                                                 for r in M]))
            cx.states()
            cx.trans()
            cx.outcome(n, unb)
            if bool(got) == unb:
                cx.fail("boundedness of a polyhedron", M=M, got=got)
            if n == 1:
                for auto in (False, True):
                    P, q = t([list(map(float, r)) for r in M]), \
                        torch.ones(rows, dtype=DT)
                    try:
                        if auto:
                            hls.AutonomousHybridLinearSystem(1, DT).add_mode(
                                t([[1.]]), t([0.]), P, q, True)
                        else:
                            hls.HybridLinearSystem(1, 1, DT).add_mode(
                                t([[1.]]), t([[1.]]), t([0.]), torch.cat(
                                    (torch.cat((P, 0 * P), 1),
                                     torch.cat((0 * P, P), 1))),
                                torch.cat((q, q)), True)
                        refused = False
                    except Exception:
                        refused = True
                    if refused != unb:
                        cx.fail("a mode over an unbounded set",
                                M=M, refused=refused, autonomous=auto)
    cx.traces()


def work(cx, task):
    {"system": system, "cost": cost, "partition": partition,
     "bounded": bounded, "continuous": continuous,
     "goals": goals}[task[0]](cx, *task[1:])


if __name__ == "__main__":
    mc.main(
        "C10", tasks, work,
        rule="every system of the family, every grid point (vertices, edges, "
        "centres, outside), every binary assignment of every encoding; every "
        "start x horizon x goal; every partition shape")
