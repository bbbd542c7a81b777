"""
C12: feedback control systems.  The closed loop applies the saturated network
(or linear) controller to the plant; and the mixed-integer constraints of the
closed loop allow, at every state and for every assignment of the binaries,
exactly that input and that successor, also after the constraints have been
strengthened around a relaxed solution for every objective of an alphabet.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402
from program import Program  # noqa: E402

import neural_network_lyapunov.relu_system as rs  # noqa: E402
import neural_network_lyapunov.hybrid_linear_system as hls  # noqa: E402
import neural_network_lyapunov.feedback_system as fb  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov import mip_utils  # noqa: E402

DT = torch.float64
GRB = gurobipy.GRB
PM = mip_utils.PropagateBoundsMethod
METHODS = {"IA": PM.IA, "LP": PM.LP, "MIP": PM.MIP}
INF = float("inf")
TOL = 1e-6


def T(v):
    return nets.tensor(list(v))


def fl(v):
    return np.array([float(t) for t in v])


class Loop:
    def __init__(self, plant, ctrl, limits, method, k):
        self.plant, self.ctrl = plant, ctrl
        nx, nu = {"ctrl11": (1, 1), "eq11": (1, 1), "eq21": (2, 1),
                  "eq12": (1, 2), "cont11": (1, 1), "second": (2, 1),
                  "deep11": (1, 1),
                  "secondres": (2, 1), "hybrid": (1, 1),
                  "hybrid2": (1, 2)}[plant]
        self.nx, self.nu = nx, nu
        xlo, xup = [F(-1)] * nx, [F(3, 2)] * nx
        ulo, uup = [F(-4)] * nu, [F(4)] * nu
        self.xlo, self.xup = xlo, xup
        self.xeq, self.ueq = [F(1, 4), F(0)][:nx], [F(1, 2), F(-1, 4)][:nu]
        self.modes = None
        a = (DT, T(xlo), T(xup), T(ulo), T(uup))
        if plant.startswith("hybrid"):
            self.obj = hls.HybridLinearSystem(nx, nu, DT)
            # modes split at x + u0 = 1/4 (closed), continuous or not
            self.modes = []
            box, q = [], []
            for i in range(nx + nu):
                for s in (1, -1):
                    row = [F(0)] * (nx + nu)
                    row[i] = F(s)
                    box.append(row)
                    lo, up = (xlo + ulo)[i], (xup + uup)[i]
                    q.append(up if s == 1 else -lo)
            cut = [F(1)] * nx + [F(1)] + [F(0)] * (nu - 1)
            for s in (1, -1):
                t = nets.stream(500 + k * 7 + s)
                A = [[next(t) for _ in range(nx)] for _ in range(nx)]
                B = [[next(t) for _ in range(nu)] for _ in range(nx)]
                c = [next(t) for _ in range(nx)]
                P = box + [[s * v for v in cut]]
                qq = q + [F(s, 4)]
                self.modes.append((A, B, c, P, qq))
                self.obj.add_mode(nets.tensor(A), nets.tensor(B),
                                  nets.tensor(c), nets.tensor(P),
                                  nets.tensor(qq))
            # the bounds the controller needs
        elif plant == "second":
            self.net = nets.table_net((3, 2, 1), "relu", 101 + k, True)
            self.obj = rs.ReLUSecondOrderSystemGivenEquilibrium(
                *a, self.net, T(self.xeq[:1]), T(self.ueq), .25)
        elif plant == "secondres":
            self.net = nets.table_net((2, 2, 1), .125, 111 + k, True)
            self.obj = rs.ReLUSecondOrderResidueSystemGivenEquilibrium(
                *a, self.net, T(self.xeq[:1]), T(self.ueq), .25, [1])
        else:
            hid, slope = ((2, 2), (.125, "relu")) if plant == "deep11" else (
                (2, ), "relu")
            self.net = nets.table_net((nx + nu, ) + hid + (nx, ), slope,
                                      121 + k, True)
            if plant == "ctrl11":
                self.obj = rs.ReLUSystem(*a, self.net)
            else:
                self.obj = rs.ReLUSystemGivenEquilibrium(
                    *a, self.net, T(self.xeq), T(self.ueq),
                    plant != "cont11")
        if self.modes is None:
            self.layers = cells.layers_of(self.net)
        # controller
        if ctrl == "linear" or ctrl == "linear0":
            self.cnet = torch.nn.Linear(nx, nu, bias=ctrl == "linear").to(DT)
            self.cnet.weight.data = nets.tensor(nets.table_mat(nu, nx,
                                                               131 + k))
            if ctrl == "linear":
                self.cnet.bias.data = nets.tensor(
                    nets.table_mat(1, nu, 132 + k))[0]
        else:
            hidden, slope, bias = {"r2": ((2, ), "relu", True),
                                   "r1": ((1, ), "relu", True),
                                   "l22": ((2, 2), (.125, .5), (True, False, True)),
                                   "l2": ((2, ), .25, False)}[ctrl]
            self.cnet = nets.table_net((nx, ) + hidden + (nu, ), slope,
                                       141 + k, bias)
        self.clayers = cells.layers_of(self.cnet)
        lims = {"none": ([-INF] * 2, [INF] * 2),
                "mid": ([-.25, -.5], [.75, .25]),
                "wide": ([-4., -4.], [4., 4.]),
                "high": ([3.5, 3.25], [4., 3.75]),
                "low": ([-4., -4.], [-3.5, -3.]),
                "point": ([.5, -.25], [.5, -.25]),
                "mixed": ([-INF, -.5], [INF, .25]),
                "mixed2": ([-.25, -INF], [.75, INF])}[limits]
        self.ulim = [np.array(v[:nu]) for v in lims]
        self.sys = fb.FeedbackSystem(self.obj, self.cnet, T(self.xeq),
                                     T(self.ueq), *self.ulim)
        self.sys.controller_network_bound_propagate_method = METHODS[method]

    # ---- exact reference
    def pre(self, x):
        a = cells.eval_layers(self.clayers, x)[0]
        b = cells.eval_layers(self.clayers, self.xeq)[0]
        return [p - q + r for p, q, r in zip(a, b, self.ueq)]

    def u(self, x):
        ret = []
        for p, lo, up in zip(self.pre(x), *self.ulim):
            if up != INF and p > F(up):
                p = F(up)
            if lo != -INF and p < F(lo):
                p = F(lo)
            ret.append(p)
        return ret

    def succ(self, x, u):
        """ the set of possible successors """
        if self.modes is not None:
            ret = []
            for A, B, c, P, q in self.modes:
                z = list(x) + list(u)
                if all(sum(a * b for a, b in zip(r, z)) <= t
                       for r, t in zip(P, q)):
                    ret.append([sum(a * b for a, b in zip(ra + rb, z)) + t
                                for ra, rb, t in zip(A, B, c)])
            return ret
        phi = lambda z: cells.eval_layers(self.layers, z)[0]  # noqa: E731
        if self.plant == "ctrl11":
            return [phi(list(x) + list(u))]
        if self.plant in ("eq11", "eq21", "eq12", "cont11", "deep11"):
            d = [a - b for a, b in zip(phi(list(x) + list(u)),
                                       phi(self.xeq + self.ueq))]
            if self.plant != "cont11":
                d = [a + b for a, b in zip(d, self.xeq)]
            return [d]
        q, v = x[:1], x[1:]
        xeq = [self.xeq[0], F(0)]
        if self.plant == "second":
            vn = [a - b for a, b in zip(phi(list(x) + list(u)),
                                        phi(xeq + self.ueq))]
        else:
            vn = [c + a - b for a, b, c in zip(
                phi([x[1]] + list(u)), phi([xeq[1]] + self.ueq), v)]
        return [[q[0] + (v[0] + vn[0]) / 8] + vn]


def simulate(cx, S, pts, kw):
    X = torch.stack([T(x) for x in pts])
    X0 = X.clone()
    U = S.sys.compute_u(X).detach().numpy()
    ok = [len(S.succ(x, S.u(x))) > 0 for x in pts]
    if all(ok):
        B = S.sys.step_forward(X).detach().numpy()
    for i, x in enumerate(pts):
        u = S.u(x)
        one = S.sys.compute_u(X[i]).detach().numpy()
        cx.trans(2)
        if one.shape != (S.nu, ) or not (np.abs(one - fl(u)).max() <= 1e-12) or \
                not (np.abs(U[i] - fl(u)).max() <= 1e-12):
            return cx.fail("compute_u is not the saturated control law", x=x,
                           got=[one, U[i]], want=u, **kw)
        want = [fl(s) for s in S.succ(x, u)]
        got = [d.detach().numpy() for d in S.sys.possible_dx(X[i])]
        if len(got) != len(want) or any(
                not (np.abs(a - b).max() <= 1e-9) for a, b in zip(got, want)):
            return cx.fail("possible_dx is not the closed loop", x=x, got=got,
                           want=want, **kw)
        if all(ok):
            one = S.sys.step_forward(X[i]).detach().numpy()
            for g in (one, B[i]):
                if g.shape != (S.nx, ) or min(
                        np.abs(g - w).max() for w in want) > 1e-9:
                    return cx.fail("step_forward is not the closed loop", x=x,
                                   got=g, want=want, **kw)
    if not torch.equal(X, X0):
        return cx.fail("the state was changed", **kw)
    v = S.sys.controller_variables()
    if len(v) != len(list(S.cnet.parameters())) or any(
            a is not b for a, b in zip(v, S.cnet.parameters())):
        return cx.fail("controller_variables are not the parameters", **kw)
    # derivatives, away from kinks
    X = X + .0123456789 * torch.sin(torch.arange(
        1., X.numel() + 1, dtype=DT)).reshape(X.shape)
    X = X[::2].clone().requires_grad_(True)
    leaves = [X] + list(S.cnet.parameters())
    # (at equal limits every control is at a kink)
    todo = [] if any(S.ulim[0] == S.ulim[1]) else [
        ("compute_u", S.sys.compute_u)]
    modules = [S.cnet]
    if S.modes is None and todo:
        leaves += list(S.net.parameters())
        modules.append(S.net)
        todo += [("step_forward", S.sys.step_forward),
                 ("possible_dx", lambda x: S.sys.possible_dx(x)[0])]
    for what, f in todo:
        for _ in range(what != "possible_dx"):
            n = f(X).numel()
            mul = torch.cos(torch.arange(1., n + 1, dtype=DT))
            if nets.slopes(cx, lambda: (f(X).reshape(-1) * mul).sum(), leaves,
                           what, kw, modules) is not True:
                return
        for i in range(0, len(X), 3):
            n = f(X[i]).numel()
            mul = torch.cos(torch.arange(1., n + 1, dtype=DT))
            if nets.slopes(cx, lambda: (f(X[i]).reshape(-1) * mul).sum(),
                           leaves, what + " of one state", kw,
                           modules) is not True:
                return
    return True


def build(S, btype):
    mip = gtm.GurobiTorchMILP(DT)
    mip.gurobi_model.setParam("OutputFlag", 0)
    x = mip.addVars(S.nx, lb=-GRB.INFINITY, name="x")
    y = mip.addVars(S.nx, lb=-GRB.INFINITY, name="y")
    u, fwd, con = S.sys.add_dynamics_mip_constraint(
        mip, x, y, "u", "s", "b", "cs", "cb", binary_var_type=btype)
    return mip, x, y, u, fwd, con


def exact(cx, S, prog, x, y, u, pts, kw, what=""):
    """ allowed (u, successor) at every state = the closed loop """
    for p in pts:
        if cx.out_of_time():
            return None
        want_u = fl(S.u(p))
        want = [fl(s) for s in S.succ(p, S.u(p))]
        hit = [False] * len(want)
        for z, lo, up in prog.leaves({v: t for v, t in zip(x, p)}):
            cx.trans()
            ex = prog.extent(lo, up, [prog.unit(v) for v in u + y])
            mid = np.array([(a + b) / 2 for a, b in ex])
            if any(b - a > 2 * TOL for a, b in ex) or not (np.abs(
                    mid[:S.nu] - want_u).max() <= TOL):
                return cx.fail("constraints allow another input" + what, x=p,
                               allowed=ex, want_u=want_u, want_next=want,
                               binaries=z, **kw)
            d = [np.abs(mid[S.nu:] - w).max() for w in want]
            if not d or min(d) > TOL:
                return cx.fail("constraints allow another successor" + what,
                               x=p, allowed=ex, want=want, binaries=z, **kw)
            for i, v in enumerate(d):
                hit[i] = hit[i] or v <= TOL
        if not all(hit):
            return cx.fail("constraints exclude the true transition" + what,
                           x=p, want=want, want_u=want_u, **kw)
        cx.outcome(len(hit), tuple(np.round(want_u, 3)))
    return True


def work(cx, task):
    tier, cfg = task
    S = Loop(*cfg)
    kw = dict(config=cfg)
    n = 9 if S.nx == 1 else 5
    pts = [list(p) for p in cells.grid(S.xlo, S.xup, n)]
    if S.nx == 1:
        # where the controller switches or saturates
        c = [cells.Cell(k.verts, {"x": [cells.Aff([F(1)], F(0))]}, ())
             for k in [cells.box_cell(S.xlo, S.xup)]]
        c = cells.network(c, "x", "u", S.clayers)
        pts += [list(p) for p in cells.vertices(c)]
        off = [a - b for a, b in zip(S.pre([S.xlo[0]]), cells.eval_layers(
            S.clayers, [S.xlo[0]])[0])]
        for cell in c:
            if len(cell.verts) < 2:
                continue
            for i, aff in enumerate(cell.m["u"]):
                for lim in (S.ulim[0][i], S.ulim[1][i]):
                    if abs(lim) != INF and aff.a[0] != 0:
                        t = (F(lim) - off[i] - aff.c) / aff.a[0]
                        if S.xlo[0] <= t <= S.xup[0]:
                            pts.append([t])
    # with a discontinuous plant, points that rounding may move across the
    # boundary are not decided
    if S.modes is not None:
        pts = [p for p in pts if all(abs(float(p[0] + S.u(p)[0] - F(1, 4)))
                                     > 1e-5 or F(float(p[0])) == p[0] and
                                     F(float(S.u(p)[0])) == S.u(p)[0]
                                     for _ in (0, ))]
    cx.states(len(pts))
    for name, want in (("x_lo_all", S.xlo), ("x_up_all", S.xup)):
        if not np.allclose(getattr(S.sys, name), fl(want), atol=1e-7):
            return cx.fail("declared box of the states: " + name,
                           got=getattr(S.sys, name), want=want, **kw)
    # the loop has been used before, with other parameters
    with nets.earlier(S.cnet, *([] if S.modes is not None else [S.net])):
        S.sys.step_forward(T(pts[0]))
        try:
            build(S, GRB.BINARY)
        except Exception:
            pass
    if simulate(cx, S, pts, kw) is None:
        return
    # without limits the controller may leave the inputs the plant is for
    pts = [p for p in pts if all(abs(v) <= 4 for v in S.u(p))]
    if not pts:
        cx.count("the controller leaves the plant's inputs everywhere")
        return
    mip, x, y, u, fwd, con = build(S, GRB.BINARY)
    prog = Program(mip.gurobi_model)
    if exact(cx, S, prog, x, y, u, pts, kw) is None:
        return

    def val(t):
        return t.detach().numpy().reshape(-1)
    for p in pts:
        w = fl(S.u(p))
        if np.any(w < val(con.u_lower_bound) - TOL) or np.any(
                w > val(con.u_upper_bound) + TOL):
            return cx.fail("bounds of the input do not enclose it", x=p,
                           u=w, **kw)
    # program that bounds the input: contains every (x, u)
    cb = con.control_bound_prog
    if cb is not None and cb.prog is not None and cfg[3] != "IA":
        bp = Program(cb.prog.gurobi_model)
        for p in pts:
            fix = {v: t for v, t in zip(cb.x_var, p)}
            cx.trans()
            k = 0
            for z, lo, up in bp.leaves(fix):
                k += 1
                ex = bp.extent(lo, up, [bp.unit(v) for v in cb.u_var])
                w = fl(S.u(p))
                if any(t < a - TOL or t > b + TOL
                       for t, (a, b) in zip(w, ex)) or cfg[3] == "MIP" and any(
                           b - a > TOL for a, b in ex):
                    return cx.fail("program bounding the input is wrong", x=p,
                                   allowed=ex, want=w, **kw)
            if not k:
                return cx.fail("program bounding the input excludes a state",
                               x=p, **kw)
    # relaxation, strengthened for every objective of an alphabet
    for cs in itertools.product((1., -1.), (0., 1., -1.), (0., 1.)):
        mip, x, y, u, fwd, con = build(S, gtm.BINARYRELAX)
        if S.modes is not None:
            break
        mip.setObjective([torch.tensor([cs[0]] * S.nx, dtype=DT),
                          torch.tensor([cs[1]] * S.nx, dtype=DT),
                          torch.tensor([cs[2]] * S.nu, dtype=DT)], [x, y, u],
                         0., GRB.MAXIMIZE)
        mip.gurobi_model.optimize()
        if mip.gurobi_model.status != GRB.Status.OPTIMAL:
            cx.outcome("relaxation", mip.gurobi_model.status)
            break
        r0 = mip.gurobi_model.ObjVal
        rows = len(mip.gurobi_model.getConstrs())
        S.sys.strengthen_dynamics_constraint(mip, fwd, con)
        mip.gurobi_model.update()
        cuts = len(mip.gurobi_model.getConstrs()) - rows
        cx.count("strengthenings")
        cx.count("cuts", cuts)
        if not cuts:
            continue
        mip.gurobi_model.optimize()
        if mip.gurobi_model.status != GRB.Status.OPTIMAL or \
                mip.gurobi_model.ObjVal > r0 + 1e-6:
            return cx.fail("strengthening loosened the relaxation",
                           objective=cs, **kw)
        for v in mip.zeta:
            v.vtype = GRB.BINARY
        prog = Program(mip.gurobi_model)
        if exact(cx, S, prog, x, y, u, pts[::2] if tier == "quick" else pts,
                 kw, " after strengthening") is None:
            return
    cx.traces()
    cx.sample(config=cfg, points=len(pts), binaries=len(prog.bin))


PLANTS = ["ctrl11", "eq11", "deep11", "eq21", "eq12", "cont11", "second", "secondres",
          "hybrid", "hybrid2"]
CTRLS = ["linear", "linear0", "r2", "r1", "l22", "l2"]


def tasks(tier):
    out = []
    for k in range(1 if tier == "quick" else 8):
        for p, c in itertools.product(PLANTS, CTRLS):
            lim = ["none", "mid", "wide", "high", "low", "point"]
            if p.endswith("12") or p == "hybrid2":
                lim += ["mixed", "mixed2"]
            if tier == "quick":
                lim = [v for v in lim if v != "wide"]
            for i, v in enumerate(lim):
                ms = ("IA", "LP", "MIP")
                for m in (ms if tier != "quick" else (
                        ms[(i + len(c) + PLANTS.index(p)) % 3], )):
                    out.append((tier, (p, c, v, m, k)))
    return out


if __name__ == "__main__":
    mc.main("C12", tasks, work, rule="every plant x controller x limits x "
            "bound method, every grid point and switching point, every "
            "feasible binary assignment",
            assumptions=["control limits inside the plant's input bounds",
                         "tolerance 1e-6"])
