"""
Declared family of autonomous systems x -> f(x) (possibly set-valued) and of
Lyapunov candidates V(x) = phi(x) - phi(x*) + lambda |R (x - x*)|_1, each both
as objects of the code under test and as exact piecewise-affine maps (cells).
"""
from fractions import Fraction as F

import numpy as np
import torch
import gurobipy

import cells
import nets
from program import Program  # noqa: F401

import neural_network_lyapunov.feedback_system as fb
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.lyapunov as lyapunov  # noqa: F401
import neural_network_lyapunov.relu_system as rs
from neural_network_lyapunov import mip_utils

DT = torch.float64
GRB = gurobipy.GRB
PM = mip_utils.PropagateBoundsMethod
METHODS = {"IA": PM.IA, "LP": PM.LP, "MIP": PM.MIP, "IA_MIP": PM.IA_MIP}
INF = float("inf")


def T(v):
    return nets.tensor(list(v))


def fl(v):
    return np.array([float(t) for t in v])


def dot(a, b):
    return sum((p * q for p, q in zip(a, b)), F(0))


def start_cells(lo, up):
    return [cells.Cell(k.verts, dict(k.m), ())
            for k in [cells.box_cell(lo, up)]]


class System:
    """
    kinds  auto / autoeq / autores (d, k, slope, hidden, bias)
           hyb (modes split along a table of half planes)
           fb  (ReLU plant with a saturated ReLU or linear controller;
                plant eq / second / secondres: see the classes)
    """
    def __init__(self, kind, d, k, disc=True, box=None, slope="relu",
                 hidden=2, bias=True, xeq=None, limits="mid", scale=1,
                 method="IA", shift=0, plant="eq", ctrl="net"):
        self.kind, self.d, self.disc = kind, d, disc
        lo, up = box or ([-1] * d, [F(3, 2), F(5, 4)][:d])
        self.xlo, self.xup = list(map(F, lo)), list(map(F, up))
        self.xeq = list(map(F, xeq if xeq is not None
                            else [F(1, 4), F(-1, 2)][:d]))
        a = (DT, T(self.xlo), T(self.xup))
        self.method = METHODS[method]
        if kind in ("auto", "autoeq", "autores"):
            hid = (hidden, ) if isinstance(hidden, int) else hidden
            self.net = nets.table_net((d, ) + hid + (d, ), slope, k, bias)
            if scale != 1:
                self.net[-1].weight.data *= float(scale)
            if shift and self.net[-1].bias is not None:
                self.net[-1].bias.data += float(shift)
            self.layers = cells.layers_of(self.net)
            m = dict(network_bound_propagate_method=self.method)
            if kind == "auto":
                self.obj = rs.AutonomousReLUSystem(*a, self.net, **m)
            elif kind == "autoeq":
                self.obj = rs.AutonomousReLUSystemGivenEquilibrium(
                    *a, self.net, T(self.xeq), disc, **m)
            else:
                self.obj = rs.AutonomousResidualReLUSystemGivenEquilibrium(
                    *a, self.net, T(self.xeq), disc, **m)
        elif kind == "hyb":
            self.obj = hls.AutonomousHybridLinearSystem(d, DT)
            self.modes = []
            cuts = {1: [[F(1)]], 2: [[F(1), F(0)], [F(1), F(1)]]}[d]
            cut = cuts[k % len(cuts)]
            c0 = F((k % 3) - 1, 4) if xeq is None else dot(cut, self.xeq)
            for s in (1, -1):
                t = nets.stream(700 + 7 * k + s)
                A = [[next(t) * F(scale) for _ in range(d)]
                     for _ in range(d)]
                if xeq is None:
                    c = [next(t) for _ in range(d)]
                else:  # x* is an equilibrium of every mode it belongs to
                    c = [(e if disc else F(0)) - dot(r, self.xeq)
                         for e, r in zip(self.xeq, A)]
                P, q = [], []
                for i in range(d):
                    P.append([F(int(i == j)) for j in range(d)])
                    q.append(self.xup[i])
                    P.append([F(-int(i == j)) for j in range(d)])
                    q.append(-self.xlo[i])
                P.append([s * v for v in cut])
                q.append(s * c0)
                self.modes.append((A, c, P, q))
                self.obj.add_mode(nets.tensor(A), nets.tensor(c),
                                  nets.tensor(P), nets.tensor(q))
        elif kind == "fb":
            self.ueq = [F(1, 2)]
            self.ulo, self.uup = [F(-2)], [F(2)]
            b = a + (T(self.ulo), T(self.uup))
            self.pkind = plant
            if plant != "eq":
                assert d == 2 and disc and self.xeq[1] == 0
            nin, nout = {"eq": (d + 1, d), "second": (3, 1),
                         "secondres": (2, 1)}[plant]
            self.net = nets.table_net((nin, 2, nout), slope, k, bias)
            if scale != 1:
                self.net[-1].weight.data *= float(scale)
            self.layers = cells.layers_of(self.net)
            if plant == "eq":
                self.plant = rs.ReLUSystemGivenEquilibrium(
                    *b, self.net, T(self.xeq), T(self.ueq), disc)
            elif plant == "second":
                self.plant = rs.ReLUSecondOrderSystemGivenEquilibrium(
                    *b, self.net, T(self.xeq[:1]), T(self.ueq), .25)
            else:
                self.plant = rs.ReLUSecondOrderResidueSystemGivenEquilibrium(
                    *b, self.net, T(self.xeq[:1]), T(self.ueq), .25, [1])
            if ctrl == "linear":
                self.cnet = torch.nn.Linear(d, 1).to(DT)
                self.cnet.weight.data = nets.tensor(nets.table_mat(
                    1, d, k + 31))
                self.cnet.bias.data = nets.tensor([F(3, 8)])
            else:
                self.cnet = nets.table_net((d, 2, 1), slope, k + 31, bias)
            self.clayers = cells.layers_of(self.cnet)
            self.ulim = {"mid": ([F(-1, 4)], [F(3, 4)]),
                         "wide": ([F(-2)], [F(2)]),
                         "tight": ([F(1, 4)], [F(5, 8)])}[limits]
            self.obj = fb.FeedbackSystem(
                self.plant, self.cnet, T(self.xeq), T(self.ueq),
                fl(self.ulim[0]), fl(self.ulim[1]))
        else:
            raise NotImplementedError(kind)

    def reread(self):
        """ after the networks have been changed """
        if self.kind != "hyb":
            self.layers = cells.layers_of(self.net)
        if self.kind == "fb":
            self.clayers = cells.layers_of(self.cnet)

    def params(self):
        return [p for g in self.groups().values() for p in g]

    def groups(self):
        """ the parameters, by what they belong to """
        g = {}
        if self.kind != "hyb":
            g["dynamics"] = list(self.net.parameters())
        if self.kind == "fb":
            g["controller"] = list(self.cnet.parameters())
        return g

    def kinks(self, x, tol=F(1, 10**6)):
        """ number of switching surfaces of the dynamics at x """
        near = lambda t: abs(t) < tol  # noqa: E731
        if self.kind == "hyb":
            return int(near(dot(self.modes[0][2][-1], x) -
                            self.modes[0][3][-1]))
        z = list(x)
        n = 0
        if self.kind == "fb":
            c, pre = cells.eval_layers(self.clayers, x)
            n += sum(near(t) for q in pre for t in q)
            b = cells.eval_layers(self.clayers, self.xeq)[0]
            for p, q, e, lo, up in zip(c, b, self.ueq, *self.ulim):
                n += near(p - q + e - lo) + near(p - q + e - up)
            z = (z[1:] if self.pkind == "secondres" else z) + self.u(x)
        return n + sum(near(t) for q in cells.eval_layers(
            self.layers, z)[1] for t in q)

    # ---- exact reference
    def succ(self, x):
        """ all possible f(x) """
        phi = lambda z: cells.eval_layers(self.layers, z)[0]  # noqa: E731
        if self.kind == "auto":
            return [phi(x)]
        if self.kind in ("autoeq", "autores"):
            y = [a - b for a, b in zip(phi(x), phi(self.xeq))]
            if self.disc:
                y = [a + b for a, b in zip(
                    y, self.xeq if self.kind == "autoeq" else x)]
            return [y]
        if self.kind == "hyb":
            return [[dot(r, x) + t for r, t in zip(A, c)]
                    for A, c, P, q in self.modes
                    if all(dot(r, x) <= t for r, t in zip(P, q))]
        u = self.u(x)
        if self.pkind != "eq":
            n = 1 if self.pkind == "secondres" else 0
            vn = phi(list(x)[n:] + u)[0] - phi(self.xeq[n:] + self.ueq)[0]
            if n:
                vn += x[1]
            return [[x[0] + (x[1] + vn) / 8, vn]]
        y = [a - b for a, b in zip(phi(list(x) + u),
                                   phi(self.xeq + self.ueq))]
        return [[a + b for a, b in zip(y, self.xeq)] if self.disc else y]

    def u(self, x):
        c = lambda z: cells.eval_layers(self.clayers, z)[0]  # noqa: E731
        return [min(max(a - b + e, lo), up) for a, b, e, lo, up in zip(
            c(x), c(self.xeq), self.ueq, *self.ulim)]

    def cells(self):
        """ exact cells of the box with the maps 'x' and 'xn' """
        cs = start_cells(self.xlo, self.xup)
        if self.kind == "hyb":
            ret = []
            for mode, (A, c, P, q) in enumerate(self.modes):
                for cell in cs:
                    v = cell.verts
                    for r, t in zip(P, q):
                        if v is not None:
                            v = cells.clip(v, cells.Aff([-p for p in r], t),
                                           1)
                    if v is not None:
                        ret.append(cells.Cell(v, dict(cell.m), (mode, )))
            out = []
            for mode, (A, c, P, q) in enumerate(self.modes):
                out += cells.affine([e for e in ret if e.tag[0] == mode],
                                    "x", "xn", A, c)
            return out
        if self.kind == "fb":
            cs = cells.network(cs, "x", "c", self.clayers)
            ceq = cells.eval_layers(self.clayers, self.xeq)[0]
            cs = [e.with_map("w", [f + (u - b) for f, u, b in zip(
                e.m["c"], self.ueq, ceq)]) for e in cs]
            cs = cells.clamp(cs, "w", "u", *self.ulim)
            n = 1 if self.pkind == "secondres" else 0
            cs = [e.with_map("xu", list(e.m["x"])[n:] + list(e.m["u"]))
                  for e in cs]
            cs = cells.network(cs, "xu", "phi", self.layers)
            if self.pkind != "eq":
                peq = cells.eval_layers(self.layers,
                                        self.xeq[n:] + self.ueq)[0][0]
                ret = []
                for e in cs:
                    x = e.m["x"]
                    vn = e.m["phi"][0] - peq
                    if n:
                        vn = vn + x[1]
                    ret.append(e.with_map(
                        "xn", [x[0] + (x[1] + vn) * F(1, 8), vn]))
                return ret
            peq = cells.eval_layers(self.layers, self.xeq + self.ueq)[0]
            return [e.with_map("xn", [
                f + (a if self.disc else F(0)) - b
                for f, a, b in zip(e.m["phi"], self.xeq, peq)]) for e in cs]
        cs = cells.network(cs, "x", "phi", self.layers)
        if self.kind == "auto":
            return [e.with_map("xn", e.m["phi"]) for e in cs]
        peq = cells.eval_layers(self.layers, self.xeq)[0]
        ret = []
        for e in cs:
            y = [f - b for f, b in zip(e.m["phi"], peq)]
            if self.disc:
                y = [f + g for f, g in zip(y, self.xeq if self.kind ==
                                           "autoeq" else e.m["x"])]
            ret.append(e.with_map("xn", y))
        return ret

    def inside(self, x):
        return all(a <= b <= c for a, b, c in zip(self.xlo, x, self.xup))


RS = {1: {"none": None, "one": [[F(1)]], "two": [[F(2)]],
          "tall": [[F(1)], [F(-1, 2)]]},
      2: {"none": None, "eye": [[F(1), F(0)], [F(0), F(1)]],
          "skew": [[F(1), F(1, 2)], [F(-1, 4), F(1)]],
          "tall": [[F(1), F(0)], [F(0), F(1)], [F(1), F(-1)]]}}


class Candidate:
    """ V(x) = phi(x) - phi(x*) + lambda |R (x - x*)|_1 """
    def __init__(self, d, xeq, k, lam, R, slope="relu", hidden=(2, ),
                 bias=True):
        self.d, self.xeq, self.lam = d, list(map(F, xeq)), F(lam)
        hid = (hidden, ) if isinstance(hidden, int) else hidden
        self.net = nets.table_net((d, ) + hid + (1, ), slope, k, bias)
        self.Rm = RS[d][R] if isinstance(R, str) else R
        self.R = [[F(int(i == j)) for j in range(d)] for i in range(d)] \
            if self.Rm is None else self.Rm
        self.reread()

    def reread(self):
        self.layers = cells.layers_of(self.net)
        self.phi_eq = cells.eval_layers(self.layers, self.xeq)[0][0]

    @property
    def Rt(self):
        return None if self.Rm is None else nets.tensor(self.Rm)

    def l1(self, x):
        e = [a - b for a, b in zip(x, self.xeq)]
        return sum((abs(dot(r, e)) for r in self.R), F(0))

    def V(self, x):
        return cells.eval_layers(self.layers, x)[0][0] - self.phi_eq + \
            self.lam * self.l1(x)

    def add(self, cs, src):
        """ maps ('V', src) and ('l1', src) """
        cs = cells.network(cs, src, ("phi", src), self.layers)
        cs = cells.affine(cs, src, ("e", src), self.R,
                          [-dot(r, self.xeq) for r in self.R])
        cs = cells.absolute(cs, ("e", src), ("s", src))
        ret = []
        for c in cs:
            s = c.m[("s", src)]
            l1 = s[0]
            for t in s[1:]:
                l1 = l1 + t
            V = c.m[("phi", src)][0] - self.phi_eq + l1 * self.lam
            ret.append(c.with_map(("l1", src), [l1]).with_map(("V", src),
                                                              [V]))
        return ret


def keep(cs, fn):
    """ the parts of the cells where fn(cell) >= 0 """
    ret = []
    for c in cs:
        v = cells.clip(c.verts, fn(c), 1)
        if v is not None:
            ret.append(cells.Cell(v, c.m, c.tag))
    return ret


def keep_box(cs, name, lo, up):
    for i in range(len(lo)):
        cs = keep(cs, lambda c: c.m[name][i] - lo[i])
        cs = keep(cs, lambda c: (c.m[name][i] - up[i]) * F(-1))
    return cs


def points(cs, lo, up, n, cap=None):
    """ vertices and centres of the cells, plus a grid """
    p = cells.vertices(cs) + cells.midpoints(cs)
    if cap is not None and len(p) > cap:
        p = p[::-(-len(p) // cap)]
    return sorted(set(p) | set(tuple(q) for q in cells.grid(lo, up, n)))


def objective(prog):
    """ (coefficients, constant, maximise) of the program's objective """
    o = prog.model.getObjective()
    if isinstance(o, gurobipy.QuadExpr):
        assert o.size() == 0
        o = o.getLinExpr()
    c = np.zeros(prog.n)
    for i in range(o.size()):
        c[prog.index[o.getVar(i)]] += o.getCoeff(i)
    return c, o.getConstant(), prog.model.ModelSense == GRB.MAXIMIZE


def solve(milp):
    """ optimum reported by the solver; None if infeasible """
    m = milp.gurobi_model if hasattr(milp, "gurobi_model") else milp
    m.setParam(GRB.Param.OutputFlag, False)
    m.setParam(GRB.Param.DualReductions, 0)
    m.optimize()
    if m.status == GRB.Status.OPTIMAL:
        return m.ObjVal
    if m.status == GRB.Status.INFEASIBLE:
        return None
    raise AssertionError(f"status {m.status}")


def check_fixed(cx, prog, x, fixes, wants, tol=1e-6):
    """
    With the state fixed, every feasible binary assignment gives one of the
    wanted objective values, and every wanted value is reached.
    -> None or a description of the difference
    """
    c, k, _ = objective(prog)
    hit = set()
    for z, lo, up in prog.leaves(dict(zip(x, fixes))):
        cx.trans()
        mn, mx = prog.extent(lo, up, [c])[0]
        mn, mx = mn + k, mx + k
        j = [i for i, w in enumerate(wants)
             if abs(mn - float(w)) <= tol and abs(mx - float(w)) <= tol]
        if not j:
            return dict(allowed=[mn, mx], want=[float(w) for w in wants],
                        binaries=z)
        hit.update(j)
    if len(hit) != len(wants):
        return dict(allowed="not all wanted values are reached",
                    want=[float(w) for w in wants], hit=sorted(hit))
    return None
