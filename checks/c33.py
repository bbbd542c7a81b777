"""
C33: the gradient with which a certificate is trained.  For every declared
program (positivity, derivative in discrete and continuous time, value and
derivative of barriers, gap of V over the boundary) and system, the objective
recomputed from the solution has, with respect to every trainable parameter
(Lyapunov or barrier network, R, controller, dynamics), the derivative of the
exact worst case.  Compared wherever that derivative exists and the worst
state is unique and non-degenerate.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import nets  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T  # noqa: E402

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c16  # noqa: E402
import c18  # noqa: E402
from neural_network_lyapunov import barrier, lyapunov, r_options  # noqa: E402
import neural_network_lyapunov.continuous_time_lyapunov as ctl  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402

E = lyapunov.ConvergenceEps
H = F(1, 2**20)
NEAR = F(1, 10**6)
DISCRETE = ["pos", "ExpLower", "ExpUpper", "Asymp", "gap", "h safe",
            "h unsafe", "h der"]
CONTINUOUS = ["ct", "ct2"]


def configs(tier):
    quick = tier == "quick"
    x0 = (F(1, 4), F(0))
    S1 = [("auto", 1, 31, {}), ("autoeq", 1, 32, dict(scale=.5)),
          ("autores", 1, 33, dict(slope=.125, scale=.5)),
          ("hyb", 1, 1, {}), ("hyb", 1, 5, dict(xeq=(F(1, 4), ),
                                                scale=F(1, 2))),
          ("fb", 1, 34, dict(scale=.5)),
          ("fb", 1, 35, dict(limits="wide", scale=.5)),
          ("fb", 1, 36, dict(ctrl="linear", scale=.5))]
    S2 = [("auto", 2, 41, dict(scale=.5)), ("autoeq", 2, 42, dict(scale=.5)),
          ("autores", 2, 43, dict(scale=.25)), ("hyb", 2, 2, {}),
          ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2)), scale=F(1, 2))),
          ("fb", 2, 44, dict(scale=.5)),
          ("fb", 2, 45, dict(limits="wide", scale=.5)),
          ("fb", 2, 46, dict(plant="second", xeq=x0, scale=.5)),
          ("fb", 2, 47, dict(plant="secondres", xeq=x0, scale=.5)),
          ("fb", 2, 48, dict(plant="secondres", xeq=x0, scale=.5,
                             ctrl="linear", limits="wide"))]
    V = [("relu", (2, ), True), (.125, (2, ), False), (.25, (3, ), True),
         ("relu", (2, 2), (True, False, True))]
    out = []
    k = 0
    for sys_, v, R in itertools.product(S1 + S2, V, (0, 1, 2)):
        d = sys_[1]
        if R < len(lyap.RS[d]) - 1:
            R = [r for r in lyap.RS[d] if r != "none"][R]
        else:
            continue
        progs = list(DISCRETE)
        if sys_[0] == "hyb":
            progs += CONTINUOUS
        elif sys_[0].startswith("auto"):
            progs += ["ct"]
        for what in progs:
            k += 1
            cuts = k // 2 % 3 if what in ("ExpLower", "ExpUpper", "Asymp") \
                else 0
            for j in range(1 if quick else 6):
                if quick and (k * 5 + k // 10) % (4 if d == 1 else 3):
                    continue
                lam, eps = [(F(1, 2), F(1, 4)), (F(2), F(1, 8)),
                            (F(1, 4), F(1, 2))][(k + j) % 3]
                out.append((sys_, v, R, what, lam, eps, (k + 3 * j) % 23,
                            cuts))
    return out


class Problem:
    """ one program and its exact optimum """
    def __init__(self, cfg):
        (kind, d, k0, skw), (slope, hid, bias), R, what, lam, eps, k, \
            self.cuts = cfg
        self.what, self.eps, self.d = what, eps, d
        disc = what not in CONTINUOUS
        self.S = S = lyap.System(kind, d, k0, disc=disc, **skw)
        bar = what.startswith("h")
        if bar or (kind == "hyb" and not disc):
            # no R (declared as not supported in continuous time)
            R = None
        self.star = S.xeq if not bar else [
            S.xeq, [(a + b) / 2 for a, b in zip(S.xlo, S.xup)]][k % 2]
        self.C = lyap.Candidate(d, self.star, 150 + k, 0 if bar else lam,
                                R, slope, hid, bias)
        self.R = None
        if R is not None:
            self.R = self.C.Rt.clone().requires_grad_(True)
        self.lam = lam
        self.used = False
        self.c = F(1, 2)
        if bar:
            self.L = barrier.DiscreteTimeBarrier(S.obj, self.C.net)
            names = ["all", "half", "two boxes", "slice", "apart"]
            self.region, self.pieces = c18.region(names[k % 5], d, S.xlo,
                                                  S.xup)
        elif disc:
            self.L = lyapunov.LyapunovDiscreteTimeHybridSystem(S.obj,
                                                               self.C.net)
        elif kind == "hyb":
            self.L = ctl.LyapunovContinuousTimeHybridSystem(S.obj, self.C.net)
        else:
            self.L = ctl.LyapunovContinuousTimeSystem(S.obj, self.C.net)

    def groups(self):
        g = dict(self.S.groups())
        if self.what in ("pos", "gap", "h safe", "h unsafe"):
            g = {}
        g["network"] = list(self.C.net.parameters())
        if self.R is not None:
            g["R"] = [self.R]
        return g

    def reread(self):
        self.S.reread()
        self.C.reread()
        if self.R is not None:
            self.C.R = [[F(v) for v in r] for r in self.R.tolist()]

    # ---- the code
    def build(self):
        """ -> (milp, objective as a tensor); None if infeasible """
        if not self.used:
            # the certificate has been solved before, with other parameters
            self.used = True
            with nets.earlier(*(p for g in self.groups().values()
                                for p in g)):
                try:
                    self.solve()
                except Exception:
                    pass
        return self.solve()

    def solve(self):
        xeq, lam, eps = T(self.star), float(self.lam), float(self.eps)
        w, L = self.what, self.L
        if w == "gap":
            tr = tlb.Trainer()

            class Opt(r_options.FixedROptions):
                def R(_):
                    return self.R
            tr.add_lyapunov(L, lam, xeq, Opt(self.R))
            return tr.solve_boundary_gap_mip()[0]
        if w == "pos":
            milp = L.lyapunov_positivity_as_milp(xeq, lam, eps, R=self.R)[0]
        elif self.cuts:
            milp = L.strengthen_lyapunov_derivative_as_milp(
                xeq, lam, eps, E[w], self.cuts, R=self.R).milp
        elif w in ("ExpLower", "ExpUpper", "Asymp"):
            milp = L.lyapunov_derivative_as_milp(xeq, lam, eps, E[w],
                                                 R=self.R).milp
        elif w == "ct":
            milp = L.lyapunov_derivative_as_milp(xeq, lam, eps, E.ExpLower,
                                                 R=self.R).milp
        elif w == "ct2":
            milp = L.lyapunov_derivative_as_milp2(xeq, lam, eps, E.ExpLower,
                                                  R=self.R).milp
        elif w == "h der":
            milp = L.derivative_as_milp(xeq, float(self.c), eps).milp
        else:
            milp = L.value_as_milp(xeq, float(self.c), self.region,
                                   w == "h safe")[0]
        if lyap.solve(milp) is None:
            return None
        return milp.compute_objective_from_mip_data_and_solution(
            solution_number=0, penalty=1e-13)

    # ---- exact
    def pieces_of(self, lo, up, thin=False):
        """ [(cell, objective on the cell)] of the part of the box; with the
        cells without interior, if thin """
        S, C, w = self.S, self.C, self.what
        eps = self.eps
        box = lyap.start_cells(lo, up)
        if w in ("pos", "gap", "h safe", "h unsafe"):
            cs = C.add(box, "x")
            V = lambda c: c.m[("V", "x")][0]  # noqa: E731
            if w == "pos":
                return [(c, c.m[("l1", "x")][0] * eps - V(c)) for c in cs]
            if w == "gap":
                return [(c, V(c)) for c in self.surface(cs)]
            cs = self.in_region(cs)
            sg = F(-1 if w == "h safe" else 1)
            return [(c, (c.m[("phi", "x")][0] - C.phi_eq + self.c) * sg)
                    for c in cs]
        old = S.xlo, S.xup
        S.xlo, S.xup = lo, up
        cs = S.cells()
        S.xlo, S.xup = old
        cs = C.add(cs, "x")
        if w in CONTINUOUS:
            return [(c, c16.vdot(c, eps)) for c in cs
                    if thin or c16.full(c)]
        cs = lyap.keep_box(C.add(cs, "xn"), "xn", *old)
        if w == "h der":
            return [(c, c.m[("phi", "xn")][0] * F(-1) + c.m[("phi", "x")][0]
                     * (1 - eps) + eps * (C.phi_eq - self.c)) for c in cs]
        ret = []
        for c in cs:
            V0, V1 = c.m[("V", "x")][0], c.m[("V", "xn")][0]
            if w == "Asymp":
                t = V1 - V0 + c.m[("l1", "x")][0] * eps
            else:
                t = V1 - V0 * (1 - eps)
                t = t if w == "ExpLower" else t * F(-1)
            ret.append((c, t))
        return ret

    def surface(self, cs):
        S, out = self.S, []
        for i in range(self.d):
            e = [F(int(i == j)) for j in range(self.d)]
            for v in (S.xlo[i], S.xup[i]):
                cc = lyap.keep(cs, lambda c: cells.Aff(e, -v))
                out += lyap.keep(cc, lambda c: cells.Aff([-t for t in e], v))
        return out

    def in_region(self, cs):
        out = []
        for pc in self.pieces:
            cc = cs
            for a, b in pc:
                cc = lyap.keep(cc, lambda q: cells.Aff([-v for v in a], b))
            out += cc
        return out

    def best(self, lo, up, sign=1):
        """ [(value, state)], best first, over the vertices """
        vals = {}
        for c, f in self.pieces_of(lo, up):
            for v in c.verts:
                t = f(v) * sign
                if v not in vals or vals[v] < t:
                    vals[v] = t
        return sorted(((t, v) for v, t in vals.items()), reverse=True)

    def ends(self):
        """ the worst states, with the sign of their share; None if they are
        not unique """
        ret = []
        for sign in ((1, -1) if self.what == "gap" else (1, )):
            b = self.best(self.S.xlo, self.S.xup, sign)
            if not b:
                return None
            t, x = b[0]
            for u, y in b[1:]:
                if u > t - F(1, 2**10) and max(
                        abs(p - q) for p, q in zip(x, y)) > F(1, 2**12):
                    return None
            ret.append((sign, x, t))
        return ret

    def around(self, ends):
        """ the exact optimum, with the worst states near to what they were """
        tot = F(0)
        r = F(1, 2**6)
        for sign, x, _ in ends:
            lo = [max(a, t - r) for a, t in zip(self.S.xlo, x)]
            up = [min(a, t + r) for a, t in zip(self.S.xup, x)]
            b = self.best(lo, up, sign)
            if not b:
                return None
            tot += b[0][0]
        return tot

    def degenerate(self, x):
        """ more switching surfaces meet at the state than dimensions """
        S, C = self.S, self.C
        near = lambda t: abs(t) < NEAR  # noqa: E731
        zs = [x]
        n = 0
        if self.what in ("ExpLower", "ExpUpper", "Asymp", "h der"):
            ys = S.succ(x)
            if len(ys) != 1:
                return True
            zs.append(ys[0])
        if len(zs) == 2 or self.what in CONTINUOUS:
            n += S.kinks(x)
        for z in zs:
            n += sum(near(t) for q in cells.eval_layers(C.layers, z)[1]
                     for t in q)
            n += sum(near(a - b) for v in (S.xlo, S.xup)
                     for a, b in zip(v, z))
            e = [a - b for a, b in zip(z, self.star)]
            if self.R is not None:
                n += sum(near(lyap.dot(r, e)) for r in C.R)
        if self.what in ("h safe", "h unsafe"):
            rows = {(tuple(a), b) for pc in self.pieces for a, b in pc
                    if near(lyap.dot(a, x) - b)}
            box = {(tuple(F(s * int(i == j)) for j in range(self.d)), s * v)
                   for s, w in ((1, S.xup), (-1, S.xlo))
                   for i, v in enumerate(w)}
            neg = {(tuple(-t for t in a), -b) for a, b in rows}
            n += len(rows - box - neg) + len(rows & neg) // 2
        return n > self.d


def work(cx, task):
    tier, cfg = task
    P = Problem(cfg)
    kw = dict(config=[str(t) for t in cfg])
    cx.states()
    if any(t == 0 for q in cells.eval_layers(P.C.layers, P.star)[1]
           for t in q):
        # phi(x*) is not differentiable in the network
        return cx.count("x* on a kink (no gradient)")
    ends = P.ends()
    if ends is None:
        return cx.count("several worst states or none (no gradient)")
    top = sum(t for _, _, t in ends)
    if any(P.degenerate(x) for _, x, _ in ends) or (
            P.what in CONTINUOUS and max(
                f(v) for c, f in P.pieces_of(P.S.xlo, P.S.xup, thin=True)
                for v in c.verts) != top):
        return cx.count("degenerate worst state (no gradient)")
    loss = P.build()
    if loss is None or not (abs(float(loss) - float(top)) <= 1e-5):
        return cx.fail("objective from data is not the exact worst case",
                       got=None if loss is None else float(loss), want=top,
                       at=[x for _, x, _ in ends], **kw)
    if P.around(ends) != top:
        raise mc.EngineProblem("local and global optimum differ")
    for g in P.S.groups().values():
        for q in g:
            q.grad = None
    for q in P.C.net.parameters():
        q.grad = None
    loss.backward()
    n = 0
    for name, g in P.groups().items():
        for q in g:
            grad = np.zeros(q.numel()) if q.grad is None else \
                q.grad.detach().numpy().reshape(-1).copy()
            flat = q.data.view(-1)
            for e in range(q.numel()):
                if cx.out_of_time():
                    return
                old = float(flat[e])
                if old == 0:
                    # the interval bounds, which may be active, have a kink
                    cx.count("zero weights (no gradient)")
                    continue
                ds = []
                for sg in (1, -1):
                    flat[e] = old + sg * float(H)
                    P.reread()
                    t = P.around(ends)
                    ds.append(None if t is None else float((t - top) /
                                                           (sg * H)))
                flat[e] = old
                P.reread()
                cx.trans()
                if None in ds or abs(ds[0] - ds[1]) > 1e-3 * max(
                        1, abs(ds[0])):
                    cx.count("kinks of the optimum (no gradient)")
                    continue
                n += 1
                if not (abs(grad[e] - ds[0]) <= 2e-3 * max(1, abs(ds[0]))):
                    return cx.fail(
                        "gradient is not the derivative of the worst case: " +
                        name, entry=e, got=grad[e], want=ds,
                        at=[[float(t) for t in x] for _, x, _ in ends], **kw)
                cx.outcome(P.what, name, ds[0] != 0)
    cx.count("gradient entries compared", n)
    cx.traces()
    cx.sample(config=kw["config"], best=top, entries=n)


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C33", tasks, work, rule="every configuration (program, system, "
            "network, R) x every trainable parameter: gradient against the "
            "one-sided derivatives of the exact optimum over all cells",
            assumptions=["the MIP stand-in finds the optimum",
                         "only unique, non-degenerate worst states",
                         "interval-arithmetic bounds", "tolerance 2e-3"])
