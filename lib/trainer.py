"""
A declared family of trainers (system, Lyapunov network, R, controller), with
the exact value of everything their losses are made of.
"""
from fractions import Fraction as F

import torch

import cells
import lyap
import nets
from lyap import T

from neural_network_lyapunov import lyapunov, r_options
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.train_lyapunov_barrier as tlb

E = lyapunov.ConvergenceEps


def r_option(name, d, k):
    """ fixed / spd / svd / free, with variables from the table """
    if name.startswith("fixed"):
        return r_options.FixedROptions(nets.tensor(lyap.RS[d][name[6:]]))
    s = nets.stream(900 + k)
    val = lambda n: torch.tensor([float(next(s)) / 2 + .125  # noqa: E731
                                  for _ in range(n)]).double().numpy()
    m = d + (1 if name.endswith("tall") else 0)
    if name.startswith("spd"):
        o = r_options.SearchRwithSPDOptions((m, d), .125)
    elif name.startswith("svd"):
        o = r_options.SearchRwithSVDOptions((m, d), torch.full(
            (d, ), .25).double().numpy())
    else:
        o = r_options.SearchRfreeOptions((m, d))
    n = o._variables.numel()
    o.set_variable_value_directly(val(n).reshape(tuple(o._variables.shape)))
    return o


class Setup:
    """
    cfg = (kind, d, k, system kwargs), discrete, (slope, hidden, bias), R,
          lambda, eps of positivity, eps of the derivative, type, k
    """
    def __init__(self, cfg, **trainer):
        (kind, d, k0, skw), disc, (slope, hid, bias), R, lam, ep, ed, ty, k = \
            cfg
        self.cfg, self.disc, self.d, self.kind = cfg, disc, d, kind
        self.S = S = lyap.System(kind, d, k0, disc=disc, **skw)
        self.ropt = r_option(R, d, k)
        self.C = lyap.Candidate(d, S.xeq, 130 + k, lam,
                                [[F(v) for v in r] for r in
                                 self.ropt.R().tolist()], slope, hid, bias)
        cls = lyapunov.LyapunovDiscreteTimeHybridSystem if disc else (
            ctl.LyapunovContinuousTimeHybridSystem if kind == "hyb" else
            ctl.LyapunovContinuousTimeSystem)
        self.L = cls(S.obj, self.C.net)
        self.lam, self.ep, self.ed, self.ty = F(lam), F(ep), F(ed), ty
        self.tr = t = tlb.Trainer()
        t.add_lyapunov(self.L, float(lam), T(S.xeq), self.ropt)
        t.lyapunov_positivity_epsilon = float(ep)
        t.lyapunov_derivative_epsilon = float(ed)
        t.lyapunov_derivative_eps_type = getattr(E, ty)
        for a, b in trainer.items():
            assert hasattr(t, a), a
            setattr(t, a, b)

    # ---- parameters
    def groups(self):
        g = {"V": list(self.C.net.parameters()),
             "R": list(self.ropt.variables())}
        if self.kind == "fb":
            g["u"] = list(self.S.cnet.parameters())
        return g

    def params(self):
        return [p for g in self.groups().values() for p in g]

    def snapshot(self):
        return [p.detach().clone() for p in self.params()]

    def restore(self, snap):
        with torch.no_grad():
            for p, q in zip(self.params(), snap):
                p.copy_(q)
        self.reread()

    def reread(self):
        self.C.reread()
        self.C.R = [[F(v) for v in r] for r in self.ropt.R().tolist()]
        if self.kind == "fb":
            self.S.clayers = cells.layers_of(self.S.cnet)

    # ---- exact values
    def pos(self, x):
        return self.ep * self.C.l1(x) - self.C.V(x)

    def der(self, x, y):
        V = self.C.V(x)
        dV = self.C.V(y) - V
        if self.ty == "Asymp":
            return dV + self.ed * self.C.l1(x)
        t = dV + self.ed * V
        return t if self.ty == "ExpLower" else -t

    def succ(self, x, tol=F(1, 10**6)):
        """ successors; for hybrid systems of every mode within tol """
        x = [F(v) for v in x]
        S = self.S
        if self.kind != "hyb":
            return S.succ(x)
        return [[lyap.dot(r, x) + t for r, t in zip(A, c)]
                for A, c, P, q in S.modes
                if all(lyap.dot(r, x) <= t + tol for r, t in zip(P, q))]

    def pos_max(self):
        cs = self.C.add(lyap.start_cells(self.S.xlo, self.S.xup), "x")
        return cells.vmax(cs, lambda c: c.m[("l1", "x")][0] * self.ep -
                          c.m[("V", "x")][0])[0]

    def boundary(self):
        """ exact (min, max) of V over the boundary of the box """
        S = self.S
        cs = self.C.add(lyap.start_cells(S.xlo, S.xup), "x")
        vals = []
        for i in range(self.d):
            for v in (S.xlo[i], S.xup[i]):
                e = [F(int(i == j)) for j in range(self.d)]
                cc = lyap.keep(cs, lambda c: cells.Aff(e, -v))
                cc = lyap.keep(cc, lambda c: cells.Aff([-t for t in e], v))
                for sg in (1, -1):
                    vals.append(sg * cells.vmax(
                        cc, lambda c: c.m[("V", "x")][0] * F(sg))[0])
        return min(vals), max(vals)

    def der_max(self):
        """ exact maximum of the (discrete) derivative condition over the
        transitions inside of the box; None without one """
        S, C = self.S, self.C
        cs = C.add(C.add(S.cells(), "x"), "xn")
        cs = lyap.keep_box(cs, "xn", S.xlo, S.xup)

        def fn(c):
            V0, V1 = c.m[("V", "x")][0], c.m[("V", "xn")][0]
            if self.ty == "Asymp":
                return V1 - V0 + c.m[("l1", "x")][0] * self.ed
            t = V1 - V0 * (1 - self.ed)
            return t if self.ty == "ExpLower" else t * F(-1)
        return cells.vmax(cs, fn)[0] if cs else None


def reduce_(vals, how):
    if not vals:
        return 0.
    if how == "mean":
        return float(sum(vals)) / len(vals)
    if how == "max":
        return float(max(vals))
    return float(sum(float(v)**4 for v in vals))**.25
