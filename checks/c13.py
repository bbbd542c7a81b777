"""
C13: continuous-time control-affine systems  x' = f(x) + G(x) u.  For every
declared system: the encodings of f and G allow, at every state and for every
assignment of the binaries, exactly f(x) and G(x); the bounds enclose them;
dynamics() clamps the input; and the fitting helper takes, for every split and
order it may have chosen, the optimiser steps of the documented loss.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import mip  # noqa: E402
import nets  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.control_affine_system as ca  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov import mip_utils  # noqa: E402
from neural_network_lyapunov import relu_to_optimization  # noqa: E402

DT = torch.float64
PM = mip_utils.PropagateBoundsMethod
METHODS = {"IA": PM.IA, "LP": PM.LP, "MIP": PM.MIP, "IA_MIP": PM.IA_MIP}
TOL = 1e-6


def T(v):
    return nets.tensor(v)


class User(ca.SecondOrderControlAffineSystem):
    """ a user's second order system: a and b each constant, linear in the
    state, or a network """
    def __init__(self, xlo, xup, ulo, uup, ka, kb, k):
        super().__init__(xlo, xup, ulo, uup)
        self.ka, self.kb = ka, kb
        n, m = self.nq, self.u_dim
        self.Wa, self.ca = T(nets.table_mat(n, 2 * n, k)), T(nets.table_mat(
            1, n, k + 1))[0]
        self.Wb, self.cb = T(nets.table_mat(n * m, 2 * n, k + 2)), T(
            nets.table_mat(1, n * m, k + 3))[0]
        self.na = nets.table_net((2 * n, 2, n), "relu", k + 4, True)
        self.nb = nets.table_net((2 * n, 2, n * m), .25, k + 5, True)

    def a(self, x):
        return {"const": lambda: self.ca, "lin": lambda: self.Wa @ x,
                "aff": lambda: self.Wa @ x + self.ca,
                "net": lambda: self.na(x), "bin": lambda: self.na(x)}[
                    self.ka]()

    def b(self, x):
        return {"const": lambda: self.cb, "lin": lambda: self.Wb @ x,
                "aff": lambda: self.Wb @ x + self.cb,
                "net": lambda: self.nb(x), "bin": lambda: self.nb(x)}[
                    self.kb]().reshape(
                    (self.nq, self.u_dim))

    @staticmethod
    def _binary_output(r):
        """ the same encoding with slack = new slack + D binary """
        n = r.Ain_slack.shape[1]
        D = torch.diag(torch.tensor([.5, -1.25, 2., -.75][:n], dtype=DT))
        if r.Aout_slack.ndim == 1:
            r.Aout_slack = r.Aout_slack.reshape((1, -1))
            r.Cout = r.Cout.reshape(-1)
        for k in ("Ain", "Aeq", "Aout"):
            a, b = getattr(r, k + "_slack"), getattr(r, k + "_binary")
            if a is not None:
                setattr(r, k + "_binary", a @ D + (0 if b is None else b))
        r.slack_lo = r.slack_up = None

    def _mixed_integer_constraints_v(self):
        ret, bnd = [], []
        for kind, W, c, net in ((self.ka, self.Wa, self.ca, self.na),
                                (self.kb, self.Wb, self.cb, self.nb)):
            if kind in ("net", "bin"):
                r = relu_to_optimization.ReLUFreePattern(
                    net, DT).output_constraint(self.x_lo, self.x_up, PM.IA)
                if kind == "bin":
                    self._binary_output(r)
                bnd += [r.nn_output_lo, r.nn_output_up]
            else:
                r = gtm.MixedIntegerConstraintsReturn()
                z = torch.zeros_like(c)
                if kind != "const":
                    r.Aout_input = W.clone()
                if kind != "lin":
                    r.Cout = c.clone()
                lo, up = mip_utils.compute_range_by_IA(
                    W if kind != "const" else torch.zeros_like(W),
                    c if kind != "lin" else z, self.x_lo, self.x_up)
                bnd += [lo, up]
            ret.append(r)
        return ret[0], ret[1], bnd[0], bnd[1], bnd[2], bnd[3]


def make(cfg):
    """ -> (object, f(x), G_flat(x)) as exact functions """
    kind, nx, nu, k, a, b, meth, box = cfg
    xlo, xup = [list(map(F, v))[:nx] for v in box]
    ulo, uup = [F(-1), F(1, 4)][:nu], [F(1, 2), F(2)][:nu]
    args = (T(xlo), T(xup), T(ulo), T(uup))

    def lin(W, c):
        def fn(x):
            return [sum(w * t for w, t in zip(r, x)) + d
                    for r, d in zip(W, c)]
        return fn
    n = nx // 2
    if kind == "linear":
        A, B = nets.table_mat(nx, nx, k), nets.table_mat(nx, nu, k + 1)
        obj = ca.LinearSystem(T(A), T(B), *args)
        flat = [v for r in B for v in r]
        return obj, lin(A, [F(0)] * nx), lambda x: flat, (xlo, xup, ulo, uup)
    if kind == "relu":
        pa = nets.table_net((nx, ) + a[0] + (n, ), a[1], k, a[2])
        pb = nets.table_net((nx, ) + b[0] + (n * nu, ), b[1], k + 1, b[2])
        obj = ca.ReluSecondOrderControlAffineSystem(*args, pa, pb,
                                                    METHODS[meth])
        obj = nets.Aged(obj, pa, pb)
        la, lb = cells.layers_of(pa), cells.layers_of(pb)

        def fa(x):
            return cells.eval_layers(la, x)[0]

        def fbb(x):
            return cells.eval_layers(lb, x)[0]
    else:
        obj = User(*args, a, b, k)
        fr = cells.fr

        def which(kind, W, c, net):
            W, c = fr(W), fr(c)
            if kind in ("net", "bin"):
                la = cells.layers_of(net)
                return lambda x: cells.eval_layers(la, x)[0]
            z = [F(0)] * len(c)
            if kind == "const":
                return lambda x: c
            return lin(W, c if kind == "aff" else z)
        fa = which(a, obj.Wa, obj.ca, obj.na)
        fbb = which(b, obj.Wb, obj.cb, obj.nb)
    return (obj, lambda x: list(x[n:]) + list(fa(x)),
            lambda x: [F(0)] * (n * nu) + list(fbb(x)), (xlo, xup, ulo, uup))


def system(cx, task):
    _, cfg, tier = task
    obj, f, G, (xlo, xup, ulo, uup) = make(cfg)
    nx, nu = len(xlo), len(ulo)
    kw = dict(config=[str(c) for c in cfg])
    for name, want in (("x_lo_all", xlo), ("x_up_all", xup)):
        if not np.allclose(getattr(obj, name), [float(t) for t in want],
                           atol=0):
            return cx.fail("declared box of the states: " + name,
                           got=getattr(obj, name), want=want, **kw)
    num = {1: 9, 2: 5, 4: 2}[nx] if tier == "quick" else {1: 17, 2: 9,
                                                          4: 3}[nx]
    pts = [list(p) for p in cells.grid(xlo, xup, num)]
    rets = [obj.mixed_integer_constraints() for _ in range(2)]
    ret = rets[1]
    encs = [mip.Encoding(ret.mip_cnstr_f, nx), mip.Encoding(ret.mip_cnstr_G,
                                                            nx)]
    v = {k: getattr(ret, k).detach().numpy() for k in (
        "f_lo", "f_up", "G_flat_lo", "G_flat_up")}
    if v["f_lo"].shape != (nx, ) or v["G_flat_lo"].shape != (nx * nu, ):
        return cx.fail("bounds of wrong size", **kw)
    us = list(itertools.product(*[(lo - 1, lo, (lo + up) / 2, up, up + 2)
                                  for lo, up in zip(ulo, uup)]))
    for p in pts:
        cx.states()
        x = T(p)
        fx, gx = (np.array([float(t) for t in q(p)]) for q in (f, G))
        got_f, got_g = obj.f(x).detach().numpy(), obj.G(x).detach().numpy()
        if got_f.shape != (nx, ) or not (np.abs(got_f - fx).max() <= 1e-10) or \
                got_g.shape != (nx, nu) or not (np.abs(
                    got_g.reshape(-1) - gx).max() <= 1e-10):
            return cx.fail("f or G is not the stated one", x=p,
                           got=[got_f, got_g], want=[fx, gx], **kw)
        for u in us:
            cl = [max(a, min(b, t)) for t, a, b in zip(u, ulo, uup)]
            want = fx + gx.reshape(nx, nu) @ np.array([float(t) for t in cl])
            got = obj.dynamics(x, T(u)).detach().numpy()
            cx.trans()
            if got.shape != (nx, ) or not (np.abs(got - want).max() <= 1e-10):
                return cx.fail("dynamics is not f + G clamp(u)", x=p, u=u,
                               got=got, want=want, **kw)
        for name, enc, want in (("f", encs[0], fx), ("G", encs[1], gx)):
            lo, up = (v["f_lo"], v["f_up"]) if name == "f" else (
                v["G_flat_lo"], v["G_flat_up"])
            if np.any(want < lo - TOL) or np.any(want > up + TOL):
                return cx.fail(f"bounds of {name} do not enclose it", x=p,
                               want=want, lo=lo, up=up, **kw)
            n = 0
            for z in enc.binaries():
                r = enc.at(np.array([float(t) for t in p]), z)
                cx.trans()
                if r is None:
                    continue
                n += 1
                if len(r[0]) != len(want) or not (np.abs(
                        r[0] - want).max() <= TOL) or not (np.abs(
                            r[1] - want).max() <= TOL):
                    return cx.fail(f"encoding of {name} allows other values",
                                   x=p, binaries=z, allowed=r[:2], want=want,
                                   **kw)
            if not n:
                return cx.fail(f"encoding of {name} excludes a state", x=p,
                               **kw)
            cx.outcome(name, n)
    # ---- derivatives, away from kinks
    real = getattr(obj, "_obj", obj)
    if not isinstance(real, User):
        own = [q for m in (getattr(real, "phi_a", None), getattr(
            real, "phi_b", None)) if m is not None for q in m.parameters()]
        for i, p in enumerate(pts[::5]):
            x = T(p) + .0123456789 * torch.sin(torch.arange(
                1. + i, nx + 1 + i, dtype=torch.float64))
            u = T([(a + 3 * b) / 4 for a, b in zip(ulo, uup)]) + .001
            x.requires_grad_(True)
            u.requires_grad_(True)
            mul = torch.cos(torch.arange(1., nx * nu + 1,
                                         dtype=torch.float64))
            for what, fn in (
                    ("dynamics", lambda: (real.dynamics(x, u) *
                                          mul[:nx]).sum()),
                    ("f", lambda: (real.f(x) * mul[:nx]).sum()),
                    ("G", lambda: (real.G(x).reshape(-1) * mul).sum())):
                if nets.slopes(cx, fn, [x, u] + own, what, kw, [
                        m for m in vars(real).values()]) is not True:
                    return
    cx.traces()
    cx.sample(**kw)


# ---------------------------------------------------------------- the fitting
def fit(cx, task):
    _, (nx, nu, n, batch, epochs), tier = task
    kw = dict(nx=nx, nu=nu, n=n, batch=batch, epochs=epochs)
    t = nets.stream(7 + nx + nu)
    data = torch.tensor([[float(next(t)) for _ in range(nx + nu)]
                         for _ in range(n)], dtype=DT)
    lab = torch.tensor([[float(next(t)) for _ in range(nx)]
                        for _ in range(n)], dtype=DT)
    xe = torch.tensor([.25, -.5][:nx], dtype=DT)
    ue = torch.tensor([.75, .5][:nu], dtype=DT)

    def models():
        return (nets.table_net((nx, 2, nx), .25, 11, True),
                nets.table_net((nx, 2, nx * nu), .25, 12, True))
    f, g = models()
    ca.train_control_affine_forward_model(
        f, g, xe, ue, torch.utils.data.TensorDataset(data, lab), epochs, .05,
        batch_size=batch, verbose=False)
    got = torch.cat([p.detach().reshape(-1) for p in list(f.parameters()) +
                     list(g.parameters())])
    ntrain = int(n * .8)
    best = None
    for held in itertools.combinations(range(n), n - ntrain):
        tr = [i for i in range(n) if i not in held]
        orders = [tr] if batch >= ntrain else itertools.permutations(tr)
        for order in orders:
            f, g = models()
            ps = list(f.parameters()) + list(g.parameters())
            opt = torch.optim.Adam(ps, lr=.05)
            for _ in range(epochs):
                for s in range(0, ntrain, batch):
                    idx = list(order[s:s + batch])
                    loss = 0.
                    for i in idx:
                        x, u = data[i, :nx], data[i, nx:]
                        d = f(x) - f(xe) + g(x).reshape(
                            nx, nu) @ u - g(xe).reshape(nx, nu) @ ue
                        loss = loss + ((d - lab[i])**2).sum()
                    opt.zero_grad()
                    (loss / (len(idx) * nx)).backward()
                    opt.step()
            cx.trans()
            ref = torch.cat([p.detach().reshape(-1) for p in ps])
            d = (ref - got).abs().max().item()
            best = d if best is None else min(best, d)
    cx.states()
    cx.traces()
    cx.outcome("fit", nx, nu, batch)
    if best > 1e-8:
        return cx.fail("no split and order explains the fitted networks",
                       distance=best, **kw)


def work(cx, task):
    {"system": system, "fit": fit}[task[0]](cx, task)


def tasks(tier):
    out = []
    ks = range(2) if tier == "quick" else range(10)
    B = {1: [((-1, ), (2, ))],
         2: [((-1, F(-1, 2)), (1, 2)), ((0, -1), (F(1, 2), F(-1, 4)))],
         4: [((-1, 0, F(-1, 2), -1), (1, 1, F(1, 2), 2))]}
    for k, nu in itertools.product(ks, (1, 2)):
        for nx in (1, 2):
            for box in B[nx]:
                out.append(("linear", nx, nu, 200 + 10 * k, 0, 0, "IA", box))
        for nx in (2, 4):
            for box in B[nx]:
                for a, b in itertools.product(
                        (((2, ), "relu", True), ((2, 2), .125, False)),
                        (((2, ), .25, True), ((1, ), "relu", (False, True)))):
                    for m in METHODS if nx == 2 else ("IA", "MIP"):
                        out.append(("relu", nx, nu, 200 + 10 * k, a, b, m,
                                    box))
                for a, b in itertools.product(("const", "lin", "aff", "net",
                                               "bin"), repeat=2):
                    out.append(("user", nx, nu, 200 + 10 * k, a, b, "IA",
                                box))
    out = [("system", c, tier) for c in out]
    for nx, nu in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out.append(("fit", (nx, nu, 5, 10, 3), tier))
        out.append(("fit", (nx, nu, 5, 1, 1), tier))
        out.append(("fit", (nx, nu, 4, 2, 1), tier))
        if tier != "quick":
            out.append(("fit", (nx, nu, 10, 20, 5), tier))
            out.append(("fit", (nx, nu, 5, 3, 1), tier))
    return out


if __name__ == "__main__":
    mc.main("C13", tasks, work, rule="every system x every grid point x every "
            "binary assignment; every split and order of a data set",
            assumptions=["tolerance 1e-6 on encodings"])
