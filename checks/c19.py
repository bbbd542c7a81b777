"""
C19: the losses on samples.  For every short list of samples (with repeats),
convergence type, margin, weighting and reduction, the losses of the Lyapunov
conditions are the stated hinge losses of the exact V, of its exact derivative
and of the true transitions; their gradients with respect to the network, to R
and to a controller are the derivatives of the exact loss.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import nets  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T  # noqa: E402

from neural_network_lyapunov import lyapunov  # noqa: E402
import neural_network_lyapunov.continuous_time_lyapunov as ctl  # noqa: E402

E = lyapunov.ConvergenceEps
TYPES = ["ExpLower", "ExpUpper", "Asymp"]
MARGINS = [F(0), F(1, 4), F(-1, 8)]


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, {}), ("autoeq", 1, 32, {}),
          ("autores", 1, 33, dict(slope=.125)), ("hyb", 1, 1, {}),
          ("hyb", 1, 5, dict(xeq=(F(1, 4), ))), ("fb", 1, 34, {}),
          ("fb", 1, 35, dict(limits="tight")),
          ("fb", 1, 36, dict(limits="wide"))]
    S2 = [("auto", 2, 41, {}), ("autoeq", 2, 42, {}),
          ("autores", 2, 43, {}), ("hyb", 2, 2, {}),
          ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2)))), ("fb", 2, 44, {}),
          ("fb", 2, 45, dict(limits="wide"))]
    V = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
         (.5, (2, 2), (False, True, True))]
    if not quick:
        V += [("relu", (3, 2), True), (.25, (3, ), True)]
        S1 += [(t[0], 1, t[2] + 20, t[3]) for t in S1 if t[0] != "hyb"]
        S2 += [(t[0], 2, t[2] + 20, t[3]) for t in S2 if t[0] != "hyb"]
    out = []
    k = 0
    for sys_ in S1 + S2:
        for disc in (True, False):
            for v, R in itertools.product(V, lyap.RS[sys_[1]]):
                if not disc and (sys_[0] == "hyb" and R not in (
                        "none", "one", "eye") or sys_[0] == "fb"):
                    continue
                k += 1
                if (k * 3 + k // 4) % 4 if quick else (k + k // 4) % 4:
                    continue
                lam, eps = [(F(1, 2), F(1, 4)), (F(2), F(1, 8)),
                            (F(1, 4), F(1, 2))][k % 3]
                out.append((sys_, disc, v, R, lam, eps, k % 11))
    return out


def reduce_(vals, how, w=None):
    if how == "mean":
        return float(sum(a * b for a, b in zip(vals, w or [1] * len(vals)))
                     ) / len(vals)
    if how == "max":
        return float(max(vals))
    return float(sum(float(v)**4 for v in vals))**.25


def work(cx, task):
    tier, cfg = task
    (kind, d, k0, skw), disc, (slope, hid, bias), R, lam, eps, k = cfg
    S = lyap.System(kind, d, k0, disc=disc, **skw)
    C = lyap.Candidate(d, S.xeq, 130 + k, lam, R, slope, hid, bias)
    kw = dict(config=[str(t) for t in cfg])
    cls = lyapunov.LyapunovDiscreteTimeHybridSystem if disc else (
        ctl.LyapunovContinuousTimeHybridSystem if kind == "hyb" else
        ctl.LyapunovContinuousTimeSystem)
    L = nets.Aged(cls(S.obj, C.net), C.net, *S.params())
    xeq, lf, ef = T(S.xeq), float(lam), float(eps)

    def grad_V(x):
        """ exact gradient, None on a kink """
        out, pre = cells.eval_layers(C.layers, x)
        if any(t == 0 for q in pre for t in q):
            return None
        e = [a - b for a, b in zip(x, C.xeq)]
        g = [F(0)] * d
        for r in C.R:
            t = lyap.dot(r, e)
            if t == 0:
                return None
            for i in range(d):
                g[i] += lam * r[i] * (1 if t > 0 else -1)
        # the network is affine near x
        h = F(1, 2**30)
        for i in range(d):
            y = list(x)
            y[i] += h
            o2, p2 = cells.eval_layers(C.layers, y)
            if any((a > 0) != (b > 0) for q, q2 in zip(pre, p2)
                   for a, b in zip(q, q2)):
                return None
            g[i] += (o2[0] - out[0]) / h
        return g

    def pos(x):
        return -C.V(x) + eps * C.l1(x)

    def der(x, y, ty):
        V = C.V(x)
        if disc:
            dV = C.V(y) - V
        else:
            g = grad_V(x)
            if g is None:
                raise LookupError
            dV = lyap.dot(g, y)
        if ty == "Asymp":
            return dV + eps * C.l1(x)
        return dV + eps * V if ty == "ExpLower" else -(dV + eps * V)

    grid = [tuple(p) for p in cells.grid(S.xlo, S.xup, 9 if d == 1 else 5)]
    # points inside of exactly one mode / off the kinks where needed
    pool = []
    for p in grid[k % 3::2] + grid:
        p = tuple(F(t) + F(s, 64) for t, s in zip(p, (1, -1))) if \
            not disc else p
        if not S.inside(p) or p in pool:
            continue
        if len(S.succ(p)) != 1 or (not disc and grad_V(p) is None):
            continue
        pool.append(p)
        if len(pool) == (4 if tier == "quick" else 6):
            break
    if disc and len(S.succ(S.xeq)) == 1:
        pool.append(tuple(S.xeq))  # a kink of V
    lists = [q for n in (1, 2, 3) for q in itertools.product(pool, repeat=n)]
    if tier == "quick":
        lists = lists[k % 3::3]
    cx.states(len(lists))
    types = TYPES if disc or kind == "hyb" else ["ExpLower"]
    reds = ["mean", "max", "4norm"]
    ws = [None, [F(1, 2), F(2), F(3, 4)]]

    def torch_losses(samples, how, m, w, ty):
        X = torch.stack([T(p) for p in samples])
        wt = None if w is None else T(w[:len(samples)])
        yield "positivity", L.lyapunov_positivity_loss_at_samples(
            xeq, X, lf, ef, R=Rt, margin=float(m), reduction=how, weight=wt)
        if not disc and kind == "hyb" and how != "mean":
            return
        yield "derivative", L.lyapunov_derivative_loss_at_samples(
            lf, ef, X, xeq, getattr(E, ty), R=Rt, margin=float(m),
            reduction=how, weight=wt) if disc or kind == "hyb" else \
            L.lyapunov_derivative_loss_at_samples_and_next_states(
                lf, ef, X, torch.stack([T(S.succ(p)[0]) for p in samples]),
                xeq, getattr(E, ty), R=Rt, margin=float(m), reduction=how,
                weight=wt)
        # pairs which need not be transitions
        Y = torch.stack([T(samples[(i + 1) % len(samples)])
                         for i in range(len(samples))])
        yield "pairs", L.lyapunov_derivative_loss_at_samples_and_next_states(
            lf, ef, X, Y, xeq, getattr(E, ty),
            R=Rt, margin=float(m), reduction=how, weight=wt)
        # the caller's samples are left alone
        for t, p in ((X, samples), (xeq, [S.xeq]), (
                Y, [samples[(i + 1) % len(samples)]
                    for i in range(len(samples))])):
            if t.requires_grad or t.grad is not None or not torch.equal(
                    t, torch.stack([T(v) for v in p]).reshape(t.shape)):
                yield "samples left alone", torch.full((2, ), float("nan"))

    def want_of(name, samples, how, m, w, ty):
        if name == "positivity":
            v = [pos(x) for x in samples]
        elif name == "derivative":
            v = [der(x, S.succ(x)[0], ty) for x in samples]
        else:
            v = [der(x, samples[(i + 1) % len(samples)], ty)
                 for i, x in enumerate(samples)]
        return reduce_([max(t + m, F(0)) for t in v], how, w)

    Rt = C.Rt
    n = 0
    for samples in lists:
        if cx.out_of_time():
            return
        for how, m, w, ty in itertools.product(reds, MARGINS, ws, types):
            if w is not None and how != "mean":
                continue
            n += 1
            if tier == "quick" and (n * 5 + n // 7) % 4:
                continue
            for name, got in torch_losses(samples, how, m, w, ty):
                cx.trans()
                if name == "samples left alone":
                    return cx.fail("a loss changes the samples it is given",
                                   samples=samples, type=ty, **kw)
                want = want_of(name, samples, how, m, w, ty)
                if got.shape != () or not (abs(float(got) - want) <= 1e-9):
                    return cx.fail("loss on samples: " + name, samples=samples,
                                   reduction=how, margin=m, weight=w, type=ty,
                                   got=got, want=want, **kw)
                cx.outcome(name, how, round(want, 2))
    # ---- gradients
    params = list(C.net.parameters())
    if Rt is not None and (disc or kind != "hyb"):
        Rt = Rt.clone().requires_grad_(True)
        params.append(Rt)
    if kind == "fb":
        params += list(S.cnet.parameters())

    def reread():
        C.reread()
        if C.Rm is not None:
            C.R = [[F(v) for v in r] for r in Rt.tolist()]
        if kind == "fb":
            S.clayers = cells.layers_of(S.cnet)
    h = 2.**-18

    def kinky(x):
        z = [(C.layers, x), (C.layers, C.xeq)]
        z += [(C.layers, y) for y in S.succ(x)] if disc else []
        if kind == "fb":
            u = S.u(x)
            z += [(S.clayers, x), (S.clayers, S.xeq),
                  (S.layers, list(x) + u), (S.layers, S.xeq + S.ueq)]
        return any(t == 0 for n_, q in z
                   for r in cells.eval_layers(n_, q)[1] for t in r)
    samples = [p for p in grid + pool if len(S.succ(p)) == 1 and
               (disc or grad_V(p) is not None) and not kinky(p)][k % 3:][:3]
    if len(samples) < 3:
        cx.count("all samples on kinks (no gradient)")
        return cx.traces()

    def next_gradient(samples, how, m, w, ty):
        Y = [samples[(i + 1) % len(samples)] for i in range(len(samples))]
        Yt = torch.stack([T(p) for p in Y]).requires_grad_(True)
        got = L.lyapunov_derivative_loss_at_samples_and_next_states(
            lf, ef, torch.stack([T(p) for p in samples]), Yt, xeq,
            getattr(E, ty), R=Rt, margin=float(m), reduction=how,
            weight=None if w is None else T(w))
        gy = torch.autograd.grad(got, Yt, allow_unused=True)[0] \
            if got.requires_grad else None
        gy = torch.zeros_like(Yt) if gy is None else gy
        for i, j in itertools.product(range(len(Y)), range(d)):
            ds, vs = [], []
            for s in (0, 1, -1):
                Z = [list(y) for y in Y]
                Z[i][j] += s * F(h)
                vs.append(der(samples[i], Z[i], ty))
                ds.append(reduce_([max(der(x, z, ty) + m, F(0))
                                   for x, z in zip(samples, Z)], how, w))
            ds = [(ds[1] - ds[0]) / h, (ds[0] - ds[2]) / h]
            if abs(ds[0] - ds[1]) > 1e-3 * max(1, abs(ds[0])) or \
                    vs[1] + vs[2] != 2 * vs[0]:
                cx.count("kinks (no gradient)")
                continue
            cx.trans()
            cx.count("gradient entries compared")
            if abs(float(gy[i, j]) - sum(ds) / 2) > 1e-3 * max(
                    1, abs(ds[0])):
                return float(gy[i, j]), ds

    for how, ty, (w, m) in itertools.product(
            reds, types, [(None, F(1, 4)), (ws[1], F(0))]):
        if w is not None and how != "mean":
            continue
        if disc or kind != "hyb" or how == "mean":
            why = next_gradient(samples, how, m, w, ty)
            if why is not None:
                return cx.fail("gradient with respect to the next states",
                               reduction=how, type=ty, margin=m, weight=w,
                               got=why[0], want=why[1], **kw)
        for name, got in torch_losses(samples, how, m, w, ty):
            if not got.requires_grad:
                g = [None] * len(params)
            else:
                g = torch.autograd.grad(got, params, allow_unused=True)
            base = want_of(name, samples, how, m, w, ty)
            for q, gq in zip(params, g):
                for e in range(q.numel()):
                    if cx.out_of_time():
                        return
                    old = float(q.data.view(-1)[e])
                    ds = []
                    try:
                        for s in (1, -1):
                            q.data.view(-1)[e] = old + s * h
                            reread()
                            ds.append((want_of(name, samples, how, m, w, ty)
                                       - base) / (s * h))
                    except LookupError:
                        cx.count("kinks (no gradient)")
                        continue
                    finally:
                        q.data.view(-1)[e] = old
                        reread()
                    if abs(ds[0] - ds[1]) > 1e-3 * max(1, abs(ds[0])):
                        cx.count("kinks (no gradient)")
                        continue
                    a = 0. if gq is None else float(gq.reshape(-1)[e])
                    cx.trans()
                    cx.count("gradient entries compared")
                    if not (abs(a - (ds[0] + ds[1]) / 2) <= 1e-3 * max(
                            1, abs(ds[0]))):
                        return cx.fail("gradient of the loss: " + name,
                                       reduction=how, type=ty, margin=m,
                                       weight=w, got=a, want=ds, shape=list(
                                           q.shape), entry=e, **kw)
    cx.traces()
    cx.sample(config=kw["config"], pool=pool, lists=len(lists))


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C19", tasks, work, rule="every configuration (system, network, R,"
            " lambda, eps) x every list of up to three samples from a pool x "
            "every type, margin, weight and reduction; gradients against "
            "one-sided derivatives of the exact loss",
            assumptions=["values to 1e-9; gradients to 1e-3, away from kinks "
                         "of the loss"])
