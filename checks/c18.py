"""
C18: barrier certificates.  h(x) = phi(x) - phi(x*) + c for one state or a
batch; the value program admits exactly the states of region and box, with
objective h or -h, and the derivative program exactly the transitions inside
the box, with objective -h(x+) + (1 - eps) h(x), for every assignment of the
binaries; both optima are the exact maxima, and the sampled losses are the
stated ones.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import nets  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T, Program  # noqa: E402

from neural_network_lyapunov import barrier  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov import utils  # noqa: E402

TOL = 1e-6
REGIONS = ["all", "half", "two boxes", "slice", "beyond", "surface", "apart"]


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, {}), ("autoeq", 1, 32, {}),
          ("autores", 1, 33, dict(slope=.125)), ("hyb", 1, 1, {}),
          ("hyb", 1, 5, dict(xeq=(F(1, 4), ), scale=F(1, 2))),
          ("fb", 1, 34, {}), ("fb", 1, 35, dict(limits="tight", scale=.5))]
    S2 = [("auto", 2, 41, dict(scale=.5)), ("autoeq", 2, 42, dict(scale=.5)),
          ("autores", 2, 43, dict(scale=.25)), ("hyb", 2, 2, {}),
          ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2)), scale=F(1, 2))),
          ("fb", 2, 44, dict(scale=.5))]
    if not quick:
        S1 += [("auto", 1, k, dict(slope=s, hidden=(2, 2))) for k in (51, 54)
               for s in ("relu", .25)]
        S1 += [("hyb", 1, k, {}) for k in range(6, 10)]
        S1 += [("fb", 1, k, dict(limits=m)) for k in (55, 56)
               for m in ("wide", "mid", "tight")]
        S2 += [("auto", 2, k, dict(scale=.5)) for k in (61, 62)]
        S2 += [("autoeq", 2, k, dict(hidden=3, scale=.5)) for k in (63, 64)]
        S2 += [("hyb", 2, k, dict(scale=F(1, 2))) for k in (6, 7, 8)]
    V1 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
          (.5, (2, 2), (False, True, True)), ("relu", (2, 2), True)]
    V2 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
          ("relu", (2, 2), (True, False, True))]
    out = []
    k = 0
    for sys_ in S1 + S2:
        d = sys_[1]
        for v in (V1 if d == 1 else V2):
            for xs, (c, eps) in itertools.product(
                    range(3), [(F(1, 2), F(1, 4)), (F(2), F(0)),
                               (F(1, 8), F(1))]):
                k += 1
                if quick and (k * 5 + k // 9) % (6 if d == 1 else 8):
                    continue
                for meth in (list(lyap.METHODS) if not quick else
                             [list(lyap.METHODS)[k // 3 % 4]]):
                    out.append((sys_, v, xs, c, eps, meth, k % 11))
    return out


def region(kind, d, lo, up):
    """ (object, list of convex pieces; a piece is a list of (a, b) with
    a.x <= b) """
    ret = gtm.MixedIntegerConstraintsReturn()
    mid = [(a + b) / 2 for a, b in zip(lo, up)]
    one = [[F(int(i == j)) for j in range(d)] for i in range(d)]
    neg = [[-v for v in r] for r in one]
    t = nets.tensor
    if kind in ("all", "half", "beyond"):
        lo2, up2 = list(lo), list(up)
        rows, rhs = [], []
        if kind == "beyond":
            lo2 = [m for m in mid]
            up2 = [b + 1 for b in up]
        piece = [(r, b) for r, b in zip(one, up2)] + [
            (r, -b) for r, b in zip(neg, lo2)]
        if kind == "half":
            a = [F(1), F(-1, 2)][:d]
            piece = [(a, lyap.dot(a, mid) + F(1, 8))]
        rows, rhs = [a for a, _ in piece], [b for _, b in piece]
        ret.Ain_input, ret.rhs_in = t(rows), t(rhs)
        return ret, [piece]
    if kind == "slice":
        a = [F(1), F(1, 2)][:d]
        b = lyap.dot(a, mid)
        ret.Aeq_input, ret.rhs_eq = t([a]), t([b])
        return ret, [[(a, b), ([-v for v in a], -b)]]
    if kind == "surface":
        ret = utils.box_boundary(T(lo), T(up))
        pieces = []
        for i in range(d):
            for r, v in ((one[i], lo[i]), (one[i], up[i])):
                pieces.append([(r, v), ([-q for q in r], -v)])
        return ret, pieces
    # two boxes: x = s1 + s2, lo_i b_i <= s_i <= up_i b_i, b1 + b2 = 1
    q = [(b - a) / 4 for a, b in zip(lo, up)]
    if kind == "two boxes":
        boxes = [(lo, mid), ([a + e for a, e in zip(mid, q)], up)]
    else:  # apart: one of the boxes does not meet the box of the system
        boxes = [([b + 1 for b in up], [b + 2 for b in up]),
                 ([a + e for a, e in zip(lo, q)], mid)]
    n = 2
    Aeq_x = one + [[F(0)] * d]
    Aeq_s = [[F(-1) if j % d == i else F(0) for j in range(n * d)]
             for i in range(d)] + [[F(0)] * (n * d)]
    Aeq_b = [[F(0)] * n for _ in range(d)] + [[F(1)] * n]
    rhs = [F(0)] * d + [F(1)]
    Ain_s, Ain_b = [], []
    for i, (a, b) in enumerate(boxes):
        for j in range(d):
            r = [F(int(k == i * d + j)) for k in range(n * d)]
            Ain_s.append(r)
            Ain_b.append([-b[j] if k == i else F(0) for k in range(n)])
            Ain_s.append([-v for v in r])
            Ain_b.append([a[j] if k == i else F(0) for k in range(n)])
    ret.Aeq_input, ret.Aeq_slack, ret.Aeq_binary, ret.rhs_eq = \
        t(Aeq_x), t(Aeq_s), t(Aeq_b), t(rhs)
    ret.Ain_slack, ret.Ain_binary, ret.rhs_in = \
        t(Ain_s), t(Ain_b), t([F(0)] * len(Ain_s))
    return ret, [[(r, v) for r, v in zip(one, b)] + [
        (r, -v) for r, v in zip(neg, a)] for a, b in boxes]


def hinge(v, margin):
    return max(v + margin, F(0))


def reduce_(vals, how):
    if how == "mean":
        return float(sum(vals) / len(vals))
    if how == "max":
        return float(max(vals))
    return float(sum(float(v)**4 for v in vals))**.25


def work(cx, task):
    tier, cfg = task
    (kind, d, k0, skw), (slope, hid, bias), xs, c, eps, meth, k = cfg
    S = lyap.System(kind, d, k0, method=meth if kind.startswith("auto")
                    else "IA", **skw)
    star = [S.xeq, [(a + b) / 2 for a, b in zip(S.xlo, S.xup)],
            [S.xup[0]] + S.xlo[1:]][xs]
    C = lyap.Candidate(d, star, 110 + k, 0, None, slope, hid, bias)
    B = barrier.DiscreteTimeBarrier(S.obj, C.net)
    B.network_bound_propagate_method = lyap.METHODS[meth]
    B = nets.Aged(B, C.net, *S.params())
    kw = dict(config=[str(t) for t in cfg])
    xstar, cf, ef = T(star), float(c), float(eps)
    h = lambda x: cells.eval_layers(C.layers, x)[0][0] - C.phi_eq + c  # noqa
    cs0 = C.add(lyap.start_cells(S.xlo, S.xup), "x")
    cs = C.add(C.add(S.cells(), "x"), "xn")
    pts = lyap.points(cs, S.xlo, S.xup, 5 if d == 1 else 3,
                      cap=20 if tier == "quick" else 50)
    cx.states(len(pts))
    before = [q.detach().clone() for q in C.net.parameters()]
    # ---- values
    X = torch.stack([T(p) for p in pts])
    want = np.array([float(h(p)) for p in pts])
    got = B.value(X, xstar, cf).detach().numpy()
    if got.shape != want.shape or not (np.max(np.abs(got - want)) <= 1e-9):
        return cx.fail("h of a batch", got=got, want=want, **kw)
    for x, w in zip(X, want):
        cx.trans()
        if not (abs(float(B.value(x, xstar, cf)) - w) <= 1e-9):
            return cx.fail("h of one state", x=x, want=w, **kw)
    if not (abs(float(B.value(xstar, xstar, cf)) - cf) <= 1e-12):
        return cx.fail("h(x*) is not c", **kw)
    # ---- derivative by simulation
    if kind != "hyb":
        ys = [S.succ(p)[0] for p in pts]
        dv = [-h(y) + (1 - eps) * h(p) for p, y in zip(pts, ys)]
        for x, w in zip(X, dv):
            cx.trans()
            if not (abs(float(B.derivative(x, xstar, cf, ef)) - float(w)) <= 1e-9):
                return cx.fail("derivative of one state", x=x, want=w, **kw)
        got = B.derivative(X, xstar, cf, ef).detach().numpy()
        if got.shape != (len(pts), ) or not (np.max(np.abs(got - np.array(
                [float(w) for w in dv]))) <= 1e-9):
            return cx.fail("derivative of a batch", got=got, want=dv, **kw)
    # ---- sampled loss, on pairs that need not be transitions
    n = len(pts)
    for sub in (range(n), range(0, n, 3), [0]):
        A = [pts[i] for i in sub]
        Y = [pts[(i * 7 + 3) % n] for i in sub]
        for how, m in itertools.product(("mean", "max", "4norm"),
                                        (F(0), F(1, 4), F(-1, 2))):
            vals = [hinge(-h(y) + (1 - eps) * h(x), m)
                    for x, y in zip(A, Y)]
            w = reduce_(vals, how)
            g = float(B.derivative_loss_at_samples_and_next_states(
                xstar, cf, ef, torch.stack([T(x) for x in A]),
                torch.stack([T(y) for y in Y]), margin=float(m),
                reduction=how))
            cx.trans()
            if not (abs(g - w) <= 1e-9):
                return cx.fail("sampled loss", how=how, margin=m, got=g,
                               want=w, samples=len(A), **kw)
            # its gradient with respect to the next states
            Yt = torch.stack([T(y) for y in Y]).requires_grad_(True)
            Xt = torch.stack([T(x) for x in A])
            got = B.derivative_loss_at_samples_and_next_states(
                xstar, cf, ef, Xt, Yt, margin=float(m), reduction=how)
            gy = torch.autograd.grad(got, Yt, allow_unused=True)[0] \
                if got.requires_grad else None
            gy = torch.zeros_like(Yt) if gy is None else gy
            if Xt.requires_grad or not torch.equal(
                    Xt, torch.stack([T(x) for x in A])):
                return cx.fail("the loss changes its samples", **kw)
            hs = 2.**-18
            for i, j in itertools.product(range(min(len(Y), 4)), range(d)):
                ds, hy = [], []
                for s in (1, -1):
                    y = list(Y[i])
                    y[j] += s * F(hs)
                    hy.append(h(y))
                    z = list(vals)
                    z[i] = hinge(-h(y) + (1 - eps) * h(A[i]), m)
                    ds.append((reduce_(z, how) - w) / (s * hs))
                if abs(ds[0] - ds[1]) > 1e-3 * max(1, abs(ds[0])) or \
                        sum(hy) != 2 * h(Y[i]):
                    cx.count("kinks (no gradient)")
                    continue
                cx.trans()
                if not (abs(float(gy[i, j]) - sum(ds) / 2) <= 1e-3 * max(
                        1, abs(ds[0]))):
                    return cx.fail("gradient of the sampled loss with respect"
                                   " to the next states", how=how, margin=m,
                                   got=float(gy[i, j]), want=ds, **kw)
    # ---- derivatives, away from kinks
    Xg = torch.stack([T(p) for p in pts[::3]])
    off = torch.arange(1, Xg.numel() + 1).reshape(Xg.shape)
    Xg = (Xg + .0123456789 * torch.sin(off.double())).requires_grad_(True)
    Yg = (Xg.detach().flip(0) * .9 + .00123456).requires_grad_(True)
    mul = torch.cos(off[:, 0].double())
    own = list(C.net.parameters())
    plant = [q for q in S.params() if q.requires_grad]
    real = B._obj
    todo = [("h", lambda: (real.value(Xg, xstar, cf) * mul).sum()
             if len(mul) > 1 else real.value(Xg, xstar, cf).sum(),
             own + [Xg])]
    if kind != "hyb":
        todo.append(("the derivative", lambda: (real.derivative(
            Xg, xstar, cf, ef) * mul).sum() if len(mul) > 1 else
            real.derivative(Xg, xstar, cf, ef).sum(),
            own + [Xg] + plant))
    for how in ("mean", "max", "4norm"):
        todo.append(("the sampled loss, " + how, lambda how=how:
                     real.derivative_loss_at_samples_and_next_states(
                         xstar, cf, ef, Xg, Yg, margin=20.,
                         reduction=how), own + [Xg, Yg]))
    for name, f, leaves in todo:
        if nets.slopes(cx, f, leaves, name, kw, [C.net] +
                       [m for m in vars(S.obj).values()]) is not True:
            return
    # ---- value programs
    for kind_r, safe in itertools.product(REGIONS, (False, True)):
        if tier == "quick" and (REGIONS.index(kind_r) + safe + k) % 3:
            continue
        reg, pieces = region(kind_r, d, S.xlo, S.xup)
        milp, x = B.value_as_milp(xstar, cf, reg, safe)
        prog = Program(milp.gurobi_model)
        co, const, mx = lyap.objective(prog)
        if not mx or len(x) != d:
            return cx.fail("value program: not a maximisation", **kw)
        sgn = -1 if safe else 1
        best = None
        inside = []
        for pc in pieces:
            cc = cs0
            for a, b in pc:
                cc = lyap.keep(cc, lambda q: cells.Aff(
                    [-v for v in a], b))
            inside += cc
        if inside:
            best = cells.vmax(inside, lambda q: (
                q.m[("phi", "x")][0] - C.phi_eq + c) * F(sgn))[0]
        extra = [v for q in inside for v in q.verts][:10]
        for p in sorted(set(pts[::2]) | set(map(tuple, extra))):
            if cx.out_of_time():
                return
            ok = any(all(lyap.dot(a, p) <= b for a, b in pc)
                     for pc in pieces)
            hit = False
            for z, lo, up in prog.leaves(dict(zip(x, p))):
                hit = True
                cx.trans()
                a, b = prog.extent(lo, up, [co])[0]
                w = sgn * float(h(p))
                if not (abs(a + const - w) <= TOL) or not (abs(b + const - w) <= TOL):
                    return cx.fail("value program: objective is not h", x=p,
                                   got=[a + const, b + const], want=w,
                                   region=kind_r, safe=safe, **kw)
            if hit != ok and all(F(float(t)) == t for t in p):
                return cx.fail("value program: wrong states", x=p, got=hit,
                               want=ok, region=kind_r, safe=safe, **kw)
        for j in range(d):
            for t in (S.xlo[j] - F(1, 64), S.xup[j] + F(1, 64)):
                p = [(a + b) / 2 for a, b in zip(S.xlo, S.xup)]
                p[j] = t
                if prog.feasible(dict(zip(x, p))):
                    return cx.fail("value program: state outside of the box",
                                   x=p, region=kind_r, **kw)
        v, _ = prog.best(co, maximize=True)
        for g in (None if v is None else v + const, lyap.solve(milp)):
            cx.trans()
            if (g is None) != (best is None) or (g is not None and not (abs(
                    g - float(best)) <= TOL)):
                return cx.fail("value program: optimum", got=g, want=best,
                               region=kind_r, safe=safe, **kw)
        cx.outcome(kind_r, safe, None if best is None else
                   round(float(best), 3))
    # ---- derivative program
    obj = lambda q: (q.m[("phi", "xn")][0] * F(-1) +  # noqa: E731
                     q.m[("phi", "x")][0] * (1 - eps)) + eps * (C.phi_eq - c)
    feas = lyap.keep_box(cs, "xn", S.xlo, S.xup)
    best = cells.vmax(feas, obj)[0] if feas else None
    if best is None:
        cx.count("no transition stays in the box")
    for relax in (False, True):
        if relax:
            r = B.derivative_as_milp(xstar, cf, ef,
                                     binary_var_type=gtm.BINARYRELAX)
            g = lyap.solve(r.milp)
            if Program(r.milp.gurobi_model).bin:
                return cx.fail("relaxed program has binaries", **kw)
            if best is not None and (g is None or g < float(best) - TOL):
                return cx.fail("relaxation below the optimum", got=g,
                               want=best, **kw)
            break
        r = B.derivative_as_milp(xstar, cf, ef)
        prog = Program(r.milp.gurobi_model)
        co, const, mx = lyap.objective(prog)
        if not mx:
            return cx.fail("derivative program: not a maximisation", **kw)
        nxt = [prog.unit(v) for v in r.x_next]
        for p in pts:
            if cx.out_of_time():
                return
            ys = [y for y in S.succ(p)]
            hit = []
            for z, lo, up in prog.leaves(dict(zip(r.x, p))):
                cx.trans()
                e = prog.extent(lo, up, nxt + [co])
                j = [i for i, y in enumerate(ys) if all(
                    abs(a - float(t)) < TOL and abs(b - float(t)) < TOL
                    for t, (a, b) in zip(y, e))]
                if not j:
                    return cx.fail("derivative program: another successor",
                                   x=p, got=e, want=ys, **kw)
                w = [float(-h(ys[i]) + (1 - eps) * h(p)) for i in j]
                a, b = e[-1]
                if not any(abs(a + const - t) < TOL and
                           abs(b + const - t) < TOL for t in w):
                    return cx.fail("derivative program: objective", x=p,
                                   got=[a + const, b + const], want=w, **kw)
                # the reported binaries are the activation patterns
                zz = dict(zip(prog.bin, z))
                for net_in, bv in ((p, r.binary_current),
                                   (ys[j[0]], r.binary_next)):
                    pre = [t for q in cells.eval_layers(
                        C.layers, net_in)[1] for t in q]
                    if len(bv) != len(pre):
                        return cx.fail("derivative program: binaries", **kw)
                    for t, q in zip(pre, bv):
                        o = zz[prog.index[q]]
                        if (t > TOL and o < .5) or (t < -TOL and o > .5):
                            return cx.fail("derivative program: binaries are "
                                           "not the activation", x=p, **kw)
                hit += j
            if all(F(float(t)) == t for t in p):
                need = [i for i, y in enumerate(ys) if S.inside(y)]
                if sorted(set(hit)) != need:
                    return cx.fail("derivative program: wrong transitions",
                                   x=p, got=hit, want=need, **kw)
        v, _ = prog.best(co, maximize=True)
        for g in (None if v is None else v + const, lyap.solve(r.milp)):
            cx.trans()
            if (g is None) != (best is None) or (g is not None and not (abs(
                    g - float(best)) <= TOL)):
                return cx.fail("derivative program: optimum", got=g,
                               want=best, **kw)
        cx.outcome("deriv", None if best is None else round(float(best), 3))
        if v is not None:
            loss = r.milp.compute_objective_from_mip_data_and_solution(
                penalty=1e-13)
            if not (abs(float(loss) - v - const) <= 1e-5):
                return cx.fail("objective from data is not the optimum",
                               got=float(loss), want=v + const, **kw)
    if any(not torch.equal(a, b) for a, b in zip(
            before, C.net.parameters())):
        return cx.fail("network changed", **kw)
    cx.traces()
    cx.sample(config=kw["config"], points=len(pts), best=best)


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C18", tasks, work, rule="every configuration (system, network, "
            "x*, c, eps, bounds) x every region x every cell vertex/centre "
            "and grid point x every feasible binary assignment; optima "
            "against exact cell enumeration; every subset, reduction and "
            "margin of the sampled loss",
            assumptions=["the MIP stand-in holds what the code put in",
                         "tolerance 1e-6 on values"])
