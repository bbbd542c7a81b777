"""
C20: what the trainer's losses are made of.  For every combination of cost
weights (also None and zero), flags, pool sizes and reductions: the two
optimal values, the gap of V over the boundary, the losses on the samples and
their total are the exact ones; states added to the samples are true
counterexamples with true successors, worst first; the gradient is the
derivative of the exact total.  The same for the barrier losses.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T  # noqa: E402
from trainer import Setup, reduce_  # noqa: E402

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c18  # noqa: E402
from neural_network_lyapunov import barrier  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402

RED = ["mean", "max", "4norm"]
SAMPLE_W = [(1., 1.), (0., 2.), (.5, 0.)]
MIP_W = [(10., 10.), (None, 3.), (2., None), (0., 0.), (None, None),
         (4., 0.)]
GAP = [0., .5]
POOL = [(1, 1), (3, 2)]
SIZE = [500, 2]
MARGIN = [(0., 0.), (.25, .125)]
STRONG = [(0, False), (2, False), (0, False), (1, True), (0, True)]


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, dict(scale=.5)), ("autoeq", 1, 32, dict(scale=.5)),
          ("autores", 1, 33, dict(slope=.125, scale=.25)),
          ("hyb", 1, 5, dict(xeq=(F(1, 4), ), scale=F(1, 2))),
          ("fb", 1, 34, dict(scale=.5)),
          ("fb", 1, 36, dict(limits="wide", scale=.25))]
    S2 = [("autoeq", 2, 42, dict(scale=.25)),
          ("autores", 2, 43, dict(scale=.125)),
          ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2)), scale=F(1, 4))),
          ("fb", 2, 44, dict(scale=.25))]
    V = [("relu", (2, ), True), (.125, (2, ), True), ("relu", (2, 2), True)]
    R = {1: ["fixed one", "spd", "svd tall", "free"],
         2: ["fixed skew", "spd tall", "svd", "free"]}
    if not quick:
        S1 += [(t[0], 1, t[2] + 20, t[3]) for t in S1 if t[0] != "hyb"]
        S2 += [(t[0], 2, t[2] + 20, t[3]) for t in S2 if t[0] != "hyb"]
    out = []
    k = 0
    for sys_ in S1 + S2:
        for v, r in itertools.product(V, R[sys_[1]]):
            k += 1
            if quick and (k * 3 + k // 12) % (4 if sys_[1] == 1 else 6):
                continue
            out.append((sys_, True, v, r, [F(1, 2), F(2), F(1, 4)][k % 3],
                        [F(1, 8), F(1, 2)][k % 2], F(1, 4),
                        ["ExpLower", "ExpUpper", "Asymp"][k // 2 % 3],
                        k % 11))
    return out


def hinges(vals, margin):
    return [max(v + F(margin), F(0)) for v in vals]


def sample_losses(U, P, D, N, w, margins, how):
    """ exact weighted losses on the samples """
    p = w[0] * reduce_(hinges([U.pos(x) for x in P], margins[0]), how) \
        if w[0] else 0.
    q = w[1] * reduce_(hinges([U.der(x, y) for x, y in zip(D, N)],
                              margins[1]), how) if w[1] else 0.
    return p, q


def rows_of(t):
    return [[F(v) for v in r] for r in t.tolist()]


def true_next(U, D, N):
    """ the exact successors that the stated next states are; None if they
    are not successors """
    ret = []
    for x, y in zip(D, N):
        c = [s for s in U.succ(x) if all(abs(a - b) < F(1, 10**6)
                                         for a, b in zip(s, y))]
        if not c:
            return None
        ret.append(c[0])
    return ret


def degenerate(U, x, y):
    """ more active kinks than dimensions at the transition """
    near = lambda t: abs(t) < F(1, 10**6)  # noqa: E731
    n = 0
    for z in (x, y):
        n += sum(near(t) for q in cells.eval_layers(U.C.layers, z)[1]
                 for t in q)
        n += sum(near(a - b) for v in (U.S.xlo, U.S.xup)
                 for a, b in zip(v, z))
        e = [a - b for a, b in zip(z, U.C.xeq)]
        n += sum(near(lyap.dot(r, e)) for r in U.C.R)
    if U.kind.startswith("auto"):
        n += sum(near(t) for q in cells.eval_layers(U.S.layers, x)[1]
                 for t in q)
    return n > U.d


def lyapunov_work(cx, tier, cfg, k):
    U = Setup(cfg)
    S, tr, d = U.S, U.tr, U.d
    kw = dict(config=[str(t) for t in cfg])
    pmax, dmax = U.pos_max(), U.der_max()
    bmin, bmax = U.boundary()
    if dmax is None:
        cx.count("no transition stays in the box")
    grid = [tuple(p) for p in cells.grid(S.xlo, S.xup, 5 if d == 1 else 3)]
    grid = [p for p in grid if len(U.succ(p)) == 1]
    lists = [[], grid[k % 3:][:1], grid[k % 2:][:4]]
    combos = list(itertools.product(
        SAMPLE_W, MIP_W, GAP, POOL, SIZE, MARGIN, RED,
        (True, False), (True, False), (True, False), range(3), range(4)))
    step = 773 if tier == "quick" else 193
    combos = combos[(k * 37) % step::step]
    cx.states(len(combos))
    eps = F(1, 10**6)
    for n_combo, (w, mw, gap, pools, size, mg, how, addp, addd, only, li,
                  warm) in enumerate(combos):
        if cx.out_of_time():
            return
        if dmax is None and mw[1] is not None:
            continue
        flags = dict(weights=w, mip=mw, gap=gap, pools=pools, size=size,
                     margins=mg, reduction=how, add=[addp, addd], only=only,
                     samples=len(lists[li]))
        tr.lyapunov_positivity_mip_pool_solutions = pools[0]
        tr.lyapunov_derivative_mip_pool_solutions = pools[1]
        tr.max_sample_pool_size = size
        tr.lyapunov_positivity_sample_margin = mg[0]
        tr.lyapunov_derivative_sample_margin = mg[1]
        tr.sample_loss_reduction = how
        tr.add_positivity_adversarial_state = addp
        tr.add_derivative_adversarial_state = addd
        tr.add_adversarial_state_only = only
        warm = [bool(warm & 1), bool(warm & 2)]
        tr.lyapunov_positivity_mip_warmstart = warm[0]
        tr.lyapunov_derivative_mip_warmstart = warm[1]
        tr.lyapunov_positivity_last_x_adv = None
        tr.lyapunov_derivative_last_x_adv = None
        n_str, b_str = STRONG[(n_combo + k) % len(STRONG)]
        flags.update(strengthen=[n_str, b_str], warm=warm)
        tr.derivative_mip_num_strengthen_pts = n_str
        tr.derivative_mip_strengthen_binary = b_str
        X = torch.stack([T(p) for p in lists[li]]) if lists[li] else \
            torch.empty((0, d), dtype=lyap.DT)
        XN = S.obj.step_forward(X) if len(X) else torch.empty_like(X)
        for p in U.params():
            p.grad = None
        ret = tr.total_loss(X, X, XN, *w, *mw, gap)
        cx.trans()
        l1 = ret.lyap_loss
        n0 = len(X)
        # ---- optimal values
        for name, got, want, on in (
                ("positivity_mip_obj", l1.positivity_mip_obj, pmax, mw[0]),
                ("derivative_mip_obj", l1.derivative_mip_obj, dmax, mw[1])):
            if (got is None) != (on is None) or (on is not None and not (abs(
                    got - float(want)) <= 1e-6)):
                return cx.fail(name, got=got, want=want, **flags, **kw)
        want_p = (mw[0] or 0.) * float(pmax)
        want_d = (mw[1] or 0.) * float(dmax or 0)
        want_g = gap * float(bmax - bmin)
        for name, got, want in (
                ("positivity_mip_loss", l1.positivity_mip_loss, want_p),
                ("derivative_mip_loss", l1.derivative_mip_loss, want_d),
                ("gap_mip_loss", l1.gap_mip_loss, want_g)):
            if not (abs(float(got) - want) <= 1e-5 * max(1, abs(want))):
                return cx.fail(name, got=float(got), want=want, **flags, **kw)
        # ---- states
        P, D, N = map(rows_of, (l1.positivity_state_samples,
                                l1.derivative_state_samples,
                                l1.derivative_state_samples_next))
        x0 = rows_of(X)
        if P[:n0] != x0 or D[:n0] != x0 or len(N) != len(D):
            return cx.fail("samples were lost", **flags, **kw)
        nxt = true_next(U, D, N)
        if nxt is None:
            return cx.fail("a next state is not the successor", got=N,
                           states=D, **flags, **kw)
        for name, pts, vals, on, mx, cap in (
                ("positivity", P[n0:], [U.pos(x) for x in P[n0:]],
                 addp and mw[0] is not None, pmax, pools[0]),
                ("derivative", D[n0:], [U.der(x, y) for x, y in zip(
                    D[n0:], nxt[n0:])], addd and mw[1] is not None, dmax,
                 pools[1])):
            bad = None
            if not on:
                bad = bool(pts)
            elif len(pts) > cap or any(
                    not (a - eps <= t <= b + eps) for x in pts
                    for a, t, b in zip(S.xlo, x, S.xup)):
                bad = True
            elif only and any(v < -eps for v in vals):
                bad = True
            elif not pts:
                bad = not only or mx > eps
            elif abs(vals[0] - mx) > 10 * eps or any(
                    b > a + eps for a, b in zip(vals, vals[1:])):
                bad = True
            if bad:
                return cx.fail("adversarial states: " + name, got=pts,
                               values=vals, maximum=mx, **flags, **kw)
            cx.outcome(name, on, len(pts), only, None if mx is None else
                       mx > 0)
        # ---- losses on the samples in the pool
        s_p, s_d = sample_losses(U, P[-size:], D[-size:], nxt[-size:], w, mg,
                                 how)
        for name, got, want in (
                ("positivity_sample_loss", l1.positivity_sample_loss, s_p),
                ("derivative_sample_loss", l1.derivative_sample_loss, s_d),
                ("total loss", ret.loss,
                 want_p + want_d + want_g + s_p + s_d)):
            if not (abs(float(got) - want) <= 1e-5 * max(1, abs(want))):
                return cx.fail(name, got=float(got), want=want, **flags, **kw)
        for on, x, at, want in (
                (warm[0] and mw[0] is not None,
                 tr.lyapunov_positivity_last_x_adv, U.pos, pmax),
                (warm[1] and mw[1] is not None,
                 tr.lyapunov_derivative_last_x_adv,
                 lambda x: max(U.der(x, y) for y in U.succ(x)), dmax)):
            if not on:
                if x is not None:
                    return cx.fail("a warm start that was not asked for",
                                   got=x, **flags, **kw)
            elif x is None or not (abs(at(rows_of(x.reshape((1, -1)))[0]) -
                                  want) <= 10 * eps):
                return cx.fail("warm start is not the worst state", got=x,
                               **flags, **kw)
        # ---- gradient
        if gap or any(t == 0 for q in cells.eval_layers(
                U.C.layers, U.C.xeq)[1] for t in q):
            continue
        if any(mw) and not U.kind.startswith("auto"):
            continue
        if not ret.loss.requires_grad:
            if w[0] and P[-size:] or w[1] and D[-size:] or any(mw):
                if any(p.requires_grad for p in U.params()):
                    return cx.fail("the loss has no gradient", **flags, **kw)
            continue
        star = []
        if mw[0] or mw[1]:
            tr.add_adversarial_state_only = False
            if mw[0]:
                x = rows_of(tr.solve_positivity_mip()[2])[0]
                star.append((x, [F(1, 3)] * d))
            if mw[1]:
                a = tr.solve_lyap_derivative_mip()
                x = rows_of(a[2])[0]
                star.append((x, U.succ(x)[0]))
            if any(degenerate(U, *t) for t in star):
                cx.count("degenerate maximisers (no gradient)")
                continue
        ret.loss.backward()
        base = want_p + want_d + s_p + s_d
        h = 2.**-20

        def again():
            U.reread()
            t = (mw[0] or 0.) * float(U.pos_max() if mw[0] else 0)
            t += (mw[1] or 0.) * float(U.der_max() if mw[1] else 0)
            N2 = []
            for i, x in enumerate(D[-size:]):
                N2.append(U.succ(x)[0] if U.kind != "hyb" else
                          nxt[-size:][i])
            return t + sum(sample_losses(U, P[-size:], D[-size:], N2, w, mg,
                                         how))
        for name, g in U.groups().items():
            for q in g:
                grad = np.zeros(q.numel()) if q.grad is None else \
                    q.grad.numpy().reshape(-1)
                for e in range(q.numel()):
                    if tier == "quick" and (e + k) % 2:
                        continue
                    old = float(q.data.view(-1)[e])
                    if old == 0:
                        continue
                    ds = []
                    for sg in (1, -1):
                        q.data.view(-1)[e] = old + sg * h
                        ds.append((again() - base) / (sg * h))
                    q.data.view(-1)[e] = old
                    U.reread()
                    cx.trans()
                    if abs(ds[0] - ds[1]) > 1e-3 * max(1, abs(ds[0])):
                        cx.count("kinks (no gradient)")
                        continue
                    cx.count("gradient entries compared")
                    if not (abs(grad[e] - ds[0]) <= 2e-3 * max(1, abs(ds[0]))):
                        return cx.fail("gradient of the total loss",
                                       group=name, entry=e, got=grad[e],
                                       want=ds, **flags, **kw)
    if searches(cx, tier, U, k, kw) is None:
        return
    cx.traces()
    cx.sample(config=kw["config"], combinations=len(combos),
              maxima=[pmax, dmax])


def pooled(mip, n):
    """ values of the first n solutions of the pool """
    out = []
    for i in range(min(n, mip.gurobi_model.solCount)):
        mip.gurobi_model.setParam("SolutionNumber", i)
        out.append(mip.gurobi_model.PoolObjVal)
    return out


def searches(cx, tier, U, k, kw):
    """ the two searches with pools, early termination, strengthening and warm
    starts: every state handed out belongs to its solution """
    tr = U.tr
    tol = 1e-6
    pmax, dmax = U.pos_max(), U.der_max()
    below = lambda m: float(m) - .25  # noqa: E731
    above = lambda m: float(m) + .25  # noqa: E731
    cases = list(itertools.product(
        (4, 1), (True, False), STRONG[1:], (None, below, above),
        (None, below, above), (False, True)))
    step = 29 if tier == "quick" else 7
    for pool, only, (n_str, b_str), tp, td, warm in cases[k % step::step]:
        if cx.out_of_time():
            return
        tr.lyapunov_positivity_mip_pool_solutions = pool
        tr.lyapunov_derivative_mip_pool_solutions = pool
        tr.add_adversarial_state_only = only
        tr.derivative_mip_num_strengthen_pts = n_str
        tr.derivative_mip_strengthen_binary = b_str
        tr.lyapunov_positivity_mip_warmstart = warm
        tr.lyapunov_derivative_mip_warmstart = warm
        # the user's parameters of the solver (2: keep the best solutions)
        tr.lyapunov_derivative_mip_params = {
            "OutputFlag": False, "PoolSearchMode": 2 if warm else 0}
        for name, mx, th, run in (
                ("positivity", pmax, tp, tr.solve_positivity_mip),
                ("derivative", dmax, td, tr.solve_lyap_derivative_mip)):
            if mx is None:
                continue
            th = None if th is None else th(mx)
            setattr(tr, f"lyapunov_{name}_mip_term_threshold", th)
            flags = dict(search=name, pool=pool, only=only,
                         strengthen=[n_str, b_str], threshold=th, warm=warm)
            mip, obj, X, *N = run()
            cx.trans()
            vals = pooled(mip, pool)
            X = rows_of(X)
            if th is None or th > mx:
                good = abs(obj - mx) <= tol
            else:
                good = th < obj <= mx + tol
            if not good or not (abs(vals[0] - obj) <= 1e-9):
                return cx.fail("value found by the search", got=obj,
                               maximum=mx, pool_values=vals, **flags, **kw)
            want = [v for v in vals if v > 0 or not only]
            if len(X) != len(want):
                return cx.fail("number of adversarial states", got=X,
                               values=vals, **flags, **kw)
            if name == "positivity":
                got = [U.pos(x) for x in X]
            else:
                Y = true_next(U, X, rows_of(N[0]))
                if Y is None or len(N[0]) != len(X):
                    return cx.fail("a next state is not the successor",
                                   got=N[0], states=X, **flags, **kw)
                got = [U.der(x, y) for x, y in zip(X, Y)]
            if any(not (abs(a - F(b)) <= tol * 10) for a, b in zip(got, want)):
                return cx.fail("an adversarial state is not that of its "
                               "solution", got=got, want=want, states=X,
                               **flags, **kw)
            cx.outcome("search", name, len(X), len(vals))
            setattr(tr, f"lyapunov_{name}_mip_term_threshold", None)
            setattr(tr, f"lyapunov_{name}_last_x_adv", None)
    tr.derivative_mip_num_strengthen_pts = 0
    tr.derivative_mip_strengthen_binary = False
    tr.lyapunov_derivative_mip_params = {"OutputFlag": False}
    # ---- the gap over the boundary
    lo, up = U.boundary()
    gap, vmin, vmax, xmin, xmax = tr.solve_boundary_gap_mip()
    if not (abs(float(gap) - float(up - lo)) <= tol) or not (abs(
            vmin - float(lo)) <= tol) or not (abs(vmax - float(up)) <= tol):
        return cx.fail("gap over the boundary", got=[float(gap), vmin, vmax],
                       want=[lo, up], **kw)
    for x, v in ((xmin, lo), (xmax, up)):
        x = rows_of(x.reshape((1, -1)))[0]
        if not (abs(U.C.V(x) - v) <= 10 * tol) or not any(
                abs(a - b) < 1e-6 for w in (U.S.xlo, U.S.xup)
                for a, b in zip(w, x)):
            return cx.fail("extreme state on the boundary", got=x, want=v,
                           value=U.C.V(x), **kw)
    return True


def barrier_work(cx, tier, cfg):
    (kind, d, k0, skw), (slope, hid, bias), xs, c, eps, meth, k = cfg
    S = lyap.System(kind, d, k0, **skw)
    star = [S.xeq, [(a + b) / 2 for a, b in zip(S.xlo, S.xup)],
            [S.xup[0]] + S.xlo[1:]][xs]
    C = lyap.Candidate(d, star, 110 + k, 0, None, slope, hid, bias)
    B = barrier.DiscreteTimeBarrier(S.obj, C.net)
    kw = dict(config=[str(t) for t in cfg])
    h = lambda x: cells.eval_layers(C.layers, x)[0][0] - C.phi_eq + c  # noqa
    tr = tlb.Trainer()
    tr.add_barrier(B, T(star), float(c), float(eps))
    cs0 = C.add(lyap.start_cells(S.xlo, S.xup), "x")
    cs = C.add(C.add(S.cells(), "x"), "xn")
    obj = lambda q: (q.m[("phi", "xn")][0] * F(-1) +  # noqa: E731
                     q.m[("phi", "x")][0] * (1 - eps)) + eps * (C.phi_eq - c)
    feas = lyap.keep_box(cs, "xn", S.xlo, S.xup)
    dmax = cells.vmax(feas, obj)[0] if feas else None
    tol = F(1, 10**6)

    def inside(x, pieces):
        return any(all(lyap.dot(a, x) <= b + tol for a, b in pc)
                   for pc in pieces)

    def best(pieces, sgn):
        out = []
        for pc in pieces:
            cc = cs0
            for a, b in pc:
                cc = lyap.keep(cc, lambda q: cells.Aff([-v for v in a], b))
            out += cc
        return cells.vmax(out, lambda q: (
            q.m[("phi", "x")][0] - C.phi_eq + c) * F(sgn))[0]
    grid = [tuple(p) for p in cells.grid(S.xlo, S.xup, 5 if d == 1 else 3)]
    grid = [p for p in grid if len(S.succ(p)) == 1]
    names = [["half"], ["two boxes", "slice"], ["surface"], [],
             ["half", "all"]]
    combos = list(itertools.product(
        names, names, ((1., 1., 1.), (0., 2., .5), (.5, 0., 0.)),
        ((1., 1., 1.), (None, 2., 0.), (3., None, None), (0., 0., 5.),
         (None, None, 2.)),
        (1, 3), RED, (500, 2), (True, False), range(2)))
    step = 2003 if tier == "quick" else 307
    combos = combos[(k * 53) % step::step]
    cx.states(len(combos))
    for rs, ru, w, mw, pool, how, size, only, li in combos:
        if cx.out_of_time():
            return
        if dmax is None and mw[2] is not None:
            cx.count("no transition stays in the box")
            continue
        flags = dict(safe=rs, unsafe=ru, weights=w, mip=mw, pool=pool,
                     reduction=how, size=size, only=only, li=li)
        R = {True: [c18.region(n, d, S.xlo, S.xup) for n in rs],
             False: [c18.region(n, d, S.xlo, S.xup) for n in ru]}
        tr.safe_regions = [r for r, _ in R[True]]
        tr.unsafe_regions = [r for r, _ in R[False]]
        tr.barrier_value_mip_pool_solutions = pool
        tr.barrier_derivative_mip_pool_solutions = pool
        tr.add_adversarial_state_only = only
        tr.sample_loss_reduction = how
        tr.max_sample_pool_size = size
        pts = [[], grid[k % 2:][:3]][li]
        X = torch.stack([T(p) for p in pts]) if pts else torch.empty(
            (0, d), dtype=lyap.DT)
        l1 = tr.compute_barrier_loss(X, X, X, *w, *mw)
        cx.trans()
        n0 = len(pts)
        vals = []
        for safe, i, got, loss, st in (
                (True, 0, l1.safe_mip_obj, l1.safe_mip_loss,
                 l1.safe_state_samples),
                (False, 1, l1.unsafe_mip_obj, l1.unsafe_mip_loss,
                 l1.unsafe_state_samples)):
            sgn = -1 if safe else 1
            st = rows_of(st)
            want = [best(pc, sgn) for _, pc in R[safe]]
            name = "safe" if safe else "unsafe"
            if mw[i] is None:
                if got is not None or loss is not None or len(st) != n0:
                    return cx.fail(name + " program was not switched off",
                                   **flags, **kw)
            else:
                if len(got) != len(want) or any(
                        not (abs(a - float(b)) <= 1e-6) for a, b in zip(got, want)):
                    return cx.fail(name + "_mip_obj", got=got, want=want,
                                   **flags, **kw)
                if mw[i] and any(not (abs(float(a) - mw[i] * float(b)) <= 1e-5)
                                 for a, b in zip(loss, want)):
                    return cx.fail(name + "_mip_loss", got=loss, want=want,
                                   **flags, **kw)
                if not mw[i] and loss is not None and any(
                        float(t) for t in loss):
                    return cx.fail(name + "_mip_loss with weight 0", got=loss,
                                   **flags, **kw)
                new = st[n0:]
                cx.outcome(name, len(new), len(want))
                if len(new) > pool * len(want) or len(new) < len(want):
                    return cx.fail(name + " number of adversarial states",
                                   got=len(new), **flags, **kw)
                # worst states of every region are among them
                for (_, pc), b in zip(R[safe], want):
                    if not any(inside(x, pc) and abs(sgn * h(x) - b) <
                               10 * tol for x in new):
                        return cx.fail(name + ": the worst state is missing",
                                       got=new, **flags, **kw)
                if any(not any(inside(x, pc) for _, pc in R[safe])
                       for x in new):
                    return cx.fail(name + ": a state outside of its region",
                                   got=new, **flags, **kw)
            if st[:n0] != [list(p) for p in pts]:
                return cx.fail("samples were lost", **flags, **kw)
            vals.append(w[i] * reduce_([max(sgn * h(x), F(0))
                                        for x in st[-size:]], how)
                        if w[i] else 0.)
        st = rows_of(l1.derivative_state_samples)
        new = st[n0:]
        value = lambda x, y: -h(y) + (1 - eps) * h(x)  # noqa: E731

        def values(x):
            if kind != "hyb":
                return [value(x, y) for y in S.succ(x)]
            ys = [[lyap.dot(r, x) + t for r, t in zip(A, g)]
                  for A, g, P, q in S.modes
                  if all(lyap.dot(r, x) <= t + tol for r, t in zip(P, q))]
            return [value(x, y) for y in ys]
        for run, val, on in (
                (lambda: tr.solve_barrier_value_mip(True), lambda x, v:
                 abs(-h(x) - v), tr.safe_regions),
                (lambda: tr.solve_barrier_value_mip(False), lambda x, v:
                 abs(h(x) - v), tr.unsafe_regions),
                (lambda: [[t] for t in tr.solve_barrier_derivative_mip()],
                 lambda x, v: min(abs(t - v) for t in values(x)),
                 dmax is not None)):
            if pool == 1 or not on:
                continue
            for mip, obj, got in zip(*run()):
                pv = pooled(mip, pool)
                if only and len(got) != len(pv):
                    pv = [v for v in pv if v > 0]
                if len(got) != len(pv) or any(
                        val(x, F(v)) > 10 * tol
                        for x, v in zip(rows_of(got), pv)):
                    return cx.fail("an adversarial state is not that of its "
                                   "solution", got=got, values=pv, **flags,
                                   **kw)
                cx.outcome("barrier pool", len(got))
        if mw[2] is None:
            if l1.derivative_mip_obj is not None or new:
                return cx.fail("derivative program was not switched off",
                               **flags, **kw)
        else:
            if not (abs(l1.derivative_mip_obj - float(dmax)) <= 1e-6):
                return cx.fail("derivative_mip_obj", want=dmax,
                               got=l1.derivative_mip_obj, **flags, **kw)
            if mw[2] and not (abs(float(l1.derivative_mip_loss) -
                             mw[2] * float(dmax)) <= 1e-5):
                return cx.fail("derivative_mip_loss", want=dmax,
                               got=l1.derivative_mip_loss, **flags, **kw)
            cx.outcome("derivative", len(new), only, dmax > 0)
            bad = len(new) > pool
            if only:
                bad |= any(max(values(x)) < -tol for x in new)
            if new:
                bad |= not any(abs(v - dmax) < 10 * tol
                               for v in values(new[0]))
            else:
                bad |= not only or dmax > tol
            if bad:
                return cx.fail("adversarial states of the derivative",
                               got=new, maximum=dmax, **flags, **kw)
        pool_pts = st[-size:]
        if kind == "hyb" and any(len(values(x)) != 1 for x in pool_pts):
            cx.count("state between modes")
            continue
        vals.append(w[2] * reduce_([max(values(x)[0], F(0))
                                    for x in pool_pts], how) if w[2] else 0.)
        for name, got, want in zip(
                ("safe", "unsafe", "derivative"),
                (l1.safe_sample_loss, l1.unsafe_sample_loss,
                 l1.derivative_sample_loss), vals):
            if not (abs(float(got) - want) <= 1e-5):
                return cx.fail(f"{name}_sample_loss", got=got, want=want,
                               **flags, **kw)
    cx.traces()


def work(cx, task):
    tier, group, cfg, k = task
    if group == "lyapunov":
        lyapunov_work(cx, tier, cfg, k)
    else:
        barrier_work(cx, tier, cfg)


def barrier_configs(tier):
    quick = tier == "quick"
    out = []
    k = 0
    for sys_ in [("auto", 1, 31, dict(scale=.5)),
                 ("autoeq", 1, 32, dict(scale=.5)),
                 ("autores", 1, 33, dict(scale=.25)),
                 ("fb", 1, 34, dict(scale=.5)),
                 ("auto", 2, 41, dict(scale=.5)),
                 ("autoeq", 2, 42, dict(scale=.5)),
                 ("fb", 2, 44, dict(scale=.5))]:
        for v, (c, eps), xs in itertools.product(
                [("relu", (2, ), True), (.125, (2, ), False)],
                [(F(1, 2), F(1, 4)), (F(2), F(1, 8)), (F(1, 8), F(1))],
                range(3)):
            k += 1
            if quick and (k * 5 + k // 18) % (6 if sys_[1] == 1 else 9):
                continue
            out.append((sys_, v, xs, c, eps, "IA", k % 11))
    return out


def tasks(tier):
    return [(tier, "lyapunov", c, i) for i, c in enumerate(configs(tier))] + [
        (tier, "barrier", c, i) for i, c in enumerate(barrier_configs(tier))]


if __name__ == "__main__":
    mc.main("C20", tasks, work, rule="every configuration (system, network, R,"
            " type) x the declared combinations of cost weights, flags, pool "
            "sizes, margins, reductions and samples (every one of them "
            "against exact cell enumeration)",
            assumptions=["the MIP stand-in holds what the code put in",
                         "tolerance 1e-6 on values, 2e-3 on gradients",
                         "gradients are compared away from kinks of the loss "
                         "and at non-degenerate maximisers"])
