"""
C14: the Lyapunov candidate V(x) = phi(x) - phi(x*) + lambda |R (x - x*)|_1 and
the positivity certificate.  At every state and for every assignment of the
binaries the objective of the MILP is eps |R (x - x*)|_1 - V(x); its optimum
is the exact maximum over the box, whatever the warm start and bound
propagation; and the gradient of the optimum with respect to the network is
the derivative of the exact maximum.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import nets  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T, fl, GRB, Program  # noqa: E402

from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov import lyapunov  # noqa: E402

TOL = 1e-6


def configs(tier):
    quick = tier == "quick"
    nets_ = {1: [("relu", (2, ), True), (.125, (2, 2), False),
                 ("relu", (1, ), True), (.5, (3, ), (False, True))],
             2: [("relu", (2, ), True), (.125, (3, ), False),
                 ("relu", (2, 2), (True, False, True)), (.25, (1, ), True)]}
    boxes = {1: [((-1, ), (F(3, 2), )), ((0, ), (1, ))],
             2: [((-1, -1), (F(3, 2), F(5, 4))), ((0, -1), (1, F(1, 2)))]}
    eqs = {1: [(F(1, 4), ), (0, ), (1, )],
           2: [(F(1, 4), F(-1, 2)), (0, F(1, 2)), (1, -1)]}
    lams = [(F(1, 2), F(1, 8)), (F(0), F(1, 4)), (F(2), F(0))]
    out = []
    k = 0
    for d in (1, 2):
        for net, box, eq in itertools.product(nets_[d], boxes[d], eqs[d]):
            for R in lyap.RS[d]:
                for meth in lyap.METHODS:
                    for lam in lams:
                        k += 1
                        # quick: one of (method, lambda) per (net, box, x*, R)
                        if quick and (k // 12 + k) % 12:
                            continue
                        out.append((d, net, box, eq, R, meth, lam,
                                    k % (5 if quick else 11)))
    return out


def kind_of(i):
    return [("auto", {}), ("autores", {}), ("hyb", {}), ("fb", {})][i % 4]


def work(cx, task):
    tier, i, (d, (slope, hid, bias), box, eq, R, meth, (lam, eps), k) = task
    kind, kw_ = kind_of(i)
    S = lyap.System(kind, d, 3 + k, box=box, xeq=None if kind == "auto" else
                    eq, **kw_)
    C = lyap.Candidate(d, eq, 20 + k, lam, R, slope, hid, bias)
    kw = dict(config=[str(t) for t in task[2]], system=kind)
    L = lyapunov.LyapunovDiscreteTimeHybridSystem(S.obj, C.net)
    L.network_bound_propagate_method = lyap.METHODS[meth]
    L = nets.Aged(L, C.net, *S.params())
    xeq = T(eq)
    lamf, epsf = float(lam), float(eps)
    cs = C.add(lyap.start_cells(*box), "x")
    pts = lyap.points(cs, *box, 5 if d == 1 else 3, cap=30)
    cx.states(len(pts))
    # ---- the value, one state and a batch; V(x*) = 0
    X = torch.stack([T(p) for p in pts])
    X0, p0 = X.clone(), [q.detach().clone() for q in C.net.parameters()]
    B = L.lyapunov_value(X, xeq, lamf, R=C.Rt).detach().numpy()
    if B.shape != (len(pts), ):
        return cx.fail("values of a batch: wrong shape", got=B.shape, **kw)
    for j, p in enumerate(pts):
        want = float(C.V(p))
        one = float(L.lyapunov_value(X[j], xeq, lamf, R=C.Rt))
        cx.trans()
        if not (abs(one - want) <= 1e-9) or not (abs(B[j] - want) <= 1e-9):
            return cx.fail("lyapunov_value is not V", x=p, want=want,
                           got=[one, B[j]], **kw)
    if not (abs(float(L.lyapunov_value(xeq, xeq, lamf, R=C.Rt))) <= 1e-12):
        return cx.fail("V(x*) is not 0", **kw)
    for n in (1, 2):
        b = L.lyapunov_value(X[:n], xeq, lamf, R=C.Rt).detach().numpy()
        if not np.allclose(b.reshape(-1), B[:n]):
            return cx.fail("values depend on the batch size", n=n, **kw)
    if not torch.equal(X, X0) or any(not torch.equal(a, b) for a, b in zip(
            p0, C.net.parameters())):
        return cx.fail("arguments or network changed", **kw)
    # ---- which x* are accepted
    for p in cells.grid([a - F(1, 2) for a in map(F, box[0])],
                        [b + F(1, 2) for b in map(F, box[1])], 5):
        try:
            L.validate_x_equilibrium(T(p))
            ok = True
        except AssertionError:
            ok = False
        try:
            m = gtm.GurobiTorchMILP(lyap.DT)
            x = m.addVars(d, lb=-GRB.INFINITY)
            L.add_state_error_l1_constraint(m, T(p), x, R=C.Rt)
            ok2 = True
        except Exception:
            ok2 = False
        if ok != S.inside(p) or ok2 != S.inside(p):
            return cx.fail("x* wrongly accepted or refused", x=p, got=[ok, ok2
                                                                       ], **kw)
    # ---- the state error, with three binaries per row
    for binary3 in (False, True):
        m = gtm.GurobiTorchMILP(lyap.DT)
        x = m.addVars(d, lb=-GRB.INFINITY)
        s, al = L.add_state_error_l1_constraint(
            m, xeq, x, R=C.Rt, binary_for_zero_input=binary3)
        prog = Program(m.gurobi_model)
        if len(s) != len(C.R):
            return cx.fail("state error: wrong size", **kw)
        for p in pts:
            e = [lyap.dot(r, [a - b for a, b in zip(p, C.xeq)]) for r in C.R]
            n = 0
            seen = [set() for _ in e]
            for z, lo, up in prog.leaves(dict(zip(x, p))):
                n += 1
                cx.trans()
                ext = prog.extent(lo, up, [prog.unit(v) for v in s])
                zz = dict(zip(prog.bin, z))
                for r, (t, (mn, mx)) in enumerate(zip(e, ext)):
                    a = al[r] if isinstance(al[r], list) else [al[r]]
                    pat = tuple(int(round(zz[prog.index[v]])) for v in a)
                    seen[r].add(pat)
                    if not (abs(mn - abs(t)) <= TOL) or not (abs(mx - abs(t)) <= TOL):
                        return cx.fail("state error is not |R(x - x*)|", x=p,
                                       row=r, allowed=[mn, mx], want=abs(t),
                                       **kw)
            for r, t in enumerate(e):
                if len(al) != len(e):
                    return cx.fail("state error: wrong number of binaries",
                                   **kw)
                lo_ = sum(min(a * (b - q), a * (c - q)) for a, b, c, q in zip(
                    C.R[r], *[list(map(F, bb)) for bb in box], C.xeq))
                up_ = sum(max(a * (b - q), a * (c - q)) for a, b, c, q in zip(
                    C.R[r], *[list(map(F, bb)) for bb in box], C.xeq))
                if binary3:
                    # [s <= 0, s == 0, s >= 0], exactly one of them
                    may = {(1, 0, 0)} if t < 0 else {(0, 0, 1)} if t > 0 else \
                        {(1, 0, 0), (0, 1, 0), (0, 0, 1)}
                    need = may if t else {(0, 1, 0)}
                else:
                    may = {(0, )} if t < 0 else {(1, )} if t > 0 else \
                        {(0, ), (1, )}
                    need = may if t else set()
                    if lo_ >= 0 or up_ <= 0:
                        may = may | {(0, ), (1, )} if not t else may
                if not (need <= seen[r] <= may) and n:
                    return cx.fail("meaning of the binaries of the state "
                                   "error", x=p, row=r, value=t, got=seen[r],
                                   three=binary3, **kw)
            if not n:
                return cx.fail("state error excludes a state", x=p, **kw)
    # ---- the positivity program
    best, arg = cells.vmax(cs, lambda c: c.m[("l1", "x")][0] * F(eps) -
                           c.m[("V", "x")][0])
    # a unit whose input is 0 may be pinned either way by its bounds
    clean = [p for p in pts if all(
        t != 0 for q in cells.eval_layers(C.layers, p)[1] for t in q)]
    warm = [None] + clean[::max(1, len(clean) // 3)][
        :1 if tier == "quick" else 3]
    for w in warm:
        milp, x = L.lyapunov_positivity_as_milp(
            xeq, lamf, epsf, R=C.Rt,
            x_warmstart=None if w is None else T(w))
        prog = Program(milp.gurobi_model)
        if w is not None:
            z0 = [v.Start for v in prog.vars if v.VType == GRB.BINARY and
                  v.Start != GRB.UNDEFINED]
            # the start has to be consistent with the state it came from
            fix = dict(zip(x, w))
            fix.update({v: v.Start for v in prog.vars
                        if v.VType == GRB.BINARY and v.Start != GRB.UNDEFINED})
            if not z0 or not prog.feasible(fix):
                return cx.fail("the warm start is not feasible", x=w, start=z0,
                               **kw)
        for p in pts:
            want = eps * C.l1(p) - C.V(p)
            bad = lyap.check_fixed(cx, prog, x, p, [want])
            if bad is not None:
                return cx.fail("objective is not eps |R(x-x*)| - V(x)", x=p,
                               **bad, **kw)
        for j in range(d):
            for t in (F(box[0][j]) - F(1, 64), F(box[1][j]) + F(1, 64)):
                p = [(F(a) + F(b)) / 2 for a, b in zip(*box)]
                p[j] = t
                cx.trans()
                if prog.feasible(dict(zip(x, p))):
                    return cx.fail("a state outside of the box is allowed",
                                   x=p, **kw)
        c, const, mx = lyap.objective(prog)
        v, _ = prog.best(c, maximize=mx)
        if not mx or v is None or not (abs(v + const - float(best)) <= TOL):
            return cx.fail("optimum is not the maximum over the box",
                           got=None if v is None else v + const, want=best,
                           at=arg, **kw)
        got = lyap.solve(milp)
        cx.trans()
        if got is None or not (abs(got - float(best)) <= TOL):
            return cx.fail("solver optimum is not the maximum over the box",
                           got=got, want=best, at=arg, **kw)
        cx.outcome(round(float(best), 3))
    # ---- gradient of the optimum
    loss = milp.compute_objective_from_mip_data_and_solution(penalty=1e-13)
    if not (abs(float(loss) - float(best)) <= 1e-5):
        return cx.fail("objective from data is not the optimum",
                       got=float(loss), want=best, **kw)
    if meth != "IA":
        # the other bounds enter the rows as constants: at a vertex on such a
        # bound the active rows conflict when the network is perturbed
        return cx.traces()
    for q in C.net.parameters():
        q.grad = None
    loss.backward()
    h = F(1, 2**20)
    xs = [float(v.X) for v in x]
    kinks = sum(abs(float(t)) < 1e-6 for q in cells.eval_layers(
        C.layers, [F(t) for t in xs])[1] for t in q)
    rows = [np.eye(d)[j] for j in range(d) if min(
        abs(xs[j] - float(box[0][j])), abs(xs[j] - float(box[1][j]))) < 1e-6]
    rows += [fl(r) for r in C.R if abs(sum(
        float(a) * (b - float(q)) for a, b, q in zip(r, xs, C.xeq))) < 1e-6]
    if any(t == 0 for q in cells.eval_layers(C.layers, C.xeq)[1] for t in q):
        # phi(x*) is not differentiable in the network
        cx.count("x* on a kink (no gradient)")
        return cx.traces()
    if kinks + (np.linalg.matrix_rank(np.array(rows)) if rows else 0) > d:
        # degenerate: perturbing the network makes the active rows conflict
        cx.count("degenerate maximisers (no gradient)")
        return cx.traces()
    # is the maximiser unique?  compare one-sided derivatives of the maximum
    for q in C.net.parameters():
        g = np.zeros(q.numel()) if q.grad is None else \
            q.grad.detach().numpy().reshape(-1)
        for e in range(q.numel()):
            if cx.out_of_time():
                return
            old = float(q.data.view(-1)[e])
            if old == 0:
                # the interval bounds, which may be active, have a kink here
                cx.count("zero weights (no gradient)")
                continue
            d_ = []
            for sgn in (1, -1):
                q.data.view(-1)[e] = old + sgn * float(h)
                C.reread()
                c2 = C.add(lyap.start_cells(*box), "x")
                b2, _ = cells.vmax(c2, lambda c: c.m[("l1", "x")][0] * F(eps)
                                   - c.m[("V", "x")][0])
                d_.append(float((b2 - best) / (sgn * h)))
            q.data.view(-1)[e] = old
            C.reread()
            cx.trans()
            if abs(d_[0] - d_[1]) > 1e-4:
                cx.count("kinks of the optimum (no gradient)")
                continue
            if not (abs(g[e] - d_[0]) <= 1e-3 * max(1, abs(d_[0]))):
                # several maximisers with different gradients have a kink of
                # the maximum, which the one-sided derivatives exclude
                return cx.fail("gradient of the optimum is not the derivative"
                               " of the maximum", entry=e, got=g[e], at=xs,
                               want=d_, **kw)
            cx.count("gradient entries compared")
    cx.traces()
    cx.sample(config=kw["config"], points=len(pts), binaries=len(prog.bin),
              best=best)


def tasks(tier):
    return [(tier, i, c) for i, c in enumerate(configs(tier))]


if __name__ == "__main__":
    mc.main("C14", tasks, work, rule="every configuration (network, box, x*, "
            "R, bound method, lambda, eps) x every cell vertex/centre and "
            "grid point x every feasible binary assignment; optimum over all "
            "leaves against exact cell enumeration",
            assumptions=["the MIP stand-in holds what the code put in",
                         "tolerance 1e-6 on values, 1e-3 on gradients"])
