"""
C16: the continuous-time Lyapunov derivative certificates.  At every state and
for every assignment of the binaries the objective of each MILP is one of the
values V'(x) + eps V(x) (one per weakly consistent linear piece of V and of
the dynamics), all the values that are limits from inside the box are there,
and the optimum over all binaries is their maximum.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import nets  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T, GRB, Program  # noqa: E402

from neural_network_lyapunov import lyapunov  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402
import neural_network_lyapunov.continuous_time_lyapunov as ctl  # noqa: E402

TOL = 1e-6
E = lyapunov.ConvergenceEps


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, {}), ("autoeq", 1, 32, {}),
          ("autores", 1, 33, dict(slope=.125)),
          ("hyb", 1, 1, {}), ("hyb", 1, 5, dict(xeq=(F(1, 4), )))]
    S2 = [("auto", 2, 41, {}), ("autoeq", 2, 42, {}),
          ("autores", 2, 43, dict(hidden=1)),
          ("hyb", 2, 2, {}), ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2))))]
    if not quick:
        S1 += [("auto", 1, k, dict(slope=s, hidden=(2, 2))) for k in (51, 54)
               for s in ("relu", .25)]
        S1 += [("autoeq", 1, k, dict(xeq=(1, ))) for k in (53, 54)]
        S1 += [("hyb", 1, k, {}) for k in range(6, 12)]
        S2 += [("auto", 2, k, {}) for k in (61, 62, 63)]
        S2 += [("hyb", 2, k, {}) for k in (6, 7, 8)]
    V1 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
          (.5, (2, 2), (False, True, True)), ("relu", (2, 2), True)]
    V2 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
          (.25, (2, 2), True)]
    levels = [(None, None), (0., None), (F(1, 8), F(3, 4)), (None, F(1, 2)),
              (F(-1), F(5))]
    out = []
    k = 0
    for sys_ in S1 + S2:
        d, hyb = sys_[1], sys_[0] == "hyb"
        for v, R in itertools.product(V1 if d == 1 else V2, lyap.RS[d]):
            if hyb and R not in ("none", "one", "eye"):
                continue
            for lev, form in itertools.product(
                    levels, ("milp", "milp2") if hyb else
                    ("IA", "LP", "MIP")):
                k += 1
                if (k * 5 + k // 15) % ((7 if hyb else 13) if quick else
                                        (1 if d == 1 else 2)):
                    continue
                lam, eps = [(F(1, 2), F(1, 4)), (F(2), F(1, 8)),
                            (F(0), F(1, 2))][k % 3]
                out.append((sys_, v, R, form, lev, lam, eps, k % 11))
    return out


def full(c):
    """ has interior """
    v = c.verts
    if len(v[0]) == 1:
        return len(v) == 2
    if len(v) < 3:
        return False
    return any((b[0] - a[0]) * (e[1] - a[1]) != (b[1] - a[1]) * (e[0] - a[0])
               for a, b, e in itertools.combinations(v, 3))


def vdot(c, eps):
    """ V' + eps V as an affine function on the cell """
    V = c.m[("V", "x")][0]
    f = V * eps
    for a, x in zip(V.a, c.m["xn"]):
        f = f + x * a
    return f


def contains(c, x):
    v = c.verts
    if len(v[0]) == 1:
        return min(v)[0] <= x[0] <= max(v)[0]
    if len(v) == 1:
        return tuple(x) == v[0]
    n = len(v)
    s = set()
    for i in range(n):
        a, b = v[i], v[(i + 1) % n]
        t = (b[0] - a[0]) * (x[1] - a[1]) - (b[1] - a[1]) * (x[0] - a[0])
        s.add((t > 0) - (t < 0))
    if {1, -1} <= s:
        return False
    if s == {0}:
        return all(min(p[i] for p in v) <= x[i] <= max(p[i] for p in v)
                   for i in range(2))
    return True


def work(cx, task):
    tier, cfg = task
    (kind, d, k0, skw), (slope, hid, bias), R, form, lev, lam, eps, k = cfg
    hyb = kind == "hyb"
    S = lyap.System(kind, d, k0, disc=False, **skw,
                    method="IA" if hyb else form)
    C = lyap.Candidate(d, S.xeq, 70 + k, lam, R, slope, hid, bias)
    if hyb:
        L = ctl.LyapunovContinuousTimeHybridSystem(S.obj, C.net)
        L.network_bound_propagate_method = lyap.METHODS[
            ["IA", "LP", "MIP", "IA_MIP"][k % 4]]
    else:
        L = ctl.LyapunovContinuousTimeSystem(S.obj, C.net)
        L.network_bound_propagate_method = lyap.METHODS[form]
    L = nets.Aged(L, C.net, *S.params())
    kw = dict(config=[str(t) for t in cfg])
    lo_f, up_f = [None if t is None else float(t) for t in lev]
    cs = C.add(S.cells(), "x")
    pts = lyap.points(cs, S.xlo, S.xup, 5 if d == 1 else 3,
                      cap=24 if tier == "quick" else 60)
    near = []  # states just beside the kinks of the norm
    for j in range(d):
        for s in (1, -1):
            q = list(S.xeq)
            q[j] += s * F(1, 2**11)
            if S.xlo[j] < q[j] < S.xup[j]:
                near.append(tuple(q))
    pts = sorted(set(pts) | set(near))
    cx.states(len(pts))
    xeq = T(S.xeq)
    may, need = {}, {}
    for p in pts:
        m, n = set(), set()
        for c in cs:
            if contains(c, p):
                t = vdot(c, eps)(p)
                m.add(t)
                if full(c):
                    n.add(t)
        may[p], need[p] = sorted(m), sorted(n)
        if not need[p]:
            raise mc.EngineProblem(f"no cell at {p}")
    # ---- by simulation: all values that patterns at x allow
    for p in pts:
        if hyb:
            got = L.lyapunov_derivative(T(p), xeq, float(lam), float(eps),
                                        C.Rt)
        else:
            got = L.lyapunov_derivative(T(p), xeq, float(lam), float(eps),
                                        R=C.Rt, zero_tol=1e-12)
        got = [float(v) for g in got for v in g.reshape(-1)]
        cx.trans()
        exact = all(F(float(t)) == t for t in p)
        near = lambda a, b: abs(a - float(b)) < 1e-8  # noqa: E731
        if not got or any(not any(near(g, w) for w in may[p]) for g in got):
            return cx.fail("lyapunov_derivative gives another value", x=p,
                           got=got, want=may[p], **kw)
        if exact and any(not any(near(g, w) for g in got)
                         for w in need[p]):
            return cx.fail("lyapunov_derivative misses a value", x=p, got=got,
                           want=need[p], **kw)
    # ---- programs
    def level_ok(p):
        V = C.V(p)
        return (lev[0] is None or V >= F(lev[0])) and (
            lev[1] is None or V <= F(lev[1]))
    feas = cs
    if lev[0] is not None:
        feas = lyap.keep(feas, lambda c: c.m[("V", "x")][0] - F(lev[0]))
    if lev[1] is not None:
        feas = lyap.keep(feas, lambda c: (c.m[("V", "x")][0] - F(lev[1]))
                         * F(-1))
    # a piece with interior before the level bounds are applied
    whole = [c for c in cs if full(c)]
    if lev[0] is not None:
        whole = lyap.keep(whole, lambda c: c.m[("V", "x")][0] - F(lev[0]))
    if lev[1] is not None:
        whole = lyap.keep(whole, lambda c: (c.m[("V", "x")][0] - F(lev[1]))
                          * F(-1))
    top = cells.vmax(feas, lambda c: vdot(c, eps))[0] if feas else None
    low = cells.vmax(whole, lambda c: vdot(c, eps))[0] if whole else None
    args = (xeq, float(lam), float(eps), E.ExpLower)
    kws = dict(R=C.Rt, lyapunov_lower=lo_f, lyapunov_upper=up_f)
    clean = [p for p in pts if all(
        t != 0 for q in cells.eval_layers(C.layers, p)[1] for t in q)]
    variants = [("", {})]
    if form == "milp":
        variants += [(" with a warm start", dict(x_warmstart=T(p)))
                     for p in clean[:1]]
    for what, extra in variants:
        fn = L.lyapunov_derivative_as_milp2 if form == "milp2" else \
            L.lyapunov_derivative_as_milp
        ret = fn(*args, **kws, **extra)
        prog = Program(ret.milp.gurobi_model)
        c, const, mx = lyap.objective(prog)
        if not mx:
            return cx.fail("not a maximisation" + what, **kw)
        if extra:
            st = [v.Start for v in ret.beta]
            want = [float(t > 0) for q in cells.eval_layers(
                C.layers, clean[0])[1] for t in q]
            if st != want:
                return cx.fail("warm start is not the activation pattern",
                               got=st, want=want, **kw)
        for p in pts if not extra else []:
            if cx.out_of_time():
                return
            hit = set()
            for z, lo, up in prog.leaves(dict(zip(ret.x, p))):
                cx.trans()
                if not level_ok(p):
                    return cx.fail("a state outside of the level bounds is "
                                   "allowed", x=p, V=C.V(p), **kw)
                mn, mx_ = prog.extent(lo, up, [c])[0]
                mn, mx_ = mn + const, mx_ + const
                j = [w for w in may[p] if abs(float(w) - mn) < TOL and
                     abs(float(w) - mx_) < TOL]
                if not j:
                    return cx.fail("objective is not a value of V' + eps V",
                                   x=p, allowed=[mn, mx_], want=may[p],
                                   binaries=z, **kw)
                hit.update(j)
            if level_ok(p) and not set(need[p]) <= hit:
                return cx.fail("a value of V' + eps V is missing", x=p,
                               want=need[p], got=sorted(hit), **kw)
            cx.outcome(len(hit))
        for j in range(d):
            for t in (S.xlo[j] - F(1, 64), S.xup[j] + F(1, 64)):
                p = [(a + b) / 2 for a, b in zip(S.xlo, S.xup)]
                p[j] = t
                if prog.feasible(dict(zip(ret.x, p))):
                    return cx.fail("a state outside of the box is allowed",
                                   x=p, **kw)
        v, _ = prog.best(c, maximize=True)
        for g, who in ((None if v is None else v + const, ""),
                       (lyap.solve(ret.milp), " (solver)")):
            cx.trans()
            if (g is None and low is not None) or (
                    g is not None and (top is None or g > float(top) + TOL or
                                       (low is not None and
                                        g < float(low) - TOL))):
                return cx.fail("optimum is not the maximum of V' + eps V" +
                               what + who, got=g, want=[low, top], **kw)
        cx.outcome(form, None if top is None else round(float(top), 3))
        if v is not None:
            loss = ret.milp.compute_objective_from_mip_data_and_solution(
                penalty=1e-13)
            if not (abs(float(loss) - v - const) <= 1e-5):
                return cx.fail("objective from data is not the optimum",
                               got=float(loss), want=v + const, **kw)
    if not hyb:
        relax = L.lyapunov_derivative_as_milp(
            *args, binary_var_type=gtm.BINARYRELAX, **kws)
        r = lyap.solve(relax.milp)
        if low is not None and (r is None or r < float(low) - TOL):
            return cx.fail("relaxation is below the optimum", got=r, want=low,
                           **kw)
    cx.traces()
    cx.sample(config=kw["config"], points=len(pts), binaries=len(prog.bin),
              best=top)


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C16", tasks, work, rule="every configuration (system, network, R,"
            " formulation, level bounds) x every cell vertex/centre and grid "
            "point x every feasible binary assignment; optimum over all "
            "leaves against exact cell enumeration",
            assumptions=["the MIP stand-in holds what the code put in",
                         "tolerance 1e-6 on values"])
