"""
C15: the discrete-time Lyapunov derivative certificate.  At every state and for
every assignment of the binaries the objective of the MILP is the stated
derivative condition of a true transition, the state is within the level
bounds and the box and so is the successor; its optimum over all binaries is
the exact maximum; warm starts and both ways of strengthening leave it alone.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import nets  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T, GRB, Program  # noqa: E402

from neural_network_lyapunov import lyapunov  # noqa: E402

TOL = 1e-6
E = lyapunov.ConvergenceEps


PARAMS = [GRB.Param.SolutionLimit, GRB.Param.DualReductions,
          GRB.Param.TimeLimit, GRB.Param.OutputFlag]


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, {}), ("autoeq", 1, 32, {}),
          ("autores", 1, 33, dict(slope=.125)), ("hyb", 1, 1, {}),
          ("hyb", 1, 5, dict(xeq=(F(1, 4), ), scale=F(1, 2))),
          ("fb", 1, 34, {}), ("fb", 1, 35, dict(limits="tight", scale=.5))]
    S2 = [("auto", 2, 41, dict(scale=.5)), ("autoeq", 2, 42, dict(scale=.5)),
          ("autores", 2, 43, dict(scale=.25)), ("hyb", 2, 2, {}),
          ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2)), scale=F(1, 2))),
          ("fb", 2, 44, dict(scale=.5))]
    if not quick:
        S1 += [("auto", 1, k, dict(slope=s, hidden=(2, 2))) for k in (51, 52)
               for s in ("relu", .25)]
        S1 += [("autoeq", 1, k, dict(xeq=(1, ))) for k in (53, 54)]
        S1 += [("hyb", 1, k, {}) for k in range(6, 12)]
        S1 += [("fb", 1, k, dict(limits=m)) for k in (55, 56)
               for m in ("wide", "mid", "tight")]
        S2 += [("auto", 2, k, dict(scale=.5)) for k in (61, 62)]
        S2 += [("autoeq", 2, k, dict(hidden=3, scale=.5)) for k in (63, 64)]
        S2 += [("hyb", 2, k, dict(scale=F(1, 2))) for k in (6, 7, 8)]
    V1 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
          (.5, (2, 2), (False, True, True))]
    V2 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True)]
    types = ["ExpLower", "ExpUpper", "Asymp"]
    levels = [(None, None), (0., None), (F(1, 8), F(3, 4)), (None, F(1, 2)),
              (F(-1), F(5)), (F(1, 4), F(1, 4))]
    out = []
    k = 0
    for sys_ in S1 + S2:
        d = sys_[1]
        for v, R in itertools.product(V1 if d == 1 else V2, lyap.RS[d]):
            for ty, lev in itertools.product(types, levels):
                k += 1
                if (k * 7 + k // 18) % (29 if quick else (3 if d == 1 else 9)
                                        ):
                    continue
                lam, eps = [(F(1, 2), F(1, 4)), (F(2), F(1, 8)),
                            (F(1, 4), F(1, 2))][k % 3]
                meth = list(lyap.METHODS)[k % 4]
                out.append((sys_, v, R, ty, lev, lam, eps, meth, k % 11))
    return out


def derivative(ty, C, eps, x, xn):
    V0, V1 = C.V(x), C.V(xn)
    if ty == "ExpLower":
        return V1 - V0 + eps * V0
    if ty == "ExpUpper":
        return -(V1 - V0 + eps * V0)
    return V1 - V0 + eps * C.l1(x)


def derivative_aff(ty, eps):
    def fn(c):
        V0, V1 = c.m[("V", "x")][0], c.m[("V", "xn")][0]
        if ty == "Asymp":
            return V1 - V0 + c.m[("l1", "x")][0] * eps
        d = V1 - V0 * (1 - eps)
        return d if ty == "ExpLower" else d * F(-1)
    return fn


def build(task):
    (kind, d, k0, skw), (slope, hid, bias), R, ty, lev, lam, eps, meth, k = \
        task
    S = lyap.System(kind, d, k0, method=meth if kind.startswith("auto")
                    else "IA", **skw)
    C = lyap.Candidate(d, S.xeq, 70 + k, lam, R, slope, hid, bias)
    L = lyapunov.LyapunovDiscreteTimeHybridSystem(S.obj, C.net)
    L.network_bound_propagate_method = lyap.METHODS[meth]
    return S, C, nets.Aged(L, C.net, *S.params())


def work(cx, task):
    tier, cfg = task
    sys_, _, R, ty, lev, lam, eps, meth, k = cfg
    S, C, L = build(cfg)
    kw = dict(config=[str(t) for t in cfg])
    d = S.d
    lo_f, up_f = [None if t is None else float(t) for t in lev]
    cs = C.add(S.cells(), "x")
    cs = C.add(cs, "xn")
    pts = lyap.points(cs, S.xlo, S.xup, 5 if d == 1 else 3,
                      cap=24 if tier == "quick" else 60)
    cx.states(len(pts))
    xeq = T(S.xeq)
    # ---- the derivative by simulation
    for p in pts:
        got = [float(v) for v in L.lyapunov_derivative(
            T(p), xeq, float(lam), float(eps), R=C.Rt)]
        want = [float(derivative("ExpLower", C, eps, p, q))
                for q in S.succ(p)]
        cx.trans()
        if any(F(float(t)) != t for t in p) and len(want) > 1:
            # rounded off the boundary of the modes: any of them
            want = [w for w in want if any(abs(w - g) < 1e-9 for g in got)]
            cx.count("rounded boundary points")
        if len(got) != len(want) or not got or any(
                not (abs(a - b) <= 1e-9) for a, b in zip(got, want)):
            return cx.fail("lyapunov_derivative is not V(x+) - V(x) + eps V",
                           x=p, got=got, want=want, **kw)
    # ---- the exact optimum
    feas = lyap.keep_box(cs, "xn", S.xlo, S.xup)
    if lev[0] is not None:
        feas = lyap.keep(feas, lambda c: c.m[("V", "x")][0] - F(lev[0]))
    if lev[1] is not None:
        feas = lyap.keep(feas, lambda c: (c.m[("V", "x")][0] - F(lev[1]))
                         * F(-1))
    best = cells.vmax(feas, derivative_aff(ty, eps))[0] if feas else None
    pts = sorted(set(pts) | set(cells.vertices(feas)[:12]))
    wants = {}
    for p in pts:
        V = C.V(p)
        wants[p] = [derivative(ty, C, eps, p, q) for q in S.succ(p)
                    if S.inside(q)]
        if (lev[0] is not None and V < F(lev[0])) or (
                lev[1] is not None and V > F(lev[1])):
            wants[p] = []

    def compare(ret, what, cut=False, fixed=True):
        prog = Program(ret.milp.gurobi_model)
        c, const, mx = lyap.objective(prog)
        if not mx:
            cx.fail("not a maximisation" + what, **kw)
            return False
        if fixed:
            for p in pts:
                w = wants[p]
                bad = lyap.check_fixed(cx, prog, ret.x, p, w) if not cut else \
                    None
                if bad is not None:
                    cx.fail("objective is not the derivative condition" +
                            what, x=p, **bad, **kw)
                    return False
                # the successor variable is the successor
                if not w:
                    continue
                ss = [q for q in S.succ(p) if S.inside(q)]
                for z, lo, up in prog.leaves(dict(zip(ret.x, p))):
                    ext = prog.extent(lo, up, [prog.unit(v)
                                               for v in ret.x_next])
                    cx.trans()
                    if not any(all(abs(mn - float(t)) < TOL and
                                   abs(mx_ - float(t)) < TOL
                                   for (mn, mx_), t in zip(ext, q))
                               for q in ss):
                        cx.fail("x_next is not the successor" + what, x=p,
                                allowed=ext, want=ss, **kw)
                        return False
        v, z = prog.best(c, maximize=mx)
        got = None if v is None else v + const
        sol = lyap.solve(ret.milp)
        cx.trans(2)
        for g, who in ((got, ""), (sol, " (solver)")):
            if cut and (best is None or best < 0):
                # may cut off non-adversarial states only
                if g is not None and (best is None or g > float(best) + TOL):
                    cx.fail("optimum grew" + what + who, got=g, want=best,
                            **kw)
                    return False
                continue
            if (g is None) != (best is None) or (
                    g is not None and not (abs(g - float(best)) <= TOL)):
                cx.fail("optimum is not the maximum of the derivative "
                        "condition" + what + who, got=g, want=best, **kw)
                return False
        return prog

    args = (xeq, float(lam), float(eps), E[ty])
    kws = dict(R=C.Rt, lyapunov_lower=lo_f, lyapunov_upper=up_f)
    ret = L.lyapunov_derivative_as_milp(*args, **kws)
    prog = compare(ret, "")
    if prog is False:
        return
    cx.outcome(ty, None if best is None else round(float(best), 3))
    # ---- the returned lists name every variable of the dynamics and of the
    # two Lyapunov networks once (the rest: signs and sizes of the 1-norms,
    # the two input limits)
    sat = 2 if S.kind == "fb" else 0
    named = [v for part in ("x", "x_next", "s", "gamma", "z", "z_next", "beta",
                            "beta_next") for v in getattr(ret, part)]
    names = {v.VarName for v in named}
    rest = [v for v in prog.vars if v.VarName not in names]
    binary = {prog.vars[i].VarName for i in prog.bin}
    nR = len(ret.x) if C.Rt is None else C.Rt.shape[0]
    if len(named) != len({id(v) for v in named}) or \
            sum(v.VarName in binary for v in rest) > 2 * nR + sat or \
            len(rest) > 4 * nR + 2 * sat or \
            any(v.VarName not in binary
                for part in ("gamma", "beta", "beta_next")
                for v in getattr(ret, part)):
        return cx.fail("returned variables do not name the variables of the "
                       "program", rest=[v.VarName for v in rest], **kw)
    if best is not None:
        loss = ret.milp.compute_objective_from_mip_data_and_solution(
            penalty=1e-13)
        if not (abs(float(loss) - float(best)) <= 1e-5):
            return cx.fail("objective from data is not the optimum",
                           got=float(loss), want=best, **kw)
    # ---- warm start: the activations of the given state, and nothing else
    def pre(net_layers, q):
        return [t for r in cells.eval_layers(net_layers, q)[1] for t in r]
    ws = []
    for p in pts:
        ss = S.succ(p)
        if len(ss) != 1 or any(t == 0 for t in pre(C.layers, p) + pre(
                C.layers, ss[0])):
            continue
        if S.kind.startswith("auto") and any(t == 0 for t in pre(S.layers,
                                                                 p)):
            continue
        ws.append((p, ss[0]))
    for p, q in ws[:: max(1, len(ws) // 2)][:1 if tier == "quick" else 3]:
        retw = L.lyapunov_derivative_as_milp(*args, x_warmstart=T(p), **kws)
        progw = compare(retw, " with a warm start", fixed=False)
        if progw is False:
            return
        fix = dict(zip(retw.x, p))
        started = {v: v.Start for v in progw.vars
                   if v.Start != GRB.UNDEFINED}
        fix.update(started)
        if not started:
            return cx.fail("warm start: nothing was started", x=p, **kw)
        if wants[p] and not progw.feasible(fix):
            return cx.fail("warm start is not feasible", x=p, **kw)
        if not wants[p]:
            n = len(pre(C.layers, p))
            got = [[v.Start for v in b] for b in (retw.beta, retw.beta_next)]
            want = [[float(t > 0) for t in pre(C.layers, r)] for r in (p, q)]
            if got != want or n != len(got[0]):
                return cx.fail("warm start is not the activation pattern",
                               x=p, got=got, want=want, **kw)
    # ---- strengthened
    if best is not None:
        for npts in ((1, ) if tier == "quick" else (0, 1, 3)):
            if cx.out_of_time():
                return
            rets = L.strengthen_lyapunov_derivative_as_milp(*args, npts, **kws)
            ps = compare(rets, f" after strengthening {npts}x")
            if ps is False:
                return
            if len(ps.bin) != len(prog.bin):
                return cx.fail("strengthening lost binaries", got=len(ps.bin),
                               want=len(prog.bin), **kw)
        # the relaxation contains every true transition
        relax = L.lyapunov_derivative_as_milp(
            *args, binary_var_type=lyapunov.gurobi_torch_mip.BINARYRELAX,
            **kws)
        r = lyap.solve(relax.milp)
        if Program(relax.milp.gurobi_model).bin:
            return cx.fail("relaxation has binaries", **kw)
        if r is None or r < float(best) - TOL:
            return cx.fail("relaxation is below the optimum", got=r,
                           want=best, **kw)
    params = [ret.milp.gurobi_model.getParamInfo(q)[2] for q in PARAMS]
    before = len(ret.milp.gurobi_model.getConstrs())
    L.strengthen_lyapunov_derivative_milp_binary(
        ret, None if tier == "quick" else {GRB.Param.TimeLimit: 1000.})
    ret.milp.gurobi_model.update()
    after = len(ret.milp.gurobi_model.getConstrs())
    if after - before > len(ret.beta) or after < before:
        return cx.fail("binary strengthening left rows behind", before=before,
                       after=after, **kw)
    cx.count("rows added by binary strengthening", after - before)
    if params != [ret.milp.gurobi_model.getParamInfo(q)[2] for q in PARAMS]:
        return cx.fail("binary strengthening changed solver parameters", **kw)
    if compare(ret, " after binary strengthening", cut=True) is False:
        return
    if best is not None and best >= 0:
        loss = ret.milp.compute_objective_from_mip_data_and_solution(
            penalty=1e-13)
        if not (abs(float(loss) - float(best)) <= 1e-5):
            return cx.fail("objective from data after binary strengthening",
                           got=float(loss), want=best, **kw)
    cx.traces()
    cx.sample(config=kw["config"], points=len(pts), binaries=len(prog.bin),
              best=best)


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C15", tasks, work, rule="every configuration (system, network, R,"
            " kind of convergence, level bounds) x every cell vertex/centre "
            "and grid point x every feasible binary assignment; optimum over "
            "all leaves against exact cell enumeration; again with warm "
            "starts and after strengthening",
            assumptions=["the MIP stand-in holds what the code put in",
                         "tolerance 1e-6 on values"])
