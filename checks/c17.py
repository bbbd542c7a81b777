"""
C17: region of attraction.  The certified level rho is checked against the
exact cells of the closed loop: every state of the box with V(x) < rho steps
back into the box (as long as the larger box holds all successors), rho never
exceeds the verified level, and rho is the exact optimum of the two stated
problems.  The programs behind it are walked: at every state and for every
binary assignment.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import nets  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import numpy as np  # noqa: E402
from lyap import T, GRB, Program  # noqa: E402

from neural_network_lyapunov import lyapunov  # noqa: E402

TOL = 1e-6


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, {}), ("auto", 1, 36, dict(scale=3)),
          ("autoeq", 1, 32, dict(scale=4)),
          ("autores", 1, 33, dict(slope=.125)), ("hyb", 1, 1, {}),
          ("hyb", 1, 5, dict(xeq=(F(1, 4), ), scale=F(3))),
          ("fb", 1, 34, {}), ("fb", 1, 35, dict(limits="tight", scale=3)),
          ("auto", 1, 37, dict(scale=.125))]
    S2 = [("auto", 2, 41, dict(scale=2)), ("autoeq", 2, 42, dict(scale=2)),
          ("autores", 2, 43, dict(scale=2)), ("hyb", 2, 2, {}),
          ("hyb", 2, 3, dict(xeq=(F(1, 4), F(-1, 2)), scale=F(2))),
          ("hyb", 2, 4, dict(xeq=(F(1, 4), F(-1, 2)), scale=F(1, 4))),
          ("fb", 2, 44, dict(scale=2)), ("auto", 2, 45, dict(shift=2)),
          ("autores", 2, 46, {})]
    if not quick:
        S1 += [("auto", 1, k, dict(slope=s, hidden=(2, 2), scale=z))
               for k in (51, 52) for s in ("relu", .25) for z in (1, 3)]
        S1 += [("hyb", 1, k, dict(scale=F(2))) for k in range(6, 12)]
        S1 += [("fb", 1, k, dict(limits=m)) for k in (55, 56)
               for m in ("wide", "mid", "tight")]
        S2 += [("auto", 2, k, dict(scale=2)) for k in (61, 62)]
        S2 += [("autoeq", 2, k, dict(hidden=3, scale=2)) for k in (63, 64)]
        S2 += [("hyb", 2, k, {}) for k in (6, 7, 8)]
        S2 += [("fb", 2, k, dict(scale=s)) for k in (65, 66) for s in (1, 3)]
    V1 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True),
          (.5, (2, 2), (False, True, True))]
    V2 = [("relu", (2, ), True), (.125, (2, ), False), ("relu", (1, ), True)]
    out = []
    k = 0
    for sys_ in S1 + S2:
        d = sys_[1]
        for v, R in itertools.product(V1 if d == 1 else V2, lyap.RS[d]):
            k += 1
            if quick and (k * 3 + k // 4) % (4 if d == 1 else 5):
                continue
            lam = [F(1, 2), F(2), F(1, 4)][k % 3]
            upper = [None, F(1, 8), F(4), F(1, 2)][k % 4]
            # the larger box: all successors / not all of them
            larger = ["all", "all", "snug", "part"][(k // 3) % 4]
            out.append((sys_, v, R, lam, upper, larger,
                        list(lyap.METHODS)[k % 4], k % 11))
    return out


def within(p, lo, up, tol=F(0)):
    return all(a - tol <= b <= c + tol for a, b, c in zip(lo, p, up))


def outside(p, lo, up, tol=F(0)):
    """ not in the open box """
    return any(b <= a + tol or b >= c - tol for a, b, c in zip(lo, p, up))


def shell(cs, name, lo, up, lo2, up2):
    """ parts of the cells with the map in [lo2, up2] minus the open box """
    ret = []
    cs = lyap.keep_box(cs, name, lo2, up2)
    for i in range(len(lo)):
        ret += lyap.keep(cs, lambda c: c.m[name][i] - up[i])
        ret += lyap.keep(cs, lambda c: (c.m[name][i] - lo[i]) * F(-1))
    return ret


def vmin(cs):
    if not cs:
        return None
    return -cells.vmax(cs, lambda c: c.m[("V", "x")][0] * F(-1))[0]


def work(cx, task):
    tier, cfg = task
    (kind, d, k0, skw), (slope, hid, bias), R, lam, upper, larger, meth, k = \
        cfg
    S = lyap.System(kind, d, k0, method=meth if kind.startswith("auto")
                    else "IA", **skw)
    C = lyap.Candidate(d, S.xeq, 90 + k, lam, R, slope, hid, bias)
    L = lyapunov.LyapunovDiscreteTimeHybridSystem(S.obj, C.net)
    L.network_bound_propagate_method = lyap.METHODS[meth]
    L = nets.Aged(L, C.net, *S.params())
    kw = dict(config=[str(t) for t in cfg])
    cs = C.add(S.cells(), "x")
    lo, up = S.xlo, S.xup
    # range of the successors
    ylo = [min(c.m["xn"][i](v) for c in cs for v in c.verts)
           for i in range(d)]
    yup = [max(c.m["xn"][i](v) for c in cs for v in c.verts)
           for i in range(d)]
    extra = {"all": F(1), "snug": F(0), "part": F(0)}[larger]
    lo2 = [min(a, b) - extra for a, b in zip(lo, ylo)]
    up2 = [max(a, b) + extra for a, b in zip(up, yup)]
    if larger == "part":
        lo2 = [b - max((b - a) / 2, F(1, 8)) for a, b in zip(lo2, lo)]
        up2 = [b + max((a - b) / 2, F(1, 8)) for a, b in zip(up2, up)]
    lo2f, up2f = lyap.fl(lo2), lyap.fl(up2)
    lo2f, up2f = (lo2f - 1e-9, up2f + 1e-9) if larger == "snug" else (
        lo2f, up2f)
    pts = lyap.points(cs, lo, up, 5 if d == 1 else 3,
                      cap=16 if tier == "quick" else 40)
    # states where a successor is on the surface of the box
    leave = shell(cs, "xn", lo, up, lo2, up2)
    pts = sorted(set(pts) | set(cells.vertices(leave)[:12]))
    cx.states(len(pts))
    xeq = T(S.xeq)
    args = (float(lam), C.Rt, xeq)
    # ---- the optima of the stated problems
    face = shell(cs, "x", lo, up, lo, up)
    obj1 = vmin(leave)
    obj2 = vmin(lyap.keep_box(face, "xn", lo, up))
    edge = vmin(face)
    upf = None if upper is None else float(upper)
    rho = L.compute_region_of_attraction(*args, upf, lo2f, up2f)
    cx.trans()
    cand = [float(t) for t in (obj1, obj2, upper) if t is not None]
    want = min(cand + [np.inf])
    cx.outcome(round(float(min(rho, 1e9)), 3),
               [t is not None and abs(float(t) - rho) < TOL
                for t in (obj1, obj2, upper)])
    # sound: what is certified stays in the box
    if larger != "part":
        for c in lyap.keep(cs, lambda c: (c.m[("V", "x")][0] - F(
                min(rho, 1e9)) + F(TOL)) * F(-1)):
            for v in c.verts:
                cx.trans()
                y = [f(v) for f in c.m["xn"]]
                if not within(y, lo, up, F(TOL)):
                    return cx.fail("a certified state leaves the box", x=v,
                                   y=y, V=C.V(v), rho=rho, **kw)
    if upper is not None and rho > float(upper) + TOL:
        return cx.fail("level above the verified one", rho=rho, upper=upper,
                       **kw)
    if not abs(min(rho, 1e9) - min(want, 1e9)) <= TOL * max(1, abs(
            min(want, 1e9))):
        return cx.fail("level is not the optimum of the stated problems",
                       rho=rho, want=want, obj1=obj1, obj2=obj2, **kw)
    if edge is None or (upf is None and rho > 1e9 and obj1 is not None):
        return cx.fail("no boundary", **kw)
    # ---- the programs, state by state
    for curr_in in (True, False):
        milp, x, xn, t, zeta = L._construct_milp_for_roa(
            *args, lo2f, up2f, curr_in)
        prog = Program(milp.gurobi_model)
        c, const, mx = lyap.objective(prog)
        if mx:
            return cx.fail("not a minimisation", **kw)
        box = [prog.unit(v) for v in xn]
        for p in pts:
            if cx.out_of_time():
                return
            exact = all(F(float(q)) == q for q in p)
            ys = S.succ(p)
            V = float(C.V(p))
            hit = []
            for z, l_, u_ in prog.leaves(dict(zip(x, p))):
                cx.trans()
                y = prog.extent(l_, u_, box)
                if not any(abs(a - float(b)) < TOL and abs(e - float(b)) < TOL
                           for q in ys for b, (a, e) in [(q[0], y[0])]):
                    return cx.fail("program allows another successor", x=p,
                                   got=y, want=ys, curr_in=curr_in, **kw)
                y = [a for a, _ in y]
                a, b = prog.extent(l_, u_, [c])[0]
                if not (abs(a + const - V) <= TOL) or not (abs(b + const - V) <= TOL):
                    return cx.fail("objective is not V(x)", x=p, want=V,
                                   got=[a + const, b + const], **kw)
                q = y if curr_in else p
                if curr_in and not (outside(q, lo, up, F(TOL)) and within(
                        q, lo2, up2, F(TOL))) or (not curr_in and not (
                        within(y, lo, up, F(TOL)) and outside(
                            p, lo, up, F(TOL)))):
                    return cx.fail("program allows a transition it should "
                                   "not", x=p, y=y, curr_in=curr_in, **kw)
                hit.append(tuple(y))
                # the box which is picked holds the point
                i = [prog.index[v] for v in zeta]
                if sum(round(l_[j]) for j in i) != 1:
                    return cx.fail("not exactly one box is picked", x=p, **kw)
            for y in ys if exact else []:
                ok = (outside(y, lo, up) and within(y, lo2, up2)) if curr_in \
                    else (within(y, lo, up) and outside(p, lo, up))
                cx.trans()
                if ok and not any(all(abs(a - float(b)) < TOL for a, b in zip(
                        g, y)) for g in hit):
                    return cx.fail("program misses a transition", x=p, y=y,
                                   curr_in=curr_in, **kw)
            cx.outcome(curr_in, len(hit))
    # ---- the boundary of the box
    milp, x = L._construct_milp_for_roa_boundary(*args)
    prog = Program(milp.gurobi_model)
    c, const, mx = lyap.objective(prog)
    v, _ = prog.best(c, maximize=False)
    for g in (None if v is None else v + const, lyap.solve(milp)):
        if g is None or mx or not (abs(g - float(edge)) <= TOL):
            return cx.fail("minimum over the boundary of the box", got=g,
                           want=edge, **kw)
    for p in pts:
        on = not all(a < b < e for a, b, e in zip(lo, p, up))
        ok = False
        for z, l_, u_ in prog.leaves(dict(zip(x, p))):
            ok = True
            a, b = prog.extent(l_, u_, [c])[0]
            if not (abs(a + const - float(C.V(p))) <= TOL) or \
                    not (abs(b + const - float(C.V(p))) <= TOL):
                return cx.fail("boundary: objective is not V(x)", x=p, **kw)
        cx.trans()
        if ok != on:
            return cx.fail("boundary: wrong state", x=p, got=ok, want=on, **kw)
    cx.traces()
    cx.sample(config=kw["config"], points=len(pts), rho=float(min(rho, 1e9)),
              obj1=obj1, obj2=obj2)


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C17", tasks, work, rule="every configuration (system, network, R,"
            " lambda, level, larger box) x every cell vertex/centre, grid "
            "point and exit vertex x every feasible binary assignment; the "
            "level against exact enumeration of all cells",
            assumptions=["the MIP stand-in holds what the code put in",
                         "tolerance 1e-6 on values"])
