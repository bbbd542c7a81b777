"""
C05: the primitive mixed-integer encodings (binary x continuous, gradient x
value, ReLU / leaky ReLU, absolute value, max, saturation, box boundary) are
exact for every input, every binary assignment and every ordering of bounds.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402
from mip import Encoding  # noqa: E402

from neural_network_lyapunov import utils, gurobi_torch_mip  # noqa: E402

PTS = (-2., -1., -0.25, 0., 0.5, 1., 3.)
DT = torch.float64


def t(v):
    return torch.tensor(v, dtype=DT)


def tasks(tier):
    ret = [("product", ), ("relu", ), ("abs", )]
    ret += [("gradx", s) for s in (0., 0.125, 1., 1.25, 2., -0.5)]
    ret += [("leaky", s) for s in (0., 0.125, 1., 1.25, 2., -0.5)]
    ret += [("max", n, i) for n in (1, 2, 3) for i in range(
        1 if n < 3 else 8)]
    n = 6 if tier == "quick" else 7
    ret += [("sat", n, i, k) for i in range(n)
            for k in ("binary", "relaxed", "continuous")]
    ret += [("box", n) for n in (1, 2, 3)]
    ret += [("gradient", k) for k in BUILDERS]
    return ret


def srange(A_x, A_s, A_z, rhs, x, z, tol=1e-9):
    """ {s : A_x x + A_s s + A_z z <= rhs} is an interval """
    lo, up = -np.inf, np.inf
    for a, s, b, r in zip(A_x.tolist(), A_s.tolist(), A_z.tolist(),
                          rhs.tolist()):
        res = r - a * x - b * z
        if s > 0:
            up = min(up, res / s)
        elif s < 0:
            lo = max(lo, res / s)
        elif res < -tol:
            return None
    return (lo, up) if lo <= up + tol else None


def expect(cx, key, rng, want, **kw):
    """ rng: interval or None; want: value or None """
    cx.trans()
    cx.outcome(key, want)
    if want is None:
        if rng is not None:
            cx.fail(key + ": wrong assignment admitted", got=rng, **kw)
    elif rng is None:
        cx.fail(key + ": cut off", want=want, **kw)
    elif not (abs(rng[0] - want) <= 1e-7) or not (abs(rng[1] - want) <= 1e-7):
        cx.fail(key + ": not exact", got=rng, want=want, **kw)


def intervals(strict=False):
    return [(a, b) for a in PTS for b in PTS if (a < b if strict else a <= b)]


def xs_in(lo, up):
    return sorted({lo, up, (lo + up) / 2} | {p for p in PTS if lo <= p <= up})


def product(cx):
    for lo, up in intervals():
        for conv in (t, float):
            A = utils.replace_binary_continuous_product(conv(lo), conv(up))
            for x in xs_in(lo, up):
                for a in (0., 1.):
                    cx.states()
                    expect(cx, "binary-continuous product",
                           srange(*A[:2], A[2], A[3], x, a), a * x, x=x,
                           alpha=a, bounds=(lo, up))


def gradx(cx, c):
    for lo, up in intervals():
        for conv in (t, float):
            A = utils.leaky_relu_gradient_times_x(conv(lo), conv(up), c)
            for x in xs_in(lo, up):
                for a in (0., 1.):
                    cx.states()
                    expect(cx, "leaky gradient product",
                           srange(*A[:2], A[2], A[3], x, a),
                           x if a else c * x, x=x, alpha=a, slope=c,
                           bounds=(lo, up))


def leaky(cx, c, relu=False):
    for lo, up in intervals():
        if not (lo < 0 < up):
            continue
        if relu:
            A = utils.replace_relu_with_mixed_integer_constraint(
                t(lo), t(up))
        else:
            A = utils.replace_leaky_relu_mixed_integer_constraint(
                c, t(lo), t(up))
        for x in xs_in(lo, up):
            for z in (0., 1.):
                ok = x == 0 or (x > 0) == (z > 0) or c == 1
                cx.states()
                r = srange(*A[:2], A[2], A[3], x, z)
                expect(cx, "relu" if relu else "leaky relu", r,
                       (x if x > 0 else c * x) if ok else None, x=x, beta=z,
                       slope=c, bounds=(lo, up))


def absolute(cx):
    for lo, up in intervals():
        for zero in (False, True):
            for conv in (t, float):
                ret = utils.absolute_value_as_mixed_integer_constraint(
                    conv(lo), conv(up), zero)
                enc = Encoding(ret, num_input=1)
                if enc.nb != (3 if zero else 1):
                    cx.fail("absolute value: number of binaries", nb=enc.nb)
                for x in xs_in(lo, up):
                    feas = 0
                    for z in itertools.product((0., 1.), repeat=enc.nb):
                        lo_b, up_b = enc.g["binary_lo"], enc.g["binary_up"]
                        z = np.array(z)
                        inb = (lo_b is None or np.all(z >= lo_b)) and (
                            up_b is None or np.all(z <= up_b))
                        r = enc.at(np.array([x]), z) if inb else None
                        if zero:
                            means = [x <= 0, x == 0, x >= 0]
                            ok = z.sum() == 1 and means[int(np.argmax(z))]
                        else:
                            ok = x >= 0 if z[0] else x <= 0
                        cx.states()
                        cx.trans()
                        cx.outcome("abs", x, zero, tuple(z), r is None)
                        if r is None:
                            continue
                        feas += 1
                        if not ok:
                            cx.fail("absolute value: wrong assignment",
                                    x=x, z=z, bounds=(lo, up), zero=zero)
                        if not (abs(r[0][0] - abs(x)) <= 1e-7) or not (abs(
                                r[1][0] - abs(x)) <= 1e-7):
                            cx.fail("absolute value: not exact", x=x, z=z,
                                    bounds=(lo, up), zero=zero, got=r[:2])
                    if zero and lo < 0 < up and feas != (
                            3 if x == 0 else 1):
                        cx.fail("absolute value: assignments", x=x,
                                bounds=(lo, up), feasible=feas)
                    if feas == 0:
                        cx.fail("absolute value: cut off", x=x, zero=zero,
                                bounds=(lo, up))


def vmaxenc(cx, n, part):
    itv = [(-1., 1.), (-2., 0.), (0.5, 2.), (1., 1.), (-1., -1.), (2., 3.)]
    if n == 3:
        itv = itv[:5]
    combos = list(itertools.product(itv, repeat=n))
    if n == 3:
        combos = combos[part::8]
    for bx in combos:
        lo, up = t([b[0] for b in bx]), t([b[1] for b in bx])
        ret = utils.max_as_mixed_integer_constraint(lo, up)
        enc = Encoding(ret, num_input=n)
        axes = [sorted({b[0], b[1], (b[0] + b[1]) / 2}) for b in bx]
        for x in itertools.product(*axes):
            feas = 0
            for z in enc.binaries():
                r = enc.at(np.array(x), z)
                cx.states()
                cx.trans()
                if r is None:
                    continue
                feas += 1
                if z.sum() != 1 or x[int(np.argmax(z))] != max(x):
                    cx.fail("max: wrong index selected", x=x, z=z, box=bx)
                if not (abs(r[0][0] - max(x)) <= 1e-7) or not (abs(r[1][0] -
                                                       max(x)) <= 1e-7):
                    cx.fail("max: not exact", x=x, z=z, box=bx, got=r[:2])
            cx.outcome("max", x, feas)
            if feas == 0:
                cx.fail("max: cut off", x=x, box=bx)


SATPTS = (-3., -1., -0.5, 0., 0.5, 1., 3.)


def sat(cx, n, i, kind):
    """ every ordering of lower_limit <= upper_limit and the input bounds """
    pts = SATPTS[:n]
    lower = pts[i]
    for upper in pts:
        if upper <= lower:
            continue
        for lo in pts:
            for up in pts:
                if up <= lo:
                    continue
                vt = {"binary": gurobipy.GRB.BINARY,
                      "relaxed": gurobi_torch_mip.BINARYRELAX,
                      "continuous": gurobipy.GRB.CONTINUOUS}[kind]
                for x in sorted({lo, up, (lo + up) / 2} |
                                {p for p in pts if lo <= p <= up}):
                    mip = gurobi_torch_mip.GurobiTorchMILP(DT)
                    xv = mip.addVars(1, lb=-gurobipy.GRB.INFINITY)
                    yv = mip.addVars(1, lb=-gurobipy.GRB.INFINITY)
                    bv = utils.add_saturation_as_mixed_integer_constraint(
                        mip, xv[0], yv[0], lower, upper, lo, up, vt)
                    mip.addLConstr([t([1.])], [xv], rhs=x,
                                   sense=gurobipy.GRB.EQUAL)
                    m = mip.gurobi_model
                    m.setParam("OutputFlag", 0)
                    want = min(max(x, lower), upper)
                    rng = []
                    cx.states()
                    for s in (gurobipy.GRB.MINIMIZE, gurobipy.GRB.MAXIMIZE):
                        mip.setObjective([t([1.])], [yv], 0., s)
                        m.optimize()
                        if m.status != gurobipy.GRB.Status.OPTIMAL:
                            rng = None
                            break
                        rng.append(m.ObjVal)
                    kw = dict(x=x, limits=(lower, upper), bounds=(lo, up))
                    nb = int(lo < lower < up) + int(lo < upper < up)
                    if len(bv) != nb:
                        cx.fail("saturation: number of binaries", got=len(bv),
                                want=nb, **kw)
                        continue
                    if kind != "binary":
                        cx.trans()
                        if rng is None or not (rng[0] <= want + 1e-7 and
                                               rng[1] >= want - 1e-7):
                            cx.fail("saturation: relaxation excludes value",
                                    got=rng, want=want, **kw)
                        continue
                    expect(cx, "saturation", rng, want, **kw)
                    # meaning of the binaries: every assignment
                    names = ([x <= lower] if lo < lower < up else []) + (
                        [x >= upper] if lo < upper < up else [])
                    free = ([x >= lower] if lo < lower < up else []) + (
                        [x <= upper] if lo < upper < up else [])
                    for z in itertools.product((0., 1.), repeat=nb):
                        for v, val in zip(bv, z):
                            v.lb = v.ub = val
                        m.optimize()
                        feas = m.status == gurobipy.GRB.Status.OPTIMAL
                        ok = all(a if zi else f
                                 for a, f, zi in zip(names, free, z))
                        cx.states()
                        cx.trans()
                        if feas and not ok:
                            cx.fail("saturation: wrong binary admitted", z=z,
                                    **kw)
                cx.traces()


def box(cx, n):
    itv = [(-1., 1.), (0., 2.), (0.5, 0.5)]
    for bx in itertools.product(itv, repeat=n):
        lo, up = t([b[0] for b in bx]), t([b[1] for b in bx])
        ret = utils.box_boundary(lo, up)
        enc = Encoding(ret, num_input=n)
        axes = [sorted({b[0] - 0.5, b[0], (b[0] * 3 + b[1]) / 4,
                        (b[0] + b[1]) / 2, b[1], b[1] + 0.25}) for b in bx]
        for x in itertools.product(*axes):
            zs = list(enc.binaries())
            feas = False
            for z in zs:
                cx.trans()
                feas = feas or enc.at(np.array(x), z) is not None
            inside = all(a <= v <= b for v, (a, b) in zip(x, bx))
            want = inside and any(v in b for v, b in zip(x, bx))
            cx.states()
            cx.outcome("box", x, want)
            if feas != want:
                cx.fail("box boundary", x=x, box=bx, got=feas, want=want)


def fields(ret):
    if isinstance(ret, (tuple, list)):
        return list(enumerate(ret))
    return sorted((k, v) for k, v in vars(ret).items()
                  if isinstance(v, torch.Tensor))


def sat_block(lower, upper):
    def build(lo, up):
        mip = gurobi_torch_mip.GurobiTorchMILP(DT)
        xv = mip.addVars(1, lb=-gurobipy.GRB.INFINITY)
        yv = mip.addVars(1, lb=-gurobipy.GRB.INFINITY)
        utils.add_saturation_as_mixed_integer_constraint(
            mip, xv[0], yv[0], lower, upper, lo[0], up[0],
            gurobipy.GRB.BINARY)
        rows = set(range(len(mip.rhs_in)))
        ret = []
        for z in (0., 1.):
            ret += mip.get_active_constraints(
                rows, torch.full((len(mip.zeta), ), z, dtype=DT))
        return ret
    return build


BUILDERS = {
    "product": (1, lambda lo, up: utils.replace_binary_continuous_product(
        lo[0], up[0])),
    "relu": (1, lambda lo, up:
             utils.replace_relu_with_mixed_integer_constraint(lo[0], up[0])),
    "abs": (1, lambda lo, up:
            utils.absolute_value_as_mixed_integer_constraint(
                lo[0], up[0], False)),
    "abs with zero": (1, lambda lo, up:
                      utils.absolute_value_as_mixed_integer_constraint(
                          lo[0], up[0], True)),
    "max": (2, utils.max_as_mixed_integer_constraint),
    "max of 3": (3, utils.max_as_mixed_integer_constraint),
    "box": (2, utils.box_boundary),
}
for _c in (0., 0.125, 1., 1.25, 2., -0.5):
    BUILDERS[f"gradx {_c}"] = (
        1, lambda lo, up, c=_c: utils.leaky_relu_gradient_times_x(
            lo[0], up[0], c))
    BUILDERS[f"leaky {_c}"] = (
        1, lambda lo, up, c=_c:
        utils.replace_leaky_relu_mixed_integer_constraint(c, lo[0], up[0]))
for _l in ((-1., 1.), (-0.5, 3.), (0.25, 0.5)):
    BUILDERS[f"saturation {_l}"] = (1, sat_block(*_l))


def gradient(cx, key):
    """ the encoding is a function of the bounds: the derivatives that it
    carries are its own (central differences, away from ties) """
    n, build = BUILDERS[key]
    vals = [(-1.25, 0.75), (-2.25, -0.375), (0.375, 2.75)]
    if key[:4] in ("relu", "leak"):
        vals = [(-1.25, 0.75), (-0.125, 2.5)]
    elif key[:4] == "satu":
        vals += [(-0.25, 0.375), (-1.5, 3.5), (0.3, 4.)]
    h = 2.**-12
    for bx in itertools.product(vals, repeat=n):
        if len(set(bx)) < len(bx):
            bx = [(a - 0.0625 * i, b + 0.03125 * i)
                  for i, (a, b) in enumerate(bx)]
        v0 = torch.tensor([b[0] for b in bx] + [b[1] for b in bx], dtype=DT)

        def f(v):
            return fields(build(v[:n], v[n:]))
        v = v0.clone().requires_grad_(True)
        got = f(v)
        for i in range(2 * n):
            e = torch.zeros(2 * n, dtype=DT)
            e[i] = h
            hi, lo = f(v0 + e), f(v0 - e)
            for (name, a), (_, b), (_, c) in zip(got, hi, lo):
                if not isinstance(a, torch.Tensor) or a.numel() == 0:
                    continue
                if a.shape != b.shape or a.shape != c.shape:
                    continue
                want = ((b - c) / (2 * h)).detach().reshape(-1)
                cx.states()
                for k, w in enumerate(want.tolist()):
                    if not np.isfinite(w):
                        continue
                    y = a.reshape(-1)[k]
                    g = 0.
                    if y.requires_grad:
                        q = torch.autograd.grad(y, v, retain_graph=True,
                                                allow_unused=True)[0]
                        g = 0. if q is None else q[i].item()
                    cx.trans()
                    cx.outcome("gradient", key, round(w, 6))
                    if not (abs(g - w) <= 1e-6):
                        cx.fail("derivative with respect to the bounds",
                                encoding=key, field=name, entry=k, bounds=bx,
                                wrt=i, got=g, want=w)


def work(cx, task):
    k = task[0]
    if k == "gradient":
        gradient(cx, task[1])
    elif k == "product":
        product(cx)
    elif k == "relu":
        leaky(cx, 0., relu=True)
    elif k == "abs":
        absolute(cx)
    elif k == "gradx":
        gradx(cx, task[1])
    elif k == "leaky":
        leaky(cx, task[1])
    elif k == "max":
        vmaxenc(cx, *task[1:])
    elif k == "sat":
        sat(cx, *task[1:])
    else:
        box(cx, task[1])
    cx.traces()
    cx.sample(task=task, states=cx.counts["states"])


if __name__ == "__main__":
    mc.main(
        "C05", tasks, work,
        rule="every interval over a 7-point alphabet (all sign cases and "
        "degenerate), every alphabet point inside it, every binary "
        "assignment; every ordering of saturation limits and input bounds")
