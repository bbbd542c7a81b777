"""
C02: every bound the library reports for a network (unit inputs, unit outputs,
network outputs; by interval arithmetic, LP, MIP, IA+MIP) encloses the exact
range over the box, the MIP bounds are the exact range, tighter methods are
never looser, and the range utilities the bounds are built from are exact.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
from fractions import Fraction as F  # noqa: E402

from neural_network_lyapunov import relu_to_optimization as r2o  # noqa: E402
from neural_network_lyapunov import mip_utils, utils  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip  # noqa: E402
import gurobipy  # noqa: E402

METHODS = ("IA", "LP", "MIP", "IA_MIP")


def tasks(tier):
    ret = []
    fam = list(nets.tiny_family())
    for s in ("relu", 0.125, -0.5, 2.):
        for bi in range(len(nets.BOXES1)):
            for i in range(0, len(fam), 54):
                ret.append(("tiny", s, i, i + 54, bi, ("IA", )))
        for i in range(0, len(fam), 6 if tier == "quick" else 2):
            ret.append(("tiny", s, i, i + 1, (i // 6) % 5, METHODS))
    extra = 1 if tier == "quick" else 8
    for j in range(len(nets.CURATED)):
        for k in range(extra + 1):
            for bi in range(len(nets.boxes(nets.CURATED[j][0][0]))):
                if tier == "quick" and bi == 3:
                    continue
                ret.append(("curated", j, k, bi, METHODS))
    for j in range(len(nets.CURATED)):
        d = nets.CURATED[j][0][0]
        for bi in range(len(nets.boxes(d))):
            ret.append(("cut", j, bi))
    ret.append(("ia", ))
    ret.append(("lp", ))
    ret.append(("leaky_interval", ))
    ret.append(("polytope", ))
    return ret


def exact_ranges(layers, lo, up):
    cs = cells.network([cells.box_cell(lo, up)], "x", "y", layers)
    pre, post = [], []
    n_hidden = sum(1 for _, _, s in layers if s is not None)
    for k in range(n_hidden):
        for name, dst in (("pre", pre), ("post", post)):
            for i in range(len(cs[0].m[("y", name, k)])):
                vals = [c.m[("y", name, k)][i](v) for c in cs
                        for v in c.verts]
                dst.append((min(vals), max(vals)))
    out = []
    for i in range(len(cs[0].m["y"])):
        vals = [c.m["y"][i](v) for c in cs for v in c.verts]
        out.append((min(vals), max(vals)))
    return pre, post, out, cs


def check_net(cx, desc, net, lo, up, methods):
    layers = cells.layers_of(net)
    pre, post, out, cs = exact_ranges(layers, lo, up)
    free = r2o.ReLUFreePattern(net, torch.float64)
    widths = {}
    nets.used_before(net, free, lo, up,
                     [mip_utils.PropagateBoundsMethod[m] for m in methods])
    for method in methods:
        x_lo, x_up = nets.tensor(lo), nets.tensor(up)
        r = free.output_constraint(x_lo, x_up,
                                   mip_utils.PropagateBoundsMethod[method])
        for what, lo_t, up_t, want in (
            ("unit input", r.relu_input_lo, r.relu_input_up, pre),
            ("unit output", r.relu_output_lo, r.relu_output_up, post),
            ("network output", r.nn_output_lo, r.nn_output_up, out)):
            lo_v = lo_t.detach().numpy().reshape(-1)
            up_v = up_t.detach().numpy().reshape(-1)
            if len(lo_v) != len(want) or len(up_v) != len(want):
                cx.fail(f"number of bounds:{what}", net=desc)
                continue
            for i, (a, b) in enumerate(want):
                cx.trans()
                a, b = float(a), float(b)
                tol = 1e-7 * (1 + abs(a) + abs(b))
                if not (lo_v[i] <= a + tol and up_v[i] >= b - tol):
                    cx.fail(f"{what} bound unsound:{method}", index=i,
                            got=(lo_v[i], up_v[i]), exact=(a, b), net=desc,
                            box=(lo, up))
                if method == "MIP" and what != "unit output" and (
                        not (abs(lo_v[i] - a) <= 10 * tol) or
                        not (abs(up_v[i] - b) <= 10 * tol)):
                    cx.fail(f"{what} bound not exact:MIP", index=i,
                            got=(lo_v[i], up_v[i]), exact=(a, b), net=desc,
                            box=(lo, up))
                cx.outcome(method, what, round(float(lo_v[i]), 4),
                           round(float(up_v[i]), 4))
            widths[(method, what)] = (lo_v, up_v)
        if not (torch.equal(r.nn_input_lo, x_lo)
                and torch.equal(r.nn_input_up, x_up)):
            cx.fail(f"input bound:{method}", net=desc)
    for tight, loose in (("MIP", "LP"), ("LP", "IA"), ("MIP", "IA_MIP")):
        for what in ("unit input", "network output"):
            if (tight, what) in widths and (loose, what) in widths:
                t, w = widths[(tight, what)], widths[(loose, what)]
                if np.any(t[0] < w[0] - 1e-6) or np.any(t[1] > w[1] + 1e-6):
                    cx.fail(f"{tight} looser than {loose}:{what}", net=desc,
                            box=(lo, up), got=(t, w))
    cx.states(len(cs))
    cx.traces()
    cx.sample(net=desc, box=(lo, up), exact_output=out, cells=len(cs))


def expect(cx, ok, key, **detail):
    if not ok:
        cx.fail(key, **detail)


CUTS1 = [((F(1), ), F(1, 4)), ((F(-1), ), F(1, 2)), ((F(2), ), F(1000)),
         ((F(1), ), F(-1000))]
CUTS2 = [((F(1), F(1)), F(1, 4)), ((F(-1), F(1, 2)), F(1, 8)),
         ((F(0), F(-1)), F(-1, 4)), ((F(1), F(2)), F(1000)),
         ((F(1), F(2)), F(-1000))]


def cut(cx, j, bi):
    """
    The network input is confined to the box and to a half space
    c^T x <= c^T mid + r handed over with create_prog_callback.
    """
    widths, slope, idx, bias = nets.CURATED[j]
    net = nets.table_net(widths, slope, idx, bias)
    layers = cells.layers_of(net)
    lo, up = nets.boxes(widths[0])[bi]
    d = widths[0]
    free = r2o.ReLUFreePattern(net, torch.float64)
    n_lin = len(layers)
    for c, r in [(None, None)] + list(CUTS1 if d == 1 else CUTS2):
        mid = [(a + b) / 2 for a, b in zip(map(F, lo), map(F, up))]
        box = cells.box_cell(lo, up)
        if c is None:
            callback = None
        else:
            rhs = sum(p * q for p, q in zip(c, mid)) + r
            verts = cells.clip(box.verts,
                               lambda v: rhs - sum(p * q
                                                   for p, q in zip(c, v)), 1)
            box = None if verts is None else cells.Cell(verts, box.m)

            def callback():
                prog = gurobi_torch_mip.GurobiTorchMILP(torch.float64)
                x = prog.addVars(d, lb=-gurobipy.GRB.INFINITY)
                prog.addLConstr([nets.tensor(list(c))], [x],
                                sense=gurobipy.GRB.LESS_EQUAL,
                                rhs=float(rhs))
                return prog, x

        if box is None:
            cs = []
        else:
            cs = cells.network([box], "x", "y", layers)

        def exact(layer, row):
            name = ("y", "pre", layer) if layer < n_lin - 1 else "y"
            vals = [k.m[name][row](v) for k in cs for v in k.verts]
            return (float(min(vals)), float(max(vals))) if vals else (
                np.inf, -np.inf)

        x_lo, x_up = nets.tensor(lo), nets.tensor(up)
        # every unit by itself, given the interval bounds of earlier layers
        zl, zu, _, _ = free._compute_layer_bound(
            x_lo, x_up, mip_utils.PropagateBoundsMethod.IA)
        for layer in range(n_lin):
            for row in range(len(layers[layer][0])):
                want = exact(layer, row)
                for vtype in (gurobipy.GRB.BINARY,
                              gurobi_torch_mip.BINARYRELAX):
                    got = free._compute_linear_output_bound_by_optimization(
                        layer, row, zl.detach().numpy(), zu.detach().numpy(),
                        x_lo.numpy(), x_up.numpy(), callback, vtype)
                    cx.trans()
                    exact_type = vtype == gurobipy.GRB.BINARY or layer == 0
                    tol = 1e-7 * (1 + np.abs(want).max()) if cs else 0
                    where = dict(net=nets.CURATED[j], box=(lo, up), cut=(c, r),
                                 layer=layer, row=row, got=got, want=want)
                    if exact_type or not cs:
                        ok = got[0] == want[0] or abs(got[0] - want[0]) <= tol
                        ok &= got[1] == want[1] or abs(got[1] -
                                                       want[1]) <= tol
                    else:
                        ok = got[0] <= want[0] + tol and got[1] >= want[
                            1] - tol
                    expect(cx, ok, "bound of one unit in a cut box", **where)
                    if not cs:
                        expect(cx, got[2] is None and got[3] is None,
                                  "argument of an infeasible program", **where)
                        continue
                    # the arguments lie in the set and, for exact bounds,
                    # attain them
                    for v, x in ((got[0], got[2]), (got[1], got[3])):
                        p = [F(float(t)) for t in x]
                        inside = all(
                            a - F(1, 10**6) <= t <= b + F(1, 10**6)
                            for a, t, b in zip(map(F, lo), p, map(F, up)))
                        if c is not None:
                            inside &= sum(a * t for a, t in zip(
                                c, p)) <= rhs + F(1, 10**6)
                        expect(cx, inside, "argument outside the set", **where)
                        if exact_type:
                            y, pre = cells.eval_layers(layers, p)
                            at = float((pre + [y])[layer][row])
                            expect(cx, abs(at - v) <= 1e-5 * (1 + abs(v)),
                                   "argument does not attain the bound",
                                   at=at, **where)
        if not cs:
            cx.outcome("cut", "infeasible")
            continue
        cx.outcome("cut", len(cs))
        cx.states(len(cs))
        cx.traces()
        # whole layers
        for method in METHODS:
            m = mip_utils.PropagateBoundsMethod[method]
            zl, zu, al, au = free._compute_layer_bound(x_lo, x_up, m, callback)
            yl, yu = free._compute_network_output_bounds(
                zl, zu, x_lo, x_up, m, callback)
            k = 0
            rows = []
            for layer in range(n_lin):
                for row in range(len(layers[layer][0])):
                    want = exact(layer, row)
                    if layer < n_lin - 1:
                        rows.append((layer, want, zl[k], zu[k]))
                        k += 1
                    else:
                        rows.append((layer, want, yl[row], yu[row]))
            for layer, want, a, b in rows:
                a, b = float(a), float(b)
                tol = 1e-7 * (1 + np.abs(want).max())
                ok = a <= want[0] + tol and b >= want[1] - tol
                if method == "MIP":
                    ok &= a >= want[0] - 10 * tol and b <= want[1] + 10 * tol
                expect(cx, ok, f"bounds in a cut box:{method}", layer=layer,
                          want=want, got=(a, b), net=nets.CURATED[j],
                          box=(lo, up), cut=(c, r))


def ia(cx):
    vals = (F(-3, 2), F(0), F(1, 2))
    itv = [(F(-1), F(2)), (F(1, 2), F(1, 2)), (F(-2), F(-1)), (F(0), F(1))]
    for w in itertools.product(vals, repeat=3):
        for bx in itertools.product(itv, repeat=3):
            for b in (F(0), F(-3, 4)):
                W = [list(w), [-v for v in w]]
                bb = [b, b + 1]
                lo, up = mip_utils.compute_range_by_IA(
                    nets.tensor(W), nets.tensor(bb),
                    nets.tensor([v[0] for v in bx]),
                    nets.tensor([v[1] for v in bx]))
                lin = torch.nn.Linear(3, 2).double()
                lin.weight.data, lin.bias.data = nets.tensor(W), nets.tensor(
                    bb)
                lo2, up2 = mip_utils.propagate_bounds(
                    lin, nets.tensor([v[0] for v in bx]),
                    nets.tensor([v[1] for v in bx]))
                nob = torch.nn.Linear(3, 2, bias=False).double()
                nob.weight.data = nets.tensor(W)
                lo3, up3 = mip_utils.propagate_bounds(
                    nob, nets.tensor([v[0] for v in bx]),
                    nets.tensor([v[1] for v in bx]))
                corners = list(itertools.product(*bx))
                for i in range(2):
                    v = [sum(p * q for p, q in zip(W[i], c)) for c in corners]
                    a, z = float(min(v)), float(max(v))
                    bi = float(bb[i])
                    got = [lo[i], up[i], lo2[i], up2[i], lo3[i], up3[i]]
                    want = [a + bi, z + bi, a + bi, z + bi, a, z]
                    cx.trans()
                    if any(not (abs(float(g) - t) <= 1e-9) for g, t in
                           zip(got, want)):
                        cx.fail("interval arithmetic of a linear layer",
                                W=W[i], b=bi, box=bx, got=got, want=want)
                cx.states()
    # activation layers, elementwise, every interval on a grid
    pts = [F(-2), F(-1), F(0), F(1, 2), F(3)]
    for slope in (None, 0., 0.125, 1., 2., -0.5):
        lay = torch.nn.ReLU() if slope is None else torch.nn.LeakyReLU(slope)
        s = F(0) if slope is None else F(slope)

        def f(v):
            return v if v >= 0 else s * v
        itvs = [(a, b) for a in pts for b in pts if a <= b]
        lo, up = mip_utils.propagate_bounds(
            lay, nets.tensor([i[0] for i in itvs]),
            nets.tensor([i[1] for i in itvs]))
        for i, (a, b) in enumerate(itvs):
            cand = [f(a), f(b)] + ([F(0)] if a < 0 < b else [])
            cx.states()
            cx.trans()
            if not (abs(float(lo[i]) - float(min(cand))) <= 1e-12) or not (abs(
                    float(up[i]) - float(max(cand))) <= 1e-12):
                cx.fail("activation range", slope=slope, interval=(a, b),
                        got=(lo[i], up[i]), want=(min(cand), max(cand)))


def leaky_interval(cx):
    pts = [-2., -1., 0., 0.5, 3.]
    for slope in (0., 0.125, 1., 2., -0.5, -2.):
        for a in pts:
            for b in pts:
                if a >= b:
                    continue
                cand = [v if v >= 0 else slope * v for v in (a, b)] + (
                    [0.] if a < 0 < b else [])
                for conv in (float, lambda v: torch.tensor(v).double()):
                    lo, up = utils.leaky_relu_interval(slope, conv(a),
                                                       conv(b))
                    cx.states()
                    cx.trans()
                    if not (abs(float(lo) - min(cand)) <= 1e-12) or not (abs(
                            float(up) - max(cand)) <= 1e-12):
                        cx.fail("leaky relu interval", slope=slope,
                                interval=(a, b), got=(lo, up), want=cand)


def poly_vertices(C, d, lo, up):
    """ exact vertices of {C x <= d, lo <= x <= up} in 2-D """
    cell = cells.box_cell(lo, up)
    verts = cell.verts
    for row, rhs in zip(C, d):
        f = cells.Aff([-v for v in row], rhs)
        verts = cells.clip(verts, f, 1)
        if verts is None:
            return None
    return verts


ROWS = [(1, 1), (1, -1), (-1, 2), (0, 1), (-1, 0)]


def lp(cx):
    rhs = (F(-1, 2), F(0), F(1), F(-4))
    A = [[F(1), F(0)], [F(1), F(2)], [F(-1), F(1, 2)]]
    b = [F(0), F(1), F(-1, 2)]
    for r1, r2 in itertools.combinations(ROWS, 2):
        for d in itertools.product(rhs, repeat=2):
            for lo, up in (([-1, -1], [1, 1]), ([0, F(-1, 2)], [2, 1])):
                C = [[F(v) for v in r1], [F(v) for v in r2]]
                vs = poly_vertices(C, d, lo, up)
                npa = [np.array([[float(v) for v in r] for r in m])
                       for m in (A, C)]
                got = mip_utils.compute_range_by_lp(
                    npa[0], np.array([float(v) for v in b]),
                    np.array([float(v) for v in lo]),
                    np.array([float(v) for v in up]), npa[1],
                    np.array([float(v) for v in d]))
                cx.states()
                for i in range(3):
                    if vs is None:
                        want = (np.inf, -np.inf)
                    else:
                        v = [sum(p * q for p, q in zip(A[i], x)) + b[i]
                             for x in vs]
                        want = (float(min(v)), float(max(v)))
                    cx.trans()
                    if not (np.isclose(got[0][i], want[0], atol=1e-7)
                            and np.isclose(got[1][i], want[1], atol=1e-7)):
                        cx.fail("range by LP", C=C, d=d, box=(lo, up), row=i,
                                got=(got[0][i], got[1][i]), want=want)
    # no bounds at all: a half plane is unbounded, a slab bounds its normal
    one = np.array([[1., 1.], [-1., -1.]])
    got = mip_utils.compute_range_by_lp(
        np.array([[1., 1.], [1., 0.]]), np.zeros(2), None, None, one,
        np.array([1., 2.]))
    cx.states()
    if not (np.allclose(got[0], [-2, -np.inf])
            and np.allclose(got[1], [1, np.inf])):
        cx.fail("range by LP, no box", got=got)


def polytope(cx):
    rhs = (F(-1, 2), F(0), F(1))
    for rows in itertools.combinations(ROWS, 3):
        for d in itertools.product(rhs, repeat=3):
            C = [[F(v) for v in r] for r in rows]
            big = 10**6
            vs = poly_vertices(C, d, [-big, -big], [big, big])
            for i in range(2):
                if vs is None:
                    want = (np.inf, -np.inf)
                else:
                    c = [float(v[i]) for v in vs]
                    want = tuple(
                        (np.sign(t) * np.inf if abs(t) > big / 10 else t)
                        for t in (min(c), max(c)))
                for conv in (torch.from_numpy, np.asarray):
                    P = conv(np.array([[float(v) for v in r] for r in C]))
                    q = conv(np.array([float(v) for v in d]))
                    got = utils.compute_bounds_from_polytope(P, q, i)
                    cx.states()
                    cx.trans()
                    cx.outcome("poly", want)
                    if not np.allclose(got, want, atol=1e-7):
                        cx.fail("bounds from polytope", P=C, q=d, i=i,
                                got=got, want=want)


def work(cx, task):
    if task[0] == "tiny":
        _, slope, a, b, bi, methods = task
        lo, up = nets.BOXES1[bi]
        for desc in list(nets.tiny_family())[a:b]:
            if cx.out_of_time():
                return
            layers = nets.with_slope(desc, slope)
            check_net(cx, layers, nets.seq(layers), lo, up, methods)
    elif task[0] == "curated":
        _, j, k, bi, methods = task
        widths, slope, idx, bias = nets.CURATED[j]
        net = nets.table_net(widths, slope, idx + 100 * k, bias)
        lo, up = nets.boxes(widths[0])[bi]
        check_net(cx, (widths, slope, idx + 100 * k, bias), net, lo, up,
                  methods)
    elif task[0] == "cut":
        cut(cx, task[1], task[2])
    else:
        {"ia": ia, "lp": lp, "leaky_interval": leaky_interval,
         "polytope": polytope}[task[0]](cx)


if __name__ == "__main__":
    mc.main(
        "C02", tasks, work,
        rule="exact range over every linear cell of every network of the "
        "families (vertices), compared with all reported bounds of all four "
        "methods, also with the input confined to a half space by the "
        "program callback; interval/LP range utilities against vertex enumeration of "
        "every polytope of a small alphabet",
        assumptions=["LP/MIP optima of the stand-in are exact to 1e-9"])
