"""
C06: the strengthening ("ideal formulation") cuts never remove a point of the
network's graph, every cut of the family is valid, the selected cut is the
most violated one, and adding cuts at relaxed solutions leaves the true
optimum unchanged while the relaxation bound only tightens.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402

from neural_network_lyapunov import relu_to_optimization as r2o  # noqa: E402
from neural_network_lyapunov import mip_utils, gurobi_torch_mip  # noqa: E402

DT = torch.float64


def t(v):
    return torch.tensor(v, dtype=DT)


WS = (-1.5, -0.5, 0., 1.)
BX = [(-1., 1.), (0., 2.), (-2., -0.5), (0.25, 0.25)]
CS = (0., 0.125, 0.5)


def tasks(tier):
    ret = []
    for n in (1, 2, 3):
        ws = list(itertools.product(WS, repeat=n))
        step = 1 if n < 3 else (9 if tier == "quick" else 1)
        for i in range(0, len(ws), step):
            if n == 3 or i % 2 == 0:
                ret.append(("unit", ws[i:i + (1 if n == 3 else 2)]))
    for j in range(len(nets.CURATED)):
        slope = nets.CURATED[j][1]
        if all(s == "relu" or s < 1 for s in (
                slope if isinstance(slope, tuple) else (slope, ))):
            for bi in range(len(nets.boxes(nets.CURATED[j][0][0]))):
                ret.append(("net", j, 0 if tier == "quick" else 1, bi))
    return ret


def subsets(n):
    for r in range(n + 1):
        for s in itertools.combinations(range(n), r):
            yield set(s)


def unit(cx, ws):
    for w in ws:
        n = len(w)
        for bx in itertools.product(BX, repeat=n):
            if n == 3 and bx.count(BX[3]) > 1:
                continue
            for b in (-0.5, 0.25):
                check_unit(cx, w, b, bx)
            if cx.out_of_time():
                return


def check_unit(cx, w, b, bx):
    n = len(w)
    lo, up = t([v[0] for v in bx]), t([v[1] for v in bx])
    wt, bt = t(list(w)), t(b)
    wn = np.array(w)
    axes = [sorted({a, z, a + (z - a) * 0.25, (a + z) / 2}) if n < 3 else
            sorted({a, z, a + (z - a) * 0.25}) for a, z in bx]
    xs = np.array(list(itertools.product(*axes)))
    pre = xs @ wn + b
    lo_ia = float(sum(min(v * p, v * q) for v, (p, q) in zip(w, bx)) + b)
    up_ia = float(sum(max(v * p, v * q) for v, (p, q) in zip(w, bx)) + b)
    for c in CS:
        post = np.where(pre >= 0, pre, c * pre)
        # every consistent (x, beta, y)
        X = np.concatenate((xs[pre >= 0], xs[pre <= 0]))
        Z = np.concatenate((np.ones((pre >= 0).sum()),
                            np.zeros((pre <= 0).sum())))
        Y = np.concatenate((post[pre >= 0], post[pre <= 0]))
        cuts = {}
        for s in subsets(n):
            xc, bc, k = mip_utils.strengthen_relu_mip_w_indices(
                c, wt, bt, lo, up, set(s))
            xc, bc, k = xc.numpy(), float(bc), float(k)
            cuts[frozenset(s)] = (xc, bc, k)
            cx.trans(len(Y))
            gap = X @ xc + bc * Z + k - Y
            if len(gap) and gap.min() < -1e-9:
                i = int(gap.argmin())
                cx.fail("cut removes a point of the graph", w=w, b=b, c=c,
                        box=bx, subset=sorted(s), x=X[i], beta=Z[i], y=Y[i],
                        gap=gap[i])
        R = np.array([np.append(v[0], [v[1], v[2]]) for v in cuts.values()])
        # selection at every (x, beta): the most violated of all subsets
        for beta in (0., 0.25, 0.5, 1.):
            P = np.hstack((xs, np.full((len(xs), 1), beta),
                           np.ones((len(xs), 1))))
            best = (P @ R.T).min(axis=1)
            step = max(1, len(xs) // (16 if n == 3 else 40))
            sel_pts, sel_y, sel_b, expect = [], [], [], []
            for i in range(0, len(xs), step):
                cx.states()
                s = mip_utils.find_index_set_to_strengthen(
                    wt, lo, up, torch.from_numpy(xs[i]), beta)
                xc, bc, k = cuts[frozenset(s)]
                val = xc @ xs[i] + bc * beta + k
                if val > best[i] + 1e-9:
                    cx.fail("selected cut is not the tightest", w=w, b=b, c=c,
                            box=bx, x=xs[i], beta=beta, chosen=sorted(s),
                            got=val, best=best[i])
                cx.outcome(sorted(s), n)
                for dy in (-0.125, 0.125):
                    sel_pts.append(torch.from_numpy(xs[i]))
                    sel_b.append(t(beta))
                    sel_y.append(t(best[i] + dy))
                    expect.append(dy > 0)
            A, B, K = mip_utils.strengthen_relu_mip_given_pts(
                c, wt, bt, lo, up, sel_pts, sel_y, sel_b)
            cx.traces()
            if A is None:
                cx.fail("violated points got no cut", w=w, b=b, c=c, box=bx)
                continue
            A, B, K = A.numpy(), B.numpy(), K.numpy()
            if len(Y) and (X @ A.T + Z[:, None] * B[None] + K[None] -
                           Y[:, None]).min() < -1e-9:
                cx.fail("cut at given points removes a point of the graph",
                        w=w, b=b, c=c, box=bx)
            for p, y, bb, viol in zip(sel_pts, sel_y, sel_b, expect):
                cutoff = np.any(A @ p.numpy() + B * float(bb) + K <
                                float(y) - 1e-9)
                if viol and not cutoff:
                    cx.fail("violated point is not cut off", w=w, b=b, c=c,
                            box=bx, x=p, beta=bb, y=y)
                if not viol and cutoff:
                    cx.fail("point inside the ideal family is cut off", w=w,
                            b=b, c=c, box=bx, x=p, beta=bb, y=y)
            A, B, K = mip_utils.strengthen_relu_mip_given_pts(
                c, wt, bt, lo, up, sel_pts[::2], sel_y[::2], sel_b[::2])
            if A is not None:
                cx.fail("cut generated although nothing is violated", w=w,
                        b=b, c=c, box=bx)
        # whole-unit strengthening
        if not (lo_ia < 0 < up_ia):
            continue
        for r_lo, r_up in ((lo_ia, up_ia), (lo_ia * 0.75, up_ia * 0.5)):
            inside = (pre >= r_lo - 1e-12) & (pre <= r_up + 1e-12)
            for selective in (True, False):
                A, B, K = mip_utils.strengthen_relu_mip(
                    c, wt, bt, lo, up, t(r_lo), t(r_up), selective)
                A, B, K = A.numpy(), B.numpy(), K.numpy()
                cx.trans()
                if not selective and len(K) != max(0, 2**n - 2):
                    cx.fail("number of cuts", n=n, got=len(K))
                for x, p, y, ok in zip(xs, pre, post, inside):
                    if not ok:
                        continue
                    for z in ([1.] if p > 0 else [0.] if p < 0 else
                              [0., 1.]):
                        if len(K) and np.any(A @ x + B * z + K < y - 1e-9):
                            cx.fail("unit strengthening removes a point",
                                    w=w, b=b, c=c, box=bx, x=x, beta=z, y=y,
                                    selective=selective)
                if selective and (r_lo, r_up) == (lo_ia, up_ia) and n > 1:
                    # one cut per visited vertex is enough that the bound at
                    # every vertex of the box is the tightest for the beta
                    # range allowed there
                    corner = np.array(list(itertools.product(*bx)))
                    base = np.array([
                        np.append(c * wn, [(1 - c) * r_up, c * b]),
                        np.append(wn, [(1 - c) * r_lo, b - (1 - c) * r_lo])])
                    more = np.hstack((A, B[:, None], K[:, None]))
                    for v in corner:
                        for z in (0., 0.5, 1.):
                            q = np.append(v, [z, 1.])
                            new = min((base @ q).min(),
                                      (more @ q).min() if len(K) else np.inf)
                            y = max(c * (v @ wn + b), v @ wn + b)
                            ok_z = (z == 1 and v @ wn + b >= 0) or (
                                z == 0 and v @ wn + b <= 0)
                            if ok_z and new < y - 1e-9:
                                cx.fail("strengthened unit excludes vertex",
                                        w=w, b=b, c=c, box=bx, x=v, beta=z)
    cx.sample(w=w, b=b, box=bx, points=len(xs), subsets=2**n)


def relu_post(layers, x):
    y, pres = cells.eval_layers(layers, x)
    post = []
    for (W, b, s), p in zip(layers, pres):
        post += [v if v >= 0 else s * v for v in p]
    return y, [v for p in pres for v in p], post


def net_task(cx, j, deep, bi):
    widths, slope, idx, bias = nets.CURATED[j]
    net = nets.table_net(widths, slope, idx, bias)
    layers = cells.layers_of(net)
    lo, up = nets.boxes(widths[0])[bi]
    d = widths[0]
    free = r2o.ReLUFreePattern(net, DT)
    cs = cells.network([cells.box_cell(lo, up)], "x", "y", layers)
    pts = sorted(set(cells.vertices(cs) + cells.midpoints(cs) +
                     cells.grid(lo, up, 3)))
    states = []
    for p in pts:
        y, pre, post = relu_post(layers, p)
        states.append(([float(v) for v in p], [float(v) for v in pre],
                       [float(v) for v in post]))
    nets.used_before(net, free, lo, up, [mip_utils.PropagateBoundsMethod.IA])
    ret = free.output_constraint(nets.tensor(lo), nets.tensor(up),
                                 mip_utils.PropagateBoundsMethod.IA)
    L = torch.cat((ret.nn_input_lo, ret.relu_output_lo)).detach()
    U = torch.cat((ret.nn_input_up, ret.relu_output_up)).detach()
    nb = len(states[0][1])

    def valid(A, S, B, r, where):
        A, S, B, r = [v.detach().numpy() for v in (A, S, B, r)]
        for x, pre, post in states:
            zmax = np.array([1. if v > 0 else 0. for v in pre])
            kinks = [i for i, v in enumerate(pre) if abs(v) < 1e-12]
            for flip in itertools.product((0., 1.), repeat=len(kinks)):
                z = zmax.copy()
                z[kinks] = flip
                cx.trans()
                lhs = A @ np.array(x) + S @ np.array(post) + B @ z
                if np.any(lhs > r.reshape(-1) + 1e-8):
                    cx.fail("network cut removes a point of the graph:" +
                            where, net=(widths, slope, idx), x=x, beta=z)

    # cuts at every vertex of a lattice of (input, unit outputs, activations)
    fr = (0., 0.5, 1.) if nb <= 4 else (0.25, 0.75)
    lat = list(itertools.product(fr, repeat=d + (nb if nb <= 3 else 2)))
    for f in lat[:81 if not deep else 729]:
        f = list(f) + [0.5] * (d + nb - len(f))
        lin = L + (U - L) * t([f[i] for i in range(d + nb)])
        for act in ([0.5] * nb, [0.25] * nb, [1.] * nb):
            cx.states()
            A, S, B, r = free.strengthen_mip_at_point((lin, t(act)), L, U)
            # reference: which units have a violated cut among all subsets
            want = 0
            off = 0
            outs = d
            k = 0
            for (W, b, s) in layers[:-1]:
                ni = len(W[0])
                for row in range(len(W)):
                    w = np.array([float(v) for v in W[row]])
                    bb = float(b[row]) if b is not None else 0.
                    best = np.inf
                    lo_n = L[off:off + ni].numpy()
                    up_n = U[off:off + ni].numpy()
                    xh = lin[off:off + ni].numpy()
                    sl = float(s)
                    be = act[k + row]
                    lbar = np.where(w >= 0, lo_n, up_n)
                    ubar = np.where(w >= 0, up_n, lo_n)
                    best = bb * sl + bb * (1 - sl) * be + np.minimum(
                        w * xh - (1 - sl) * (1 - be) * w * lbar,
                        sl * w * xh + (1 - sl) * be * w * ubar).sum()
                    yh = float(lin[outs + row])
                    if yh > best + 1e-7:
                        want += 1
                    elif yh > best - 1e-7:
                        want = None
                        break
                if want is None:
                    break
                off += ni
                outs += len(W)
                k += len(W)
            got = 0 if A is None else A.shape[0]
            cx.outcome("cuts", got)
            if want is not None and got != want:
                cx.fail("number of violated units", net=(widths, slope, idx),
                        point=lin, act=act, got=got, want=want)
            if A is not None:
                valid(A, S, B, r, "point")
                lhs = A @ lin[:d] + S @ lin[d:] + B @ t(act)
                if want is not None and torch.any(lhs <= r.reshape(-1)):
                    cx.fail("network cut does not cut the point off",
                            net=(widths, slope, idx), point=lin, act=act)
        if cx.out_of_time():
            return
    # iterate: relaxed optimum -> cuts -> relaxed optimum ...
    for sense in (1, -1):
        mip = gurobi_torch_mip.GurobiTorchMILP(DT)
        x = mip.addVars(d, lb=ret.nn_input_lo, ub=ret.nn_input_up)
        s, b = mip.add_mixed_integer_linear_constraints(
            ret, x, None, "slack", "binary", "in", "eq", "out",
            binary_var_type=gurobi_torch_mip.BINARYRELAX)
        w = (ret.Aout_slack[0].reshape(-1) * sense).detach()
        c0 = (ret.Cout[0] * sense).detach()
        mip.setObjective([w], [s], float(c0), gurobipy.GRB.MAXIMIZE)
        m = mip.gurobi_model
        m.setParam("OutputFlag", 0)
        vals = [sense * float(c.m["y"][0](v)) for c in cs for v in c.verts]
        true = max(vals)
        prev = np.inf
        for it in range(4):
            m.optimize()
            cx.traces()
            cx.states()
            if m.status != gurobipy.GRB.Status.OPTIMAL:
                cx.fail("relaxation infeasible after cuts",
                        net=(widths, slope, idx), it=it)
                break
            if m.ObjVal < true - 1e-6 or m.ObjVal > prev + 1e-6:
                cx.fail("relaxation bound", net=(widths, slope, idx), it=it,
                        got=m.ObjVal, before=prev, true=true)
            prev = m.ObjVal
            free.strengthen_relu_mip_at_solution(mip, x, s, b, ret)
            m.update()
        mip.remove_binary_relaxation()
        m.optimize()
        cx.outcome("opt", round(true, 6))
        if m.status != gurobipy.GRB.Status.OPTIMAL or not (abs(m.ObjVal - true) <= \
                1e-6 * (1 + abs(true))):
            cx.fail("strengthening changes the optimum",
                    net=(widths, slope, idx), box=(lo, up), status=m.status,
                    got=m.ObjVal if m.SolCount else None, true=true)
    cx.sample(net=(widths, slope, idx), box=(lo, up), states=len(states))


def work(cx, task):
    if task[0] == "unit":
        unit(cx, task[1])
    else:
        net_task(cx, *task[1:])


if __name__ == "__main__":
    mc.main(
        "C06", tasks, work,
        rule="units with weights/boxes/bias/slope from an alphabet: every "
        "index subset x every grid point of the graph x every consistent "
        "activation; networks: a lattice of relaxed points, every cell vertex "
        "of the exact graph; four rounds of cuts at relaxed optima")
