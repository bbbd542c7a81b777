"""
C04: the mixed-integer encodings of a network's gradient, and of gradient
times vector, are exact for every activation assignment and every vector.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
from mip import Encoding  # noqa: E402
from fractions import Fraction as F  # noqa: E402

from neural_network_lyapunov import relu_to_optimization as r2o  # noqa: E402

RELU1 = [(1, 1, 1), (1, 2, 1), (2, 2, 1), (2, 3, 1), (1, 2, 2, 1),
         (2, 2, 2, 1), (2, 3, 2, 1), (3, 2, 1), (1, 2, 2, 2, 1)]


def tasks(tier):
    ret = []
    n = 3 if tier == "quick" else 12
    for w in RELU1:
        for k in range(n):
            for bias in (True, False):
                ret.append(("grad", w, 200 + k, bias))
    ret += [("single", j) for j in range(len(nets.CURATED))]
    for j in range(len(nets.CURATED)):
        for k in range(1 if tier == "quick" else 10):
            ret.append(("times", j, k))
    return ret


def gradient(layers, pat):
    """ product of the weight matrices for an activation assignment, plus the
    partial products W_i diag(..) ... W_0 """
    G = None
    partial = []
    post = []
    k = 0
    for W, b, s in layers:
        Wm = np.array([[float(v) for v in r] for r in W])
        G = Wm if G is None else Wm @ G
        partial.append(G)
        if s is not None:
            m = np.array([1. if a else float(s) for a in pat[k]])
            G = m[:, None] * G
            post.append(G)
            k += 1
    return G, partial, post


def split_pat(z, widths):
    pat, k = [], 0
    for w in widths:
        pat.append([bool(v) for v in z[k:k + w]])
        k += w
    return pat


def grad(cx, widths, idx, bias):
    net = nets.table_net(widths, "relu", idx, bias)
    layers = cells.layers_of(net)
    free = r2o.ReLUFreePattern(net, torch.float64)
    with nets.earlier(net):
        free.output_gradient()
    M, B1, B2, d = free.output_gradient()
    M, B1, B2, d = [v.detach().numpy() for v in (M, B1, B2, d)]
    d = d.reshape(-1)
    hidden = widths[1:-1]
    nb = sum(hidden)
    na = M.shape[0]
    if na != int(np.prod(hidden)):
        cx.fail("number of path variables", got=na, widths=widths)
        return
    paths = list(itertools.product(*[range(w) for w in hidden]))
    idxs = [int(free.compute_alpha_index(p)) for p in paths]
    if sorted(idxs) != list(range(na)):
        cx.fail("path index is not a bijection", got=idxs, widths=widths)
    for z in itertools.product((0, 1), repeat=nb):
        pat = split_pat(z, hidden)
        zb = np.array(z, dtype=float)
        G, _, _ = gradient(layers, pat)
        cx.states()
        # every alpha assignment: column by column (rows couple one alpha
        # with betas only when B1 has one non-zero per row)
        coupled = np.any((np.abs(B1) > 0).sum(axis=1) > 1)
        feas = []
        if not coupled and np.all((np.abs(B1) > 0).any(axis=1)):
            per = []
            for a in range(na):
                rows = np.abs(B1[:, a]) > 0
                opts = [v for v in (0., 1.) if np.all(
                    B1[rows, a] * v + B2[rows] @ zb <= d[rows] + 1e-9)]
                cx.trans(2)
                per.append(opts)
            feas = list(itertools.product(*per))
        else:
            for al in itertools.product((0., 1.), repeat=na):
                cx.trans()
                if np.all(B1 @ np.array(al) + B2 @ zb <= d + 1e-9):
                    feas.append(al)
        if len(feas) != 1:
            cx.fail("path variables not determined by the activations",
                    widths=widths, idx=idx, beta=z, feasible=feas[:4])
            continue
        al = np.array(feas[0])
        for p, i in zip(paths, idxs):
            want = all(pat[l][u] for l, u in enumerate(p))
            if bool(al[i] > 0.5) != want:
                cx.fail("path variable is not the product", widths=widths,
                        beta=z, path=p, alpha=al)
        got = M.T @ al
        cx.traces()
        cx.outcome(widths, np.round(got, 6))
        if not np.allclose(got, G.reshape(-1), atol=1e-9):
            cx.fail("gradient as a function of the path variables",
                    widths=widths, idx=idx, bias=bias, beta=z, got=got,
                    want=G)
    cx.sample(widths=widths, idx=idx, assignments=2**nb, alphas=na)


def times(cx, j, k):
    widths, slope, idx, bias = nets.CURATED[j]
    net = nets.table_net(widths, slope, idx + 100 * k, bias)
    layers = cells.layers_of(net)
    hidden = widths[1:-1]
    nb = sum(hidden)
    free = r2o.ReLUFreePattern(net, torch.float64)
    d = widths[0]
    ybox = [(-1., 1.), (0., 2.), (-2., -0.5), (0.5, 0.5)]
    for bx in itertools.product(ybox, repeat=d):
        lo = torch.tensor([b[0] for b in bx]).double()
        up = torch.tensor([b[1] for b in bx]).double()
        with nets.earlier(net):
            free.output_gradient_times_vector(lo, up)
        ret = free.output_gradient_times_vector(lo, up)
        z_lo, z_up, W_lo, W_up = [
            [v.detach() for v in q]
            for q in (ret.z_lo, ret.z_up, ret.Wz_lo, ret.Wz_up)]
        wide = free.output_gradient_times_vector_w_bounds(
            [v - 0.5 for v in z_lo], [v + 0.25 for v in z_up],
            [v - 0.5 for v in W_lo], [v + 0.25 for v in W_up])
        corners = sorted(set(itertools.product(*bx)))
        mids = [tuple((a + b) / 2 for a, b in bx),
                tuple(a + (b - a) * 0.25 for a, b in bx)]
        ys = corners + [m for m in mids if m not in corners]
        encs = [("", Encoding(ret, num_input=d)),
                (" (given bounds)", Encoding(wide, num_input=d))]
        if nb > 5 and bx != tuple(ybox[:1] * d) and bx[0] != ybox[1]:
            encs = encs[:1]
            ys = corners[:2]
        for z in itertools.product((0., 1.), repeat=nb):
            pat = split_pat(z, hidden)
            G, partial, post = gradient(layers, pat)
            cx.states()
            for y in ys:
                yv = np.array(y)
                for i, P in enumerate(partial):
                    v = P @ yv
                    cx.trans()
                    tol = 1e-9 * (1 + np.abs(v))
                    if np.any(v < W_lo[i].numpy() - tol) or np.any(
                            v > W_up[i].numpy() + tol):
                        cx.fail("bound of weight times gradient unsound",
                                net=(widths, slope, idx + 100 * k), y=y,
                                beta=z, layer=i, value=v,
                                bounds=(W_lo[i], W_up[i]))
                want_slack = []
                for i, P in enumerate(post):
                    v = P @ yv
                    want_slack.append(v)
                    if np.any(v < z_lo[i + 1].numpy() - 1e-9) or np.any(
                            v > z_up[i + 1].numpy() + 1e-9):
                        cx.fail("bound of gradient product unsound",
                                net=(widths, slope, idx + 100 * k), y=y,
                                beta=z, layer=i, value=v)
                want_slack = np.concatenate(want_slack)
                for name, enc in encs:
                    r = enc.at(yv, np.array(z))
                    cx.trans()
                    cx.traces()
                    want = G @ yv
                    if r is None:
                        cx.fail("assignment cut off" + name,
                                net=(widths, slope, idx + 100 * k), y=y,
                                beta=z, box=bx)
                        continue
                    cx.outcome(np.round(want, 6))
                    tol = 1e-6 * (1 + np.abs(want))
                    if np.any(r[0] < want - tol) or np.any(r[1] > want + tol):
                        cx.fail("gradient times vector" + name,
                                net=(widths, slope, idx + 100 * k), y=y,
                                beta=z, box=bx, got=r[:2], want=want)
                    if len(want_slack) == len(r[2]) and (np.any(
                            np.abs(r[2] - want_slack) > 1e-6) or np.any(
                                np.abs(r[3] - want_slack) > 1e-6)):
                        cx.fail("slack of gradient times vector" + name,
                                net=(widths, slope, idx + 100 * k), y=y,
                                beta=z, box=bx, got=r[2:], want=want_slack)
        if cx.out_of_time():
            return
    cx.sample(net=(widths, slope, idx + 100 * k), assignments=2**nb)


def single(cx, j):
    """ single precision: the same encoding, all of it in single precision """
    widths, slope, idx, bias = nets.CURATED[j]
    rets = []
    for dtype in (torch.float64, torch.float32):
        net = nets.table_net(widths, slope, idx, bias, dtype)
        free = r2o.ReLUFreePattern(net, dtype)
        lo = torch.tensor([-1., .5][:widths[0]], dtype=dtype)
        rets.append(vars(free.output_gradient_times_vector(lo, lo + 1.5)))
    cx.states()
    for name, a in rets[0].items():
        b = rets[1].get(name)
        cx.trans()
        pairs = list(zip(a, b)) if isinstance(a, (list, tuple)) else [(a, b)]
        for p, q in pairs:
            if not isinstance(p, torch.Tensor):
                continue
            if q is None or q.dtype != torch.float32 or \
                    q.shape != p.shape or not torch.allclose(
                        p, q.double(), rtol=1e-5, atol=1e-6):
                cx.fail("single precision encoding differs: " + name,
                        net=nets.CURATED[j], got=q, want=p)
                return
    cx.traces()
    cx.outcome("single", widths, slope)


def work(cx, task):
    if task[0] == "single":
        single(cx, *task[1:])
    elif task[0] == "grad":
        grad(cx, *task[1:])
    else:
        times(cx, *task[1:])


if __name__ == "__main__":
    mc.main(
        "C04", tasks, work,
        rule="every 0/1 activation assignment (also inconsistent ones) of "
        "every network of the families x every vector box of an alphabet x "
        "corners and interior vectors")
