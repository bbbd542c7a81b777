"""
C03: activation patterns, linear pieces and gradients of (leaky) ReLU networks
(and of the 1- and infinity-norm) agree with the exact function at every
point, also at kinks, where every one-sided derivative is reported.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
from fractions import Fraction as F  # noqa: E402

from neural_network_lyapunov import relu_to_optimization as r2o  # noqa: E402
from neural_network_lyapunov import utils  # noqa: E402


def tasks(tier):
    ret = []
    fam = len(list(nets.tiny_family()))
    for s in ("relu", 0.125, -0.5, 2.):
        for i in range(0, fam, 27):
            ret.append(("tiny", s, i, i + 27))
    for j in range(len(nets.CURATED)):
        for k in range(2 if tier == "quick" else 12):
            for bi in range(len(nets.boxes(nets.CURATED[j][0][0]))):
                ret.append(("curated", j, k, bi))
    ret += [("l1", n) for n in (1, 2, 3)] + [("linf", n) for n in (1, 2, 3)]
    ret += [("numgrad", )]
    return ret


def rows(t):
    a = t.detach().numpy()
    return sorted(tuple(np.round(r.reshape(-1), 9) + 0.) for r in a)


def piece(layers, d, pat):
    """ affine maps of the network and of all pre-activations under a given
    (arbitrary) activation pattern """
    cur = [cells.Aff([F(int(i == j)) for j in range(d)], F(0))
           for i in range(d)]
    pres = []
    k = 0
    for W, b, s in layers:
        cur = [cells.aff_sum(r, cur, b[i] if b is not None else F(0), d)
               for i, r in enumerate(W)]
        if s is not None:
            pres.append(cur)
            cur = [f if a else f * s for f, a in zip(cur, pat[k])]
            k += 1
    return cur, pres


def check_net(cx, desc, net, lo, up):
    layers = cells.layers_of(net)
    d = len(lo)
    widths = [len(W) for W, _, s in layers if s is not None]
    nb = sum(widths)
    cs = cells.network([cells.box_cell(lo, up)], "x", "y", layers)
    pts = sorted(set(cells.vertices(cs) + cells.midpoints(cs) +
                     cells.grid(lo, up, 3)))
    free = r2o.ReLUFreePattern(net, torch.float64)
    pieces = {}
    for z in itertools.product((0, 1), repeat=nb):
        pat, k = [], 0
        for w in widths:
            pat.append([bool(v) for v in z[k:k + w]])
            k += w
        got_pat = r2o.relu_activation_binary_to_pattern(
            net, np.array(z, dtype=float))
        cx.trans()
        if [[bool(v) for v in r] for r in got_pat] != pat:
            cx.fail("binary to pattern", z=z, got=got_pat)
        with nets.earlier(net):
            r2o.ReLUGivenActivationPattern(net, d, pat, torch.float64)
        g, h, P, q = r2o.ReLUGivenActivationPattern(net, d, pat,
                                                    torch.float64)
        cur, pres = piece(layers, d, pat)
        want_g = np.array([[float(a) for a in f.a] for f in cur])
        want_h = np.array([float(f.c) for f in cur])
        if not (np.allclose(g.detach().numpy().T, want_g, atol=1e-9)
                and np.allclose(h.detach().numpy().reshape(-1), want_h,
                                atol=1e-9)):
            cx.fail("linear piece", net=desc, pattern=pat, g=g, h=h,
                    want=(want_g, want_h))
        pieces[z] = (want_g, want_h, P.detach().numpy(),
                     q.detach().numpy().reshape(-1), pres, pat)
    for p in pts:
        y, pre = cells.eval_layers(layers, p)
        flat = [v for r in pre for v in r]
        x = np.array([float(v) for v in p])
        xt = torch.tensor(x)
        cx.states()
        cx.traces()
        # float evaluation must reproduce exact zeros for the kink tests
        with torch.no_grad():
            fl, cur = [], xt
            for m in net:
                if not isinstance(m, torch.nn.Linear):
                    fl += cur.tolist()
                cur = m(cur)
        exact = all((a > 0) == (b > 0) and (a < 0) == (b < 0)
                    for a, b in zip(fl, flat))
        consistent = [z for z in pieces
                      if all(v == 0 or (v > 0) == bool(a)
                             for v, a in zip(flat, z))]
        for z, (g, h, P, q, pres, pat) in pieces.items():
            cx.trans()
            # margins of the polyhedron, exactly
            inside = z in consistent
            gap = np.max(P @ x - q) if len(q) else -1.
            if inside and gap > 1e-9 or (not inside and gap < 1e-12 and
                                         min([abs(v) for v in flat if v != 0]
                                             or [1]) > F(1, 10**6)):
                cx.fail("polyhedron of the piece", net=desc, x=x, pattern=pat,
                        gap=gap, inside=inside)
        if not exact:
            continue
        pat = r2o.ComputeReLUActivationPattern(net, xt)
        got = tuple(int(bool(v)) for r in pat for v in r)
        if got != tuple(int(v >= 0) for v in flat) or [
                len(r) for r in pat] != widths:
            cx.fail("activation pattern", net=desc, x=x, got=got, pre=flat)
        al = r2o.compute_all_relu_activation_patterns(net, xt)
        got = sorted(tuple(int(bool(v)) for r in pp for v in r) for pp in al)
        if got != sorted(consistent):
            cx.fail("all activation patterns", net=desc, x=x, got=got,
                    want=consistent)
        zz, beta, output = free.compute_relu_unit_outputs_and_activation(xt)
        post = []
        for (W, b, s), pr in zip(layers, pre):
            post += [float(v if v >= 0 else s * v) for v in pr]
        yv = np.array([float(v) for v in y])
        outv = np.asarray(output.detach().numpy() if isinstance(
            output, torch.Tensor) else output).reshape(-1)
        if not (np.allclose(zz.detach().numpy().reshape(-1), post, atol=1e-9)
                and tuple(beta.reshape(-1).tolist()) in
                [tuple(float(v) for v in c) for c in consistent]
                and np.allclose(outv, yv, atol=1e-9)):
            cx.fail("unit outputs and activation", net=desc, x=x,
                    z=zz, beta=beta, output=output, want=(post, flat, yv))

        class B:
            start = None
        bs = [B() for _ in range(nb)]
        r2o.set_activation_warmstart(net, bs, xt)
        if tuple(int(b.start) for b in bs) not in consistent:
            cx.fail("activation warm start", net=desc, x=x,
                    got=[b.start for b in bs])
        grad = utils.relu_network_gradient(net, xt)
        want = {tuple(np.round(pieces[z][0].reshape(-1), 9) + 0.)
                for z in consistent}
        got = set(rows(grad))
        if got != want or tuple(grad.shape[1:]) != (len(y), d):
            cx.fail("network gradients", net=desc, x=x, got=got, want=want)
        # with a tolerance band: every unit with |input| <= tol both ways
        tol = F(1, 4)
        band = [z for z in pieces
                if all(abs(v) <= tol or (v > 0) == bool(a)
                       for v, a in zip(flat, z))]
        want = {tuple(np.round(pieces[z][0].reshape(-1), 9) + 0.)
                for z in band}
        # only when no |input| sits within rounding of the band's edge
        if all((abs(v) <= tol) == (abs(w) <= float(tol))
               for v, w in zip(flat, fl)):
            grad = utils.relu_network_gradient(net, xt, zero_tol=float(tol))
            if set(rows(grad)) != want:
                cx.fail("network gradients, tolerance", net=desc, x=x,
                        got=rows(grad), want=want)
        cx.outcome(len(consistent), len(band), sorted(want)[0])
    cx.sample(net=desc, box=(lo, up), patterns=len(pieces), points=len(pts))


def l1(cx, n):
    vals = (-2., -0.25, -0.125, 0., 0.125, 0.25, 1.)
    for x in itertools.product(vals, repeat=n):
        for tol in (0., 0.125, 0.2, 0.25, 3.):
            for samples in (None, np.array([0.5]), np.array([-0.25, 0.75])):
                extra = [] if samples is None else samples.tolist()
                got = utils.l1_gradient(torch.tensor(x).double(),
                                        zero_tol=tol,
                                        subgradient_samples=samples)
                choices = [[1., -1.] + extra if abs(v) <= tol else
                           [float(np.sign(v))] for v in x]
                want = sorted(itertools.product(*choices))
                cx.states()
                cx.trans(len(want))
                cx.traces()
                cx.outcome(n, want)
                if rows(got) != want or got.dtype != torch.float64:
                    cx.fail("1-norm gradients", x=x, zero_tol=tol,
                            samples=extra, got=got, want=want)


def linf(cx, n):
    vals = (-2., -1.875, -0.25, 0., 0.125, 2.)
    for x in itertools.product(vals, repeat=n):
        for tol in (0., 0.0625, 0.125, 0.5):
            got = utils.l_infinity_gradient(torch.tensor(x).double(),
                                            max_tol=tol)
            m = max(abs(v) for v in x)
            want = set()
            for i, v in enumerate(x):
                for s in (1., -1.):
                    if m <= tol or s * v >= m - tol:
                        want.add(tuple(s if j == i else 0.
                                       for j in range(n)))
            cx.states()
            cx.trans()
            cx.traces()
            cx.outcome(n, sorted(want))
            if set(rows(got)) != want or got.shape[1] != n:
                cx.fail("infinity-norm gradients", x=x, max_tol=tol, got=got,
                        want=want)


def numgrad(cx):
    vals = (-1., 0., 0.5)
    for a in itertools.product(vals, repeat=2):
        for x in itertools.product(vals, repeat=2):
            for y in itertools.product(vals, repeat=1):
                def f(p, q):
                    return np.array([a[0] * p[0] * q[0] + p[1],
                                     a[1] * p[1] + q[0] * q[0], p[0]])

                def g(p):
                    return float(a[0] * p[0] * p[1] + a[1] * p[1])
                p, q = np.array(x), np.array(y)
                G = utils.compute_numerical_gradient(f, p, q, dx=1e-3)
                H = utils.compute_numerical_gradient(g, p, dx=1e-3)
                cx.states()
                cx.trans(2)
                cx.traces()
                want = [np.array([[a[0] * y[0], 1], [0, a[1]], [1, 0]]),
                        np.array([[a[0] * x[0]], [2 * y[0]], [0]])]
                wh = np.array([a[0] * x[1], a[0] * x[0] + a[1]])
                if not (np.allclose(G[0], want[0], atol=1e-9)
                        and np.allclose(G[1], want[1], atol=1e-9)
                        and np.allclose(H, wh, atol=1e-9)
                        and np.array_equal(p, x) and np.array_equal(q, y)):
                    cx.fail("numerical gradient", a=a, x=x, y=y, got=G, H=H)


def work(cx, task):
    if task[0] == "tiny":
        _, slope, a, b = task
        lo, up = [F(-1)], [F(1)]
        for desc in list(nets.tiny_family())[a:b]:
            if cx.out_of_time():
                return
            layers = nets.with_slope(desc, slope)
            check_net(cx, layers, nets.seq(layers), lo, up)
    elif task[0] == "curated":
        _, j, k, bi = task
        widths, slope, idx, bias = nets.CURATED[j]
        net = nets.table_net(widths, slope, idx + 100 * k, bias)
        lo, up = nets.boxes(widths[0])[bi]
        check_net(cx, (widths, slope, idx + 100 * k, bias), net, lo, up)
    elif task[0] == "l1":
        l1(cx, task[1])
    elif task[0] == "linf":
        linf(cx, task[1])
    else:
        numgrad(cx)


if __name__ == "__main__":
    mc.main(
        "C03", tasks, work,
        rule="every activation pattern of every network x every vertex, "
        "midpoint and grid point of the exact cells; every vector of a small "
        "alphabet for the norms")
