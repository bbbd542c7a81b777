"""
C01: the mixed-integer encoding of a (leaky) ReLU network is exact.

For every network x box x bound method of the declared families, for every
vertex and midpoint of the network's exact linear cells (and a grid), and for
EVERY assignment of the binary variables, the set of (output, slack) left by
the encoding is compared with the rational reference: the assignment must be
feasible exactly when it is a weakly consistent activation pattern of the
input, and then pin the output to the network's output.
"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
from mip import Encoding  # noqa: E402
from fractions import Fraction as F  # noqa: E402

from neural_network_lyapunov import relu_to_optimization as r2o  # noqa: E402
from neural_network_lyapunov import mip_utils  # noqa: E402

METHODS = ("IA", "LP", "MIP", "IA_MIP")


def tasks(tier):
    ret = []
    fam = list(nets.tiny_family())
    slopes = ("relu", 0.125) if tier == "quick" else ("relu", 0.125, -0.5, 2.)
    chunk = 27
    for s in slopes:
        for i in range(0, len(fam), chunk):
            for bi in range(len(nets.BOXES1) if tier != "quick" else 4):
                ret.append(("tiny", s, i, i + chunk, bi, ("IA", )))
    # the special slopes and optimisation-based bounds on a slice
    for s in ("relu", 0.125, -0.5, 2.):
        for i in range(0, len(fam), 9):
            if tier != "quick" or (i // 9) % 3 == 0:
                ret.append(("tiny", s, i, i + 1, 3, METHODS))
    n = len(nets.CURATED)
    ret += [("single", j, bi) for j in range(n)
            for bi in range(len(nets.boxes(nets.CURATED[j][0][0])))]
    extra = 0 if tier == "quick" else 8
    for j in range(n):
        for k in range(extra + 1):
            for bi in range(len(nets.boxes(nets.CURATED[j][0][0]))):
                if tier == "quick" and bi not in (0, 1, 4):
                    continue
                ret.append(("curated", j, k, bi,
                            METHODS if k % 3 == 0 else ("IA", )))
    return ret


def check_net(cx, layers_desc, net, lo, up, methods, npts):
    layers = cells.layers_of(net)
    cs = cells.network([cells.box_cell(lo, up)], "x", "y", layers)
    pts = cells.vertices(cs) + cells.midpoints(cs) + cells.grid(lo, up, npts)
    pts = sorted(set(pts))
    free = r2o.ReLUFreePattern(net, torch.float64)
    x_lo, x_up = nets.tensor(lo), nets.tensor(up)
    nets.used_before(net, free, lo, up,
                     [mip_utils.PropagateBoundsMethod[m] for m in methods])
    for method in methods:
        ret = free.output_constraint(
            x_lo, x_up, mip_utils.PropagateBoundsMethod[method])
        if not (torch.equal(x_lo, nets.tensor(lo))
                and torch.equal(x_up, nets.tensor(up))):
            cx.fail("input bounds modified", method=method)
        enc = Encoding(ret, num_input=len(lo))
        zs = list(enc.binaries())
        nb = sum(len(W) for W, _, s in layers if s is not None)
        if enc.nb != nb:
            cx.fail("number of binaries", got=enc.nb, want=nb)
            return
        for p in pts:
            y, pres = cells.eval_layers(layers, p)
            flat = [v for layer in pres for v in layer]
            x = np.array([float(v) for v in p])
            want_post = []
            for (W, b, s), pre in zip(layers, pres):
                want_post += [float(v if v >= 0 else s * v) for v in pre]
            feas = 0
            for z in zs:
                cx.trans()
                r = enc.at(x, z)
                consistent = all(
                    v == 0 or (v > 0) == (zi > 0.5)
                    for v, zi in zip(flat, z))
                near = any(v != 0 and abs(v) < F(1, 10**6) for v in flat)
                if r is None:
                    continue
                feas += 1
                if not consistent and not near:
                    cx.fail(f"wrong activation admitted:{method}", x=x, z=z,
                            pre=flat, net=layers_desc, box=(lo, up))
                out_lo, out_up, s_lo, s_up = r
                want = np.array([float(v) for v in y])
                scale = 1e-6 * (1 + np.abs(want).max())
                if np.any(out_lo < want - scale) or np.any(
                        out_up > want + scale):
                    cx.fail(f"output not pinned:{method}", x=x, z=z,
                            range=(out_lo, out_up), want=want,
                            net=layers_desc, box=(lo, up))
                wp = np.array(want_post)
                if len(wp) == len(s_lo):
                    if np.any(s_lo < wp - 1e-6 * (1 + np.abs(wp))) or np.any(
                            s_up > wp + 1e-6 * (1 + np.abs(wp))):
                        cx.fail(f"slack is not the unit output:{method}", x=x,
                                z=z, net=layers_desc, box=(lo, up))
            if feas == 0:
                cx.fail(f"point cut off:{method}", x=x, net=layers_desc,
                        box=(lo, up), want=[float(v) for v in y])
            # the library's own forward pass
            with torch.no_grad():
                fw = net(torch.tensor(x))
            if np.abs(fw.numpy().reshape(-1) -
                      np.array([float(v) for v in y])).max() > 1e-9:
                raise mc.EngineProblem("reference and network disagree")
            cx.states()
            cx.traces()
            cx.outcome(tuple(v > 0 for v in flat), [round(float(v), 6)
                                                    for v in y])
    cx.sample(net=layers_desc, box=(lo, up), points=len(pts),
              cells=len(cs), methods=methods)


def single(cx, j, bi):
    """ single precision: the same encoding (the numbers are dyadic), all of
    it in single precision """
    widths, slope, idx, bias = nets.CURATED[j]
    lo, up = nets.boxes(widths[0])[bi]
    rets = []
    for dtype in (torch.float64, torch.float32):
        net = nets.table_net(widths, slope, idx, bias, dtype)
        free = r2o.ReLUFreePattern(net, dtype)
        rets.append(vars(free.output_constraint(
            nets.tensor(lo, dtype), nets.tensor(up, dtype),
            mip_utils.PropagateBoundsMethod.IA)))
    cx.states()
    for name, a in rets[0].items():
        b = rets[1].get(name)
        cx.trans()
        if not isinstance(a, torch.Tensor):
            continue
        if b is None or b.dtype != torch.float32 or b.shape != a.shape or \
                not torch.allclose(a, b.double(), rtol=1e-5, atol=1e-6):
            cx.fail("single precision encoding differs: " + name,
                    net=nets.CURATED[j], box=(lo, up), got=b, want=a)
            return
    cx.traces()
    cx.outcome("single", widths, slope)


def work(cx, task):
    if task[0] == "single":
        single(cx, *task[1:])
    elif task[0] == "tiny":
        _, slope, a, b, bi, methods = task
        lo, up = nets.BOXES1[bi]
        for desc in list(nets.tiny_family())[a:b]:
            if cx.out_of_time():
                return
            layers = nets.with_slope(desc, slope)
            check_net(cx, layers, nets.seq(layers), lo, up, methods, 3)
    else:
        _, j, k, bi, methods = task
        widths, slope, idx, bias = nets.CURATED[j]
        net = nets.table_net(widths, slope, idx + 100 * k, bias)
        lo, up = nets.boxes(widths[0])[bi]
        check_net(cx, (widths, slope, idx + 100 * k, bias), net, lo, up,
                  methods, 3)


if __name__ == "__main__":
    mc.main(
        "C01", tasks, work,
        rule="for every network/box/bound method of the families: every cell "
        "vertex, cell midpoint and grid point of the input x every 0/1 "
        "assignment of the binaries; the polytope left is bounded by LP and "
        "compared with the exact network output",
        assumptions=["LPs are solved to 1e-9; comparisons at 1e-6"])
