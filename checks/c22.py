"""
C22: networks, their parameter vectors and their saved models.  For every
architecture of a family (depth, widths, bias, slope, dtype) the vector form is
a bijection: each parameter is one entry of the vector and each entry one
parameter, in the same place for values, gradients and rebuilt networks.
Histories of set-up / update / in-place training step / extraction / gradient
clearing / saving / loading over two networks and two vectors are explored to a
depth against a reference that holds plain numpy arrays; nothing may be shared
between objects that the history does not share.
"""
import io
import itertools
import os
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.utils as utils  # noqa: E402
import neural_network_lyapunov.r_options as r_options  # noqa: E402

DT = torch.float64
SLOPES = (0., .1, 1.)


def archs(tier):
    w = [(1, 1), (2, 1), (1, 3), (2, 3, 1), (1, 1, 1), (3, 2, 2),
         (2, 3, 2, 1), (1, 2, 1, 2)]
    if tier != "quick":
        w += [(a, b, c) for a in (1, 2, 3) for b in (1, 2, 4)
              for c in (1, 3)] + [(2, 2, 3, 2, 1), (4, 1, 4)]
    return w


def tasks(tier):
    ts = []
    for w in archs(tier):
        for bias in (True, False):
            for slope in SLOPES:
                ts.append(("vec", w, bias, slope))
    for w in [(2, 3, 1), (1, 2, 1, 2), (2, 1)]:
        for bias in (True, False):
            for first in range(len(OPS)):
                ts.append(("hist", w, bias, first,
                           3 if tier == "quick" else 4))
    ts += [("save", w, bias, slope) for w in archs(tier)
           for bias in (True, False) for slope in SLOPES]
    ts.append(("refuse", ))
    return ts


def nparam(w, bias):
    return sum(a * b + (b if bias else 0) for a, b in zip(w, w[1:]))


def forward(w, bias, slope, p, x):
    """ the network function of a parameter vector, in numpy (row-major
    weights followed by the bias, layer by layer) """
    k = 0
    h = np.asarray(x, dtype=float)
    for i, (a, b) in enumerate(zip(w, w[1:])):
        W = p[k:k + a * b].reshape(b, a)
        k += a * b
        h = h @ W.T
        if bias:
            h = h + p[k:k + b]
            k += b
        if i + 2 < len(w):
            h = np.where(h > 0, h, slope * h)
    return h


def points(n):
    return np.array(list(itertools.product((-1.5, .25, 2.), repeat=n)))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def evaluate(net, n):
    with torch.no_grad():
        return net(torch.from_numpy(points(n))).numpy()


def pvec(w, bias, k=0):
    n = nparam(w, bias)
    return np.sin(1.3 * np.arange(1, n + 1) + k) * 2


def vec(cx, task):
    _, w, bias, slope = task
    n = nparam(w, bias)
    where = dict(width=list(w), bias=bias, slope=slope)
    for k in range(3):
        p = pvec(w, bias, k)
        t = torch.from_numpy(p.copy())
        net = utils.setup_relu(w, t, slope, bias=bias, dtype=DT)
        cx.states()
        cx.trans()
        cx.traces()
        want = forward(w, bias, slope, p, points(w[0]))
        if not close(evaluate(net, w[0]), want):
            cx.fail("network of a parameter vector", **where)
            return
        got = utils.extract_relu_parameters(net)
        if not close(got.numpy(), p, 1e-15) or got.dtype != DT:
            cx.fail("extracting returns the vector", **where)
            return
        if sum(q.numel() for q in net.parameters()) != n or not all(
                q.requires_grad for q in net.parameters()):
            cx.fail("number of trainable parameters", **where)
        # every entry separately: the value, its gradient, its update
        x = torch.from_numpy(points(w[0]))
        c = torch.from_numpy(np.cos(np.arange(1., w[-1] + 1)))
        utils.network_zero_grad(net)
        g0 = utils.extract_relu_parameters_grad(net)
        if not close(g0.numpy(), np.zeros(n)):
            cx.fail("gradient vector before any backward pass", **where)
        (net(x) @ c).sum().backward()
        g = utils.extract_relu_parameters_grad(net).numpy().copy()
        if g.shape != (n, ):
            cx.fail("gradient vector: shape", got=list(g.shape), **where)
            return
        for i in range(n):
            cx.states()
            cx.trans()
            h = 1e-6
            f = []
            for s in (h, -h):
                q = p.copy()
                q[i] += s
                utils.update_relu_params(net, torch.from_numpy(q))
                cx.trans()
                if s > 0 and not close(
                        utils.extract_relu_parameters(net).numpy(), q,
                        1e-15):
                    cx.fail("update, extract", i=i, **where)
                    return
                f.append((forward(w, bias, slope, q, points(w[0]))
                          @ c.numpy()).sum())
                e = (evaluate(net, w[0]) @ c.numpy()).sum()
                if not (abs(e - f[-1]) <= 1e-9 * (1 + abs(e))):
                    cx.fail("updated network", i=i, **where)
                    return
            if not (abs((f[0] - f[1]) / 2 / h - g[i]) <= 1e-5 * (1 + abs(g[i]))):
                cx.fail("gradient vector entry", i=i, got=g[i],
                        want=(f[0] - f[1]) / 2 / h, **where)
                return
        utils.update_relu_params(net, t)
        utils.network_zero_grad(net)
        if not close(utils.extract_relu_parameters_grad(net).numpy(),
                     np.zeros(n)):
            cx.fail("network_zero_grad clears every gradient", **where)
            return
        # every subset of frozen tensors: the vectors keep their layout
        ps = list(net.parameters())
        for frozen in itertools.product((False, True), repeat=len(ps)):
            cx.states()
            cx.trans()
            mask = np.concatenate([np.full(q.numel(), not f) for q, f in zip(
                ps, frozen)])
            for q, f in zip(ps, frozen):
                q.grad = None
                q.requires_grad_(not f)
            if not all(frozen):
                (net(x) @ c).sum().backward()
            gf = utils.extract_relu_parameters_grad(net).numpy()
            if gf.shape != (n, ) or not close(gf, np.where(mask, g, 0.)):
                cx.fail("gradient vector with frozen tensors",
                        frozen=frozen, **where)
                break
            if not close(utils.extract_relu_parameters(net).numpy(), p,
                         1e-15):
                cx.fail("vector with frozen tensors", frozen=frozen, **where)
                break
            utils.network_zero_grad(net)
            if not close(utils.extract_relu_parameters_grad(net).numpy(),
                         np.zeros(n)):
                cx.fail("network_zero_grad with frozen tensors",
                        frozen=frozen, **where)
                break
        for q in ps:
            q.requires_grad_(True)
            q.grad = None
        cw, cs, cb = utils.extract_relu_structure(net)
        if tuple(cw) != tuple(w) or cb != bias or (
                len(w) > 2 and cs != slope):
            cx.fail("structure", got=[cw, cs, cb], **where)
            return
        cx.outcome(w, bias, slope, k)
    # a plain ReLU network is the leaky one with slope 0
    layers = []
    for i, (a, b) in enumerate(zip(w, w[1:])):
        layers.append(torch.nn.Linear(a, b, bias=bias).type(DT))
        if i + 2 < len(w):
            layers.append(torch.nn.ReLU())
    net = torch.nn.Sequential(*layers)
    cw, cs, cb = utils.extract_relu_structure(net)
    if tuple(cw) != tuple(w) or cb != bias or (len(w) > 2 and cs != 0):
        cx.fail("structure of a ReLU network", got=[cw, cs, cb], **where)
    p = pvec(w, bias, 5)
    utils.update_relu_params(net, torch.from_numpy(p))
    if not close(evaluate(net, w[0]), forward(w, bias, 0., p, points(w[0]))):
        cx.fail("update of a ReLU network", **where)
    cx.sample(**where)


OPS = ("build0", "update0", "update1", "train0", "train1", "extract0",
       "backward0", "backward1", "zero0", "grad0", "mutvec0",
       "saveload0")


def hist(cx, task):
    """ two networks, two vectors; reference: numpy copies of the vectors,
    the networks' parameters and gradients """
    _, w, bias, first, depth = task
    slope = .1
    n = nparam(w, bias)
    xs = torch.from_numpy(points(w[0]))
    c = torch.ones(w[-1], dtype=DT)

    def grad(p):
        q = torch.from_numpy(p.copy()).requires_grad_(True)
        k = 0
        h = xs
        for i, (a, b) in enumerate(zip(w, w[1:])):
            W = q[k:k + a * b].reshape(b, a)
            k += a * b
            h = h @ W.T
            if bias:
                h = h + q[k:k + b]
                k += b
            if i + 2 < len(w):
                h = torch.where(h > 0, h, slope * h)
        (h @ c).sum().backward()
        return q.grad.numpy()

    def run(seq):
        vecs = [torch.from_numpy(pvec(w, bias, k)) for k in range(2)]
        rv = [v.numpy().copy() for v in vecs]
        nets = [utils.setup_relu(w, v, slope, bias=bias, dtype=DT)
                for v in vecs]
        rp = [v.copy() for v in rv]
        rg = [np.zeros(n), np.zeros(n)]
        for op in seq:
            cx.trans()
            k = int(op[-1]) if op[-1].isdigit() else 0
            if op == "build0":
                nets[0] = utils.setup_relu(w, vecs[0], slope, bias=bias,
                                           dtype=DT)
                rp[0], rg[0] = rv[0].copy(), np.zeros(n)
            elif op.startswith("update"):
                # network k takes vector 0
                utils.update_relu_params(nets[k], vecs[0])
                rp[k] = rv[0].copy()
            elif op.startswith("train"):
                with torch.no_grad():
                    for q in nets[k].parameters():
                        q.mul_(.5).add_(.25)
                rp[k] = rp[k] * .5 + .25
            elif op == "extract0":
                vecs[1] = utils.extract_relu_parameters(nets[0])
                rv[1] = rp[0].copy()
            elif op.startswith("backward"):
                (nets[k](xs) @ c).sum().backward()
                rg[k] = rg[k] + grad(rp[k])
            elif op == "zero0":
                utils.network_zero_grad(nets[0])
                rg[0] = np.zeros(n)
            elif op == "grad0":
                g = utils.extract_relu_parameters_grad(nets[0])
                if not close(g.detach().numpy(), rg[0]):
                    cx.fail("gradient vector after a history", seq=seq)
                    return False
            elif op == "mutvec0":
                vecs[0].mul_(-1).add_(1.)
                rv[0] = 1. - rv[0]
            elif op == "saveload0":
                f = io.BytesIO()
                utils.save_controller_model(
                    nets[0], None, None, None, None, f)
                f.seek(0)
                d = torch.load(f, weights_only=False)
                nets[0] = utils.setup_relu(
                    d["linear_layer_width"], None, d["negative_slope"],
                    bias=d["bias"], dtype=DT)
                nets[0].load_state_dict(d["state_dict"])
                rg[0] = np.zeros(n)
            for i in range(2):
                if not close(vecs[i].detach().numpy(), rv[i], 1e-12):
                    cx.fail("parameter vector after a history", i=i,
                            width=list(w), bias=bias, seq=seq)
                    return False
                if not close(evaluate(nets[i], w[0]),
                             forward(w, bias, slope, rp[i],
                                     points(w[0]))):
                    cx.fail("network after a history", i=i, width=list(w),
                            bias=bias, seq=seq)
                    return False
                gv = np.concatenate([
                    (q.grad if q.grad is not None else
                     torch.zeros_like(q)).numpy().reshape(-1)
                    for q in nets[i].parameters()])
                if not close(gv, rg[i]):
                    cx.fail("gradients after a history", i=i,
                            width=list(w), bias=bias, seq=seq)
                    return False
        cx.outcome(seq[-1], np.round(rp[0][:3], 6), np.round(rp[1][:3], 6))
        return True

    for rest in itertools.product(OPS, repeat=depth - 1):
        if cx.out_of_time():
            return
        cx.states()
        cx.traces()
        if not run((OPS[first], ) + rest):
            return
    cx.sample(width=list(w), bias=bias, seq=(OPS[first], ) + rest)


def same(a, b):
    if isinstance(b, torch.Tensor):
        return isinstance(a, torch.Tensor) and a.shape == b.shape and bool(
            torch.all(a == b))
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    return a == b


def save(cx, task):
    _, w, bias, slope = task
    where = dict(width=list(w), bias=bias, slope=slope)
    p = pvec(w, bias, 2)
    want = forward(w, bias, slope, p, points(w[0]))
    q = torch.tensor([1., -2.5], dtype=DT)
    u = torch.tensor([.125], dtype=DT)
    spd = r_options.SearchRwithSPDOptions((3, 2), .25)
    spd.set_variable_value(np.array([[2., .5], [.5, 3.], [-1., 4.]]))
    svd = r_options.SearchRwithSVDOptions((3, 2), np.array([.1, .2]))
    svd.set_variable_value(np.array([[2., .5], [-.5, 3.], [-1., 4.]]))
    free = r_options.SearchRfreeOptions((2, 2))
    free.set_variable_value(np.array([[2., .5], [-.5, 3.]]))
    fix = r_options.FixedROptions(torch.tensor([[2., .5], [-.5, 3.]],
                                               dtype=DT))

    def load(d):
        net = utils.setup_relu(d["linear_layer_width"], None,
                               d["negative_slope"], bias=d["bias"],
                               dtype=DT)
        net.load_state_dict(d["state_dict"])
        return net

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "m.pt")
        calls = [("forward", lambda net: utils.save_second_order_forward_model(
            net, q, u, .05, path),
            dict(q_equilibrium=q, u_equilibrium=u, dt=.05)),
            ("controller", lambda net: utils.save_controller_model(
                net, q, q + 3., u, u + 1., path),
             dict(x_lo=q, x_up=q + 3., u_lo=u, u_up=u + 1.))]
        for name, R in (("spd", spd), ("svd", svd), ("free", free),
                        ("fixed", fix)):
            calls.append(("lyapunov " + name,
                          lambda net, R=R: utils.save_lyapunov_model(
                              net, .5, .01, .2, "ExpUpper", R, path),
                          dict(V_lambda=.5, lyapunov_positivity_epsilon=.01,
                               lyapunov_derivative_epsilon=.2,
                               eps_type="ExpUpper", R=R.R(),
                               fixed_R=R.fixed_R)))
        for name, call, fields in calls:
            cx.states()
            cx.trans()
            cx.traces()
            net = utils.setup_relu(w, torch.from_numpy(p.copy()), slope,
                                   bias=bias, dtype=DT)
            call(net)
            if not close(evaluate(net, w[0]), want):
                cx.fail("saving leaves the network alone", model=name,
                        **where)
                return
            d = torch.load(path, weights_only=False)
            # what is saved is the network then, not the network now
            with torch.no_grad():
                for t in net.parameters():
                    t.zero_()
            m = load(d)
            if not close(evaluate(m, w[0]), want):
                cx.fail("saved and loaded network", model=name, **where)
                return
            for k, v in fields.items():
                if k not in d or not same(d[k], v):
                    cx.fail("saved field", model=name, field=k,
                            got=d.get(k), want=v, **where)
                    return
            if name.endswith("spd"):
                R = r_options.SearchRwithSPDOptions(d["R_size"],
                                                    d["R_epsilon"])
                R.set_variable_value_directly(
                    d["R_variables"][0].detach().numpy())
            elif name.endswith("svd"):
                R = r_options.SearchRwithSVDOptions(d["R_size"], d["R_a"])
                R.set_variable_value(d["R"].detach().numpy())
            elif name.endswith("free"):
                R = r_options.SearchRfreeOptions(d["R_size"])
                R.set_variable_value(d["R"].detach().numpy())
            elif name.endswith("fixed"):
                R = r_options.FixedROptions(d["R"])
            else:
                R = None
            if R is not None and not close(R.R().detach().numpy(),
                                           fields["R"].detach().numpy()):
                cx.fail("R rebuilt from the saved model", model=name,
                        **where)
            cx.outcome(name, w, bias, slope)
    cx.sample(**where)


def refuse(cx, task):
    def seq(*ls):
        return torch.nn.Sequential(*ls)
    L = torch.nn.Linear
    for name, net in (
            ("mixed slopes", seq(L(1, 2), torch.nn.LeakyReLU(.1), L(2, 2),
                                 torch.nn.LeakyReLU(.2), L(2, 1))),
            ("relu and leaky", seq(L(1, 2), torch.nn.ReLU(), L(2, 2),
                                   torch.nn.LeakyReLU(.2), L(2, 1))),
            ("leaky and relu", seq(L(1, 2), torch.nn.LeakyReLU(.2), L(2, 2),
                                   torch.nn.ReLU(), L(2, 1))),
            ("mixed bias", seq(L(1, 2), torch.nn.ReLU(),
                               L(2, 1, bias=False))),
            ("mixed bias 2", seq(L(1, 2, bias=False), torch.nn.ReLU(),
                                 L(2, 1))),
            ("tanh", seq(L(1, 2), torch.nn.Tanh(), L(2, 1)))):
        cx.states()
        cx.trans()
        cx.traces()
        try:
            r = utils.extract_relu_structure(net)
            cx.fail("a network without one common structure is refused",
                    net=name, got=r)
        except Exception:
            pass
        cx.outcome(name)


def work(cx, task):
    {"vec": vec, "hist": hist, "save": save, "refuse": refuse}[task[0]](
        cx, task)


if __name__ == "__main__":
    mc.main("C22", tasks, work,
            rule="every architecture x every entry of the parameter vector; "
            "every history of operations over two networks and two vectors "
            "up to the depth; every kind of saved model; states = entries or "
            "histories, transitions = operations compared with the numpy "
            "reference",
            assumptions=["models are loaded with torch.load("
                         "weights_only=False), as the installed torch "
                         "requires"])
