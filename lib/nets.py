"""
Declared, finite families of networks and boxes.  Everything is dyadic, so the
float64 networks handed to the code under test and the exact rational
reference describe the same function.
"""
import contextlib
import itertools
from fractions import Fraction as F

import torch


def seq(layers, dtype=torch.float64):
    """ layers: [(W, b or None, slope or None)]; slope "relu" -> nn.ReLU """
    mods = []
    for W, b, s in layers:
        lin = torch.nn.Linear(len(W[0]), len(W), bias=b is not None).to(dtype)
        lin.weight.data = torch.tensor([[float(v) for v in r] for r in W],
                                       dtype=dtype)
        if b is not None:
            lin.bias.data = torch.tensor([float(v) for v in b], dtype=dtype)
        mods.append(lin)
        if s == "relu":
            mods.append(torch.nn.ReLU())
        elif s is not None:
            mods.append(torch.nn.LeakyReLU(float(s)))
    return torch.nn.Sequential(*mods)


def stream(k):
    """ A fixed sequence of quarter-integers in [-1.5, 1.5]: a table, not a
    sample: entry i of stream k never changes. """
    state = (k * 2654435761 + 12345) % (2**31)
    while True:
        state = (state * 1103515245 + 12345) % (2**31)
        yield F(((state >> 12) % 13) - 6, 4)


def table_net(widths, slope, k, bias=True, dtype=torch.float64):
    """ slope: of every hidden layer, or a tuple with one per layer """
    s = stream(k)
    layers = []
    for i in range(len(widths) - 1):
        W = [[next(s) for _ in range(widths[i])]
             for _ in range(widths[i + 1])]
        has_b = bias if isinstance(bias, bool) else bias[i]
        b = [next(s) / 2 for _ in range(widths[i + 1])] if has_b else None
        at = slope[i % len(slope)] if isinstance(slope, tuple) else slope
        layers.append((W, b, at if i < len(widths) - 2 else None))
    return seq(layers, dtype)


@contextlib.contextmanager
def earlier(*modules):
    """ inside the block the modules (or parameters) have other values, as
    they had earlier in a training run; afterwards the present ones again,
    in the same tensors """
    params = []
    for m in modules:
        params += list(m.parameters()) if isinstance(
            m, torch.nn.Module) else [m]
    keep = [p.detach().clone() for p in params]
    with torch.no_grad():
        for p in params:
            p.mul_(-.5).add_(.375)
    try:
        yield
    finally:
        with torch.no_grad():
            for p, k in zip(params, keep):
                p.copy_(k)


def table_mat(rows, cols, k, scale=F(1)):
    s = stream(k)
    return [[next(s) * scale for _ in range(cols)] for _ in range(rows)]


def tensor(m, dtype=torch.float64):
    def f(v):
        return [f(x) for x in v] if isinstance(v, (list, tuple)) else float(v)
    return torch.tensor(f(m), dtype=dtype)


class Aged:
    """ stands for an object that has been used before: the first calls of
    every method are made once with other parameters (and the result thrown
    away) before they are made for real """
    def __init__(self, obj, *modules, calls=3):
        self.__dict__.update(_obj=obj, _calls=calls, _made={},
                             _modules=[m for m in modules if m is not None])

    def __setattr__(self, name, value):
        setattr(self._obj, name, value)

    def __getattr__(self, name):
        attr = getattr(self._obj, name)
        if not callable(attr) or isinstance(attr, torch.nn.Module):
            return attr

        def call(*args, **kwargs):
            n = self._made[name] = self._made.get(name, 0) + 1
            plain = not any(hasattr(a, "gurobi_model") or hasattr(a, "milp")
                            for a in args)
            if n <= self._calls and plain:
                with earlier(*self._modules):
                    try:
                        attr(*args, **kwargs)
                    except Exception:
                        pass
            return attr(*args, **kwargs)
        return call


def slopes(cx, f, leaves, what, kw, modules, entries=6):
    """ the gradient of the scalar f() is its derivative with respect to every
    leaf; entries with a kink are skipped, so is everything when a unit of the
    modules is at its kink """
    at = []

    def look(m, args, out):
        at.append(float(args[0].detach().abs().min()))
    hooks = [m.register_forward_hook(look) for q in modules
             if isinstance(q, torch.nn.Module) for m in q.modules()
             if isinstance(m, (torch.nn.ReLU, torch.nn.LeakyReLU))]
    try:
        out = f()
    finally:
        for h in hooks:
            h.remove()
    if at and min(at) < 1e-6:
        cx.count("kinks (no gradient)")
        return True
    grads = torch.autograd.grad(out, leaves, allow_unused=True) if \
        out.requires_grad else [None] * len(leaves)
    hs = 2.**-18
    base = float(out.detach())
    for t, (leaf, g) in enumerate(zip(leaves, grads)):
        flat = leaf.detach().view(-1)
        for i in range(min(flat.numel(), entries)):
            keep, ds = float(flat[i]), []
            for s in (hs, -hs):
                flat[i] = keep + s
                ds.append((float(f().detach()) - base) / s)
                flat[i] = keep
            if abs(ds[0] - ds[1]) > 1e-4 * max(1, abs(ds[0])):
                cx.count("kinks (no gradient)")
                continue
            cx.trans()
            got = 0. if g is None else float(g.reshape(-1)[i])
            if not (abs(got - ds[0]) <= 1e-3 * max(1, abs(ds[0]))):
                return cx.fail("gradient of " + what, tensor=t, entry=i,
                               got=got, want=ds, **kw)
    return True


def used_before(net, free, lo, up, methods):
    """ what the network has been asked for before: another box with the
    present parameters, then the same box with other parameters """
    lo, up = tensor(lo), tensor(up)
    for m in methods:
        free.output_constraint(lo + .25, up + .75, m)
        # everything different, or the last layer alone
        for part in ([m for m in net if hasattr(m, "weight")][-1], net):
            with earlier(part):
                free.output_constraint(lo, up, m)


BOXES1 = [([-1], [1]), ([0], [1]), ([-1], [0]), ([F(-1, 2)], [F(3, 2)]),
          ([F(1, 4)], [F(1, 4)])]
BOXES2 = [([-1, -1], [1, 1]), ([0, -1], [1, F(1, 2)]),
          ([F(-1, 2), F(1, 4)], [F(3, 2), F(1, 4)])]


def tiny_family(weights=(-1, F(1, 2), 0), biases=(0, F(-1, 2), 1),
                out=((1, -1), (F(-1, 2), 1))):
    """ every 1-2-1 network with first-layer weights/biases in the alphabet
    (an exhaustive family), output weights from `out` """
    for w in itertools.product(weights, repeat=2):
        for b in itertools.product(biases, repeat=2):
            for o in out:
                yield [([[w[0]], [w[1]]], list(b), None), ([list(o)],
                                                           [F(1, 4)], None)]


def with_slope(layers, slope):
    n = len(layers)
    return [(W, b, slope if i < n - 1 else None)
            for i, (W, b, _) in enumerate(layers)]


# (widths, slope, table index, bias): shapes x activations x bias patterns.
CURATED = [
    ((1, 1, 1), "relu", 1, True),
    ((1, 1, 1), 0.125, 2, True),
    ((1, 2, 2, 1), "relu", 3, True),
    ((1, 3, 2, 1), 0.125, 4, True),
    ((1, 2, 2, 2), 0.5, 5, (True, False, True)),
    ((2, 2, 1), "relu", 6, True),
    ((2, 3, 1), "relu", 7, False),
    ((2, 3, 2), 0.125, 8, True),
    ((2, 2, 2, 1), "relu", 9, True),
    ((2, 2, 2, 1), 0.25, 10, False),
    ((2, 3, 2, 2), "relu", 11, (True, False, False)),
    ((2, 3, 3, 1), 0.125, 12, True),
    ((1, 2, 2, 2, 1), "relu", 13, True),
    ((2, 2, 3, 2, 1), 0.125, 14, (False, True, False, True)),
    ((2, 4, 1), 0.125, 15, (False, True)),
    ((2, 4, 2), "relu", 16, True),
    # a different activation in every hidden layer
    ((1, 2, 2, 1), ("relu", 0.25), 17, True),
    ((2, 2, 2, 1), (0.125, 0.5), 18, (True, False, True)),
    ((2, 2, 2, 2), (0.25, "relu"), 19, True),
    ((1, 2, 2, 2, 1), (0.5, "relu", 0.125), 20, True),
]


def boxes(d):
    return BOXES1 if d == 1 else BOXES2
