"""
Reference model: exact set-valued piecewise-affine functions over a 1-D or 2-D
box, by explicit enumeration of their cells.

A Cell is a closed convex polygon (or interval), given by its exact rational
vertices, together with named affine maps (rows of coefficients over x plus a
constant).  Splitting a cell along {g(x) = 0} keeps BOTH closed halves, also
when a half is only an edge or a point: a cell therefore stands for one choice
of activations that is weakly consistent on it, which is exactly what a
mixed-integer encoding with weak inequalities may choose.

All arithmetic is over Fractions: no tolerance, no solver.
"""
from fractions import Fraction as F

import itertools


def fr(v):
    """ number / tensor -> (nested list of) Fraction, exactly. """
    if isinstance(v, F):
        return v
    if hasattr(v, "detach"):
        v = v.detach().cpu().tolist()
    elif hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [fr(x) for x in v]
    return F(v)


class Aff:
    """ scalar affine function a.x + c """
    __slots__ = ("a", "c")

    def __init__(self, a, c):
        self.a = tuple(a)
        self.c = c

    def __call__(self, x):
        return sum((ai * xi for ai, xi in zip(self.a, x)), self.c)

    def __add__(self, o):
        if isinstance(o, Aff):
            return Aff([p + q for p, q in zip(self.a, o.a)], self.c + o.c)
        return Aff(self.a, self.c + o)

    def __sub__(self, o):
        return self + (o * F(-1) if isinstance(o, Aff) else -o)

    def __mul__(self, k):
        return Aff([k * p for p in self.a], k * self.c)

    def is_const(self):
        return all(p == 0 for p in self.a)


def aff_sum(coeffs, affs, const, d):
    a = [F(0)] * d
    c = const
    for k, f in zip(coeffs, affs):
        if k == 0:
            continue
        for i in range(d):
            a[i] += k * f.a[i]
        c += k * f.c
    return Aff(a, c)


class Cell:
    __slots__ = ("verts", "m", "tag")

    def __init__(self, verts, m, tag=()):
        self.verts = verts  # tuple of tuples of Fraction
        self.m = m  # dict name -> list of Aff
        self.tag = tag  # choices made so far

    def with_map(self, name, affs, tag=None):
        m = dict(self.m)
        m[name] = affs
        return Cell(self.verts, m, self.tag if tag is None else self.tag +
                    (tag, ))


def clip(verts, f, sign):
    """ the part of the polygon/interval where sign * f >= 0 """
    vals = [sign * f(v) for v in verts]
    if all(t >= 0 for t in vals):
        return verts
    if all(t < 0 for t in vals):
        return None
    n = len(verts)
    if n == 1:
        return None
    out = []
    pairs = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
    for i, j in pairs:
        if vals[i] >= 0:
            out.append(verts[i])
        if (vals[i] > 0 > vals[j]) or (vals[i] < 0 < vals[j]):
            t = vals[i] / (vals[i] - vals[j])
            out.append(
                tuple(p + t * (q - p) for p, q in zip(verts[i], verts[j])))
    if n == 2 and vals[1] >= 0:
        out.append(verts[1])
    uniq = []
    for v in out:
        if v not in uniq:
            uniq.append(v)
    return tuple(uniq) if uniq else None


def box_cell(lo, up):
    lo, up = fr(lo), fr(up)
    d = len(lo)
    if d == 1:
        verts = ((lo[0], ), (up[0], )) if lo[0] != up[0] else ((lo[0], ), )
    elif d == 2:
        verts = []
        for v in ((lo[0], lo[1]), (up[0], lo[1]), (up[0], up[1]),
                  (lo[0], up[1])):
            if v not in verts:
                verts.append(v)
        verts = tuple(verts)
    else:
        raise NotImplementedError
    x = [Aff([F(int(i == j)) for j in range(d)], F(0)) for i in range(d)]
    return Cell(verts, {"x": x})


def split(cell, f, tag=False):
    """ [(side, closed half)] """
    ret = []
    for sign in (1, -1):
        v = clip(cell.verts, f, sign)
        if v is not None:
            ret.append((sign, Cell(v, cell.m, cell.tag)))
    return ret


def affine(cells, src, dst, W, b):
    W, b = fr(W), (fr(b) if b is not None else None)
    ret = []
    for c in cells:
        d = len(c.verts[0])
        affs = [
            aff_sum(row, c.m[src], b[i] if b is not None else F(0), d)
            for i, row in enumerate(W)
        ]
        ret.append(c.with_map(dst, affs))
    return ret


def activation(cells, src, dst, slope):
    """ (leaky) ReLU, componentwise; tags each choice with 0/1. """
    slope = fr(slope)
    work = [(c, ()) for c in cells]
    n = len(cells[0].m[src]) if cells else 0
    for i in range(n):
        nxt = []
        for c, pat in work:
            for sign, h in split(c, c.m[src][i]):
                nxt.append((h, pat + (1 if sign > 0 else 0, )))
        work = nxt
    ret = []
    for c, pat in work:
        affs = [
            f if p else f * slope for f, p in zip(c.m[src], pat)
        ]
        ret.append(c.with_map(dst, affs, tag=(dst, pat)))
    return ret


def absolute(cells, src, dst):
    work = [(c, ()) for c in cells]
    n = len(cells[0].m[src]) if cells else 0
    for i in range(n):
        nxt = []
        for c, pat in work:
            for sign, h in split(c, c.m[src][i]):
                nxt.append((h, pat + (sign, )))
        work = nxt
    return [
        c.with_map(dst, [f * F(p) for f, p in zip(c.m[src], pat)],
                   tag=(dst, pat)) for c, pat in work
    ]


def clamp(cells, src, dst, lo, up):
    lo, up = list(lo), list(up)
    work = [(c, ()) for c in cells]
    n = len(cells[0].m[src]) if cells else 0
    for i in range(n):
        nxt = []
        for c, pat in work:
            f = c.m[src][i]
            d = len(c.verts[0])
            if lo[i] == -float("inf") and up[i] == float("inf"):
                nxt.append((c, pat + (f, )))
                continue
            lo_i, up_i = F(lo[i]), F(up[i])
            const = lambda v: Aff([F(0)] * d, v)  # noqa
            for sign, h in split(c, f - lo_i):
                if sign < 0:
                    nxt.append((h, pat + (const(lo_i), )))
                else:
                    for s2, h2 in split(h, f - up_i):
                        nxt.append(
                            (h2, pat + ((const(up_i), ) if s2 > 0 else
                                        (f, ))))
        work = nxt
    return [c.with_map(dst, list(pat)) for c, pat in work]


def network(cells, src, dst, layers):
    """
    layers: [(W, b, slope or None)]: the network as plain data.
    Leaves the pre-activations under (dst, 'pre', layer).
    """
    cur = src
    for k, (W, b, slope) in enumerate(layers):
        name = (dst, "pre", k) if slope is not None else dst
        cells = affine(cells, cur, name, W, b)
        cur = name
        if slope is not None:
            nm = (dst, "post", k)
            cells = activation(cells, cur, nm, slope)
            cur = nm
    if cur != dst:
        cells = [c.with_map(dst, c.m[cur]) for c in cells]
    return cells


def vmax(cells, fn):
    """ max over cells and vertices of the affine function fn(cell) """
    best = None
    arg = None
    for c in cells:
        f = fn(c)
        for v in c.verts:
            t = f(v)
            if best is None or t > best:
                best, arg = t, v
    return best, arg


def vertices(cells):
    s = set()
    for c in cells:
        s.update(c.verts)
    return sorted(s)


def midpoints(cells):
    s = set()
    for c in cells:
        n = len(c.verts)
        s.add(tuple(sum(q) / n for q in zip(*c.verts)))
    return sorted(s)


def grid(lo, up, n):
    lo, up = fr(lo), fr(up)
    axes = [[l + (u - l) * F(k, n - 1) for k in range(n)] if l != u else [l]
            for l, u in zip(lo, up)]
    return list(itertools.product(*axes))


def layers_of(net):
    """ torch Sequential/Linear -> [(W, b, slope)] """
    import torch
    mods = [net] if isinstance(net, torch.nn.Linear) else list(net)
    ret = []
    for mod in mods:
        if isinstance(mod, torch.nn.Linear):
            ret.append([fr(mod.weight),
                        fr(mod.bias) if mod.bias is not None else None, None])
        elif isinstance(mod, torch.nn.LeakyReLU):
            ret[-1][2] = F(mod.negative_slope)
        elif isinstance(mod, torch.nn.ReLU):
            ret[-1][2] = F(0)
        else:
            raise NotImplementedError(type(mod))
    return [tuple(r) for r in ret]


def eval_layers(layers, x):
    """ boring reference evaluation -> (output, [pre-activations]) """
    z = fr(list(x))
    pres = []
    for W, b, slope in layers:
        y = [
            sum((w * zi for w, zi in zip(row, z)), b[i] if b is not None else
                F(0)) for i, row in enumerate(W)
        ]
        if slope is not None:
            pres.append(y)
            y = [v if v >= 0 else slope * v for v in y]
        z = y
    return z, pres
