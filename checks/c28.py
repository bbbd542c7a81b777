"""
C28: sampling, polyhedra and numeric helpers.  The random source is an
adversary: every value of a grid of what torch.rand may return (0 and the
largest number below 1 included) for every draw.  Polyhedra: every subset of an
alphabet of half-planes, decided exactly by Fourier-Motzkin elimination in
rational arithmetic.  Everything else: full products of small argument sets
against closed forms.
"""
import collections
import itertools
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import mip  # noqa: E402
import gurobipy  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.utils as utils  # noqa: E402

DT = torch.float64
BOXES = {1: [((-1., ), (2., )), ((.5, ), (.5, ))],
         2: [((-1., -2.), (1., 3.)), ((0., 1.), (.25, 1.5)),
             ((-3., 2.), (-1., 2.))],
         3: [((-1., 0., 2.), (1., .5, 4.))]}


# ----------------------------------------------------------------- sampling
class Rand:
    """ torch.rand as an adversary """
    def __init__(self, values):
        self.values = list(values)
        self.used = 0
        self.real = torch.rand
        self.ok = True

    def __call__(self, *size, **kw):
        if len(size) == 1 and isinstance(size[0], (tuple, list, torch.Size)):
            size = tuple(size[0])
        n = int(np.prod(size)) if size else 1
        if self.used + n > len(self.values):
            self.ok = False
            return self.real(*size, **kw)
        v = self.values[self.used:self.used + n]
        self.used += n
        dt = kw.get("dtype") or torch.get_default_dtype()
        return torch.tensor(v, dtype=DT).reshape(size).to(dt)


def controlled(values, f):
    r = Rand(values)
    torch.rand = r
    try:
        out = f()
    finally:
        torch.rand = r.real
    return out, r.ok and r.used == len(values)


def sampling(cx, task):
    _, d, b, tier = task
    lo, up = BOXES[d][b]
    lo, up = torch.tensor(lo, dtype=DT), torch.tensor(up, dtype=DT)
    klo, kup = lo.clone(), up.clone()
    edge = (0., .25, .5, .75, 1 - 2.**-24)
    n = 2 if d < 3 else 1
    seen = collections.Counter()
    full = True
    for vals in itertools.product(edge if d < 3 or tier != "quick" else
                                  edge[::2], repeat=n * d):
        cx.states()
        s, ctl = controlled(vals, lambda: utils.uniform_sample_in_box(
            lo, up, n))
        full &= ctl
        if s.shape != (n, d) or s.dtype != DT:
            cx.fail("box sample: shape", got=list(s.shape))
            return
        if not (bool((s >= lo - 1e-12).all()) and bool(
                (s <= up + 1e-12).all())):
            cx.fail("box sample: outside", vals=vals, got=s)
            return
        if not (torch.equal(lo, klo) and torch.equal(up, kup)):
            cx.fail("box sample: changes its arguments")
            return
        seen[tuple(np.round(((s - lo) / torch.where(
            up > lo, up - lo, torch.ones(d, dtype=DT))).numpy().reshape(-1),
            5))] += 1
        cx.trans()
        cx.traces()
        cx.outcome(d, b, np.round(s.numpy(), 3))
    live = int((up > lo).sum()) * n
    k = len(edge if d < 3 or tier != "quick" else edge[::2])
    if full and (len(seen) != k**live or len(set(seen.values())) != 1):
        # equally likely draws must fill the box evenly
        cx.fail("box sample: uniform", cells=len(seen), want=k**live)
    # boundary
    faces = collections.Counter()
    inner = collections.defaultdict(set)
    full = True
    q = (0., .25, .5, .75)
    face_draws = [i / (8. * d) for i in range(8 * d)] + [1 - 2.**-24]
    for vals in itertools.product(q[1:] if d == 3 else q, repeat=d):
        for fd in face_draws:
            cx.states()
            s, ctl = controlled(vals + (fd, ), lambda: utils.
                                uniform_sample_on_box_boundary(lo, up, 1))
            full &= ctl
            cx.trans()
            cx.traces()
            if s.shape != (1, d):
                cx.fail("boundary sample: shape", got=list(s.shape))
                return
            s = s[0]
            at_lo = [i for i in range(d) if s[i] == lo[i]]
            at_up = [i for i in range(d) if s[i] == up[i]]
            if not (bool((s >= lo - 1e-12).all()) and bool(
                    (s <= up + 1e-12).all())) or not (at_lo or at_up):
                cx.fail("boundary sample: off the boundary", vals=vals,
                        face=fd, got=s)
                return
            if 0. not in vals and fd < 1 - 1e-6:
                for i in at_lo:
                    faces[(i, 0)] += 1
                for i in at_up:
                    faces[(i, 1)] += 1
                inner[tuple(at_lo), tuple(at_up)].add(tuple(s.tolist()))
    if full and bool((up > lo).all()):
        # all faces, about equally often (draws that fall on a cell border
        # may go either way)
        n = sum(faces.values())
        if len(faces) != 2 * d or max(faces.values()) - min(
                faces.values()) > n / (4. * d):
            cx.fail("boundary sample: every face", got=dict(
                (str(k), v) for k, v in faces.items()))
        if d > 1 and any(len(v) < 3**(d - 1) for v in inner.values()):
            cx.fail("boundary sample: the whole face")
    # without the adversary, many samples at once
    for num in (0, 1, 7, 50):
        s = utils.uniform_sample_on_box_boundary(lo, up, num)
        on = ((s == lo) | (s == up)).any(dim=1) if num else torch.ones(0)
        if s.shape != (num, d) or not bool(on.all()):
            cx.fail("boundary samples", num=num)
    cx.sample(box=[lo, up], example=s[:2])


def meshgrid(cx, task):
    for d in (1, 2, 3):
        for sizes in itertools.product((1, 2, 3, 5), repeat=d):
            for lo, up in BOXES[d]:
                for tens in (True, False):
                    for dt in (DT, torch.float32):
                        cx.states()
                        cx.trans()
                        cx.traces()
                        a = torch.tensor(lo, dtype=dt) if tens else list(lo)
                        b = torch.tensor(up, dtype=dt) if tens else list(up)
                        got = utils.get_meshgrid_samples(a, b, sizes, dt)
                        axes = [[l + (u - l) * k / (n - 1) if n > 1 else l
                                 for k in range(n)]
                                for l, u, n in zip(lo, up, sizes)]
                        want = sorted(itertools.product(*axes))
                        if got.dtype != dt or got.shape != (
                                len(want), d) or not np.allclose(
                                sorted(map(tuple, got.tolist())), want,
                                atol=1e-6):
                            cx.fail("mesh", sizes=sizes, lo=lo, up=up)
                            return
                        cx.outcome(sizes, lo, up)
    cx.sample(sizes=sizes, n=len(want))


def boundary(cx, task):
    """ the mixed-integer description of the boundary of a box """
    for d in (1, 2, 3):
        for lo, up in BOXES[d]:
            ret = utils.box_boundary(torch.tensor(lo, dtype=DT),
                                     torch.tensor(up, dtype=DT))
            enc = mip.Encoding(ret, num_input=d)
            vals = [sorted({l - .5, l, (l + u) / 2, .75 * l + .25 * u, u,
                            u + .5}) for l, u in zip(lo, up)]
            zs = list(enc.binaries())
            for x in itertools.product(*vals):
                cx.states()
                ok = any(enc.input_ok(np.array(x)) and enc.at(
                    np.array(x), z) is not None for z in zs)
                cx.trans(len(zs))
                inside = all(l <= v <= u for v, l, u in zip(x, lo, up))
                on = inside and any(v in (l, u)
                                    for v, l, u in zip(x, lo, up))
                cx.traces()
                if ok != on:
                    cx.fail("boundary of a box", lo=lo, up=up, x=x, got=ok,
                            want=on)
                    return
                cx.outcome(d, on, inside)
    cx.sample(lo=lo, up=up)


# ---------------------------------------------------------------- polyhedra
def eliminate(rows, k):
    """ Fourier-Motzkin: remove variable k from rows (a, b): a.x <= b """
    pos, neg, rest = [], [], []
    for a, b in rows:
        (pos if a[k] > 0 else neg if a[k] < 0 else rest).append((a, b))
    for a, b in pos:
        for c, e in neg:
            s, t = -c[k], a[k]
            rest.append((tuple(s * u + t * v for u, v in zip(a, c)),
                         s * b + t * e))
    return list(dict.fromkeys(rest))


def exact_range(P, q, i):
    """ (inf, sup) of x_i over P x <= q; None if empty """
    rows = [(tuple(F(v) for v in a), F(b)) for a, b in zip(P, q)]
    d = len(P[0])
    for k in range(d):
        if k != i:
            rows = eliminate(rows, k)
    lo, up = None, None
    for a, b in rows:
        if a[i] == 0:
            if b < 0:
                return None
        elif a[i] > 0:
            up = b / a[i] if up is None else min(up, b / a[i])
        else:
            lo = b / a[i] if lo is None else max(lo, b / a[i])
    if lo is not None and up is not None and lo > up:
        return None
    return (-np.inf if lo is None else float(lo),
            np.inf if up is None else float(up))


PLANES2 = [((1, 0), 2), ((-1, 0), 1), ((0, 1), 1), ((0, -1), 0),
           ((1, 1), 2), ((-1, 1), 0), ((-1, -2), 3), ((2, -1), -1),
           ((-2, -2), -8), ((1, -3), 4)]
# rows that are barely inactive at corners of the others
NEAR2 = [((1, 1), F(193, 64)), ((1, -1), F(129, 64)), ((0, 1), F(66, 64)),
         ((-1, 2), F(3) + F(1, 1024))]
PLANES1 = [((1, ), 2), ((-1, ), 1), ((2, ), -1), ((-1, ), -1), ((-3, ), 0)]
PLANES3 = [((1, 0, 0), 1), ((-1, 0, 0), 1), ((0, 1, 0), 2), ((0, -1, 0), 0),
           ((0, 0, 1), 1), ((0, 0, -1), 1), ((1, 1, 1), 2), ((-1, 2, -1), 1)]


def polyhedra(tier):
    out = []
    for planes, sizes in ((PLANES1, (1, 2, 3)), (PLANES2, (1, 2, 3, 4)),
                          (PLANES3, (4, 5) if tier == "quick" else
                           (3, 4, 5, 6, 7))):
        for k in sizes:
            if planes is PLANES2 and k == 4 and tier == "quick":
                combos = list(itertools.combinations(planes[:8], 4))
            else:
                combos = list(itertools.combinations(planes, k))
            out += combos
    return out


def project_reference(P, q, x):
    """ nearest point of {P y <= q} by enumerating the active sets """
    best = None
    d = len(x)
    for k in range(0, d + 1):
        for act in itertools.combinations(range(len(P)), k):
            A = P[list(act)]
            if k:
                G = A @ A.T
                if abs(np.linalg.det(G)) < 1e-12:
                    continue
                y = x - A.T @ np.linalg.solve(G, A @ x - q[list(act)])
            else:
                y = x
            if np.all(P @ y <= q + 1e-9):
                v = ((x - y)**2).sum()
                if best is None or v < best[0]:
                    best = (v, y)
    return best[1]


def poly(cx, task):
    _, part, parts, tier = task
    for n, combo in enumerate(polyhedra(tier)):
        if n % parts != part:
            continue
        if cx.out_of_time():
            return
        cx.states()
        P = [c[0] for c in combo]
        q = [c[1] for c in combo]
        d = len(P[0])
        Pn, qn = np.array(P, dtype=float), np.array(q, dtype=float)
        Pt, qt = torch.from_numpy(Pn.copy()), torch.from_numpy(qn.copy())
        want = [exact_range(P, q, i) for i in range(d)]
        empty = want[0] is None
        for i in range(d):
            for a, b in ((Pt, qt), (Pn, qn)) if n % 3 == 0 else ((Pt, qt), ):
                got = utils.compute_bounds_from_polytope(a, b, i)
                cx.trans()
                w = (np.inf, -np.inf) if empty else want[i]
                if not all(g == v or np.isfinite(v) and
                           abs(g - v) <= 1e-6 * (1 + abs(v))
                           for g, v in zip(got, w)):
                    cx.fail("bounds of a polytope", P=P, q=q, i=i, got=got,
                            want=w)
                    return
        cx.traces()
        cx.outcome(d, empty, want)
        if empty:
            continue
        bounded = all(np.isfinite(w).all() for w in want)
        got = utils.is_polyhedron_bounded(Pt)
        cx.trans()
        if bool(got) != bounded:
            cx.fail("bounded", P=P, q=q, got=got, want=bounded)
            return
        if d == 2 and (n % 4 == 0 or tier != "quick"):
            for x in itertools.product((-3., 0., 1., 4.), (-2., 0.5, 3.)):
                x = np.array(x)
                cx.states()
                xt = torch.from_numpy(x.copy())
                y = utils.project_to_polyhedron(Pt, qt, xt)
                cx.trans()
                w = project_reference(Pn, qn, x)
                if y.dtype != xt.dtype or y.shape != xt.shape or not (np.abs(
                        y.numpy() - w).max() <= 1e-3):
                    cx.fail("projection", P=P, q=q, x=x, got=y, want=w)
                    return
    cx.sample(P=P, q=q, bounds=want)


LP3 = [((1, 0, 0), 1), ((0, 1, 0), F(3, 2)), ((0, 0, 1), 1),
           ((-1, 0, 0), F(1, 2)), ((0, -1, 0), 1), ((1, 1, 1), 2),
           ((1, -1, 2), 1)]


def lp_cost(cx, task):
    """ optimal cost as a function of the data, at non-degenerate optima """
    _, part, parts, tier = task
    costs = [(1, 0), (-1, 1), (2, 3), (-1, -2), (0, -1)]
    eqs = [None, ((1, 1), 1), ((1, -2), 0)]
    todo = [(combo, c, e) for k in (2, 3, 4)
            for combo in itertools.combinations(PLANES2[:8], k)
            for c in costs for e in eqs]
    todo += [(combo + (r, ), c, e) for combo in itertools.combinations(
        PLANES2[:4], 2) for r in NEAR2 for c in costs for e in eqs]
    # the same, in the presence of rows with large right hand sides
    todo += [(combo + (r, ((-1, 0), far)), c, e)
             for combo in itertools.combinations(PLANES2[:4], 2)
             for r in NEAR2 for far in (8, 1024) for c in costs
             for e in eqs[:2]]
    todo += [(combo, c, e) for k in (3, 4)
             for combo in itertools.combinations(LP3, k)
             for c in ((1, 2, 3), (-1, 1, 2))
             for e in (None, ((1, 1, -2), 1), ((1, 0, 1), F(1, 2)))]
    if tier == "quick":
        todo = todo[::2]
    for n, (combo, c, e) in enumerate(todo):
        if n % parts != part:
            continue
        if cx.out_of_time():
            return
        cx.states()
        A = np.array([r[0] for r in combo], dtype=float)
        b = np.array([r[1] for r in combo], dtype=float)
        nx = len(c)
        E = np.array([e[0]] if e else np.zeros((0, nx)), dtype=float)
        f = np.array([e[1]] if e else np.zeros(0), dtype=float)
        cc = np.array(c, dtype=float)

        # exact: all vertices / unboundedness through a dummy variable t = c x
        def value(cc, A, b, E, f):
            P = np.vstack((A, E, -E))
            q = np.concatenate((b, f, -f))
            rows = [tuple([F(v).limit_denominator(10**9) for v in r] + [F(0)])
                    for r in P]
            rows += [tuple([-F(v).limit_denominator(10**9) for v in cc] +
                           [F(1)]),
                     tuple([F(v).limit_denominator(10**9) for v in cc] +
                           [F(-1)])]
            rr = exact_range(rows, [F(v).limit_denominator(10**9)
                                    for v in q] + [F(0), F(0)], nx)
            return rr
        rr = value(cc, A, b, E, f)
        d = .25
        T = [torch.from_numpy(v.copy()).requires_grad_(True)
             for v in (cc, np.array(d), A, b, E, f)]
        if rr is None or not np.isfinite(rr[1]):
            got = utils.linear_program_cost(*[t.detach() for t in T])
            cx.trans()
            cx.traces()
            cx.outcome("none", rr is None)
            if got is not None:
                cx.fail("LP cost without an optimum", A=A, b=b, c=c, e=e,
                        got=got)
                return
            continue
        # the optimal face is a single non-degenerate vertex
        verts = set()
        P = np.vstack((E, A))
        q = np.concatenate((f, b))
        for rows in itertools.combinations(range(len(P)), nx):
            M = P[list(rows)]
            if abs(np.linalg.det(M)) < 1e-12:
                continue
            v = np.linalg.solve(M, q[list(rows)])
            if np.all(A @ v <= b + 1e-9) and np.all(
                    np.abs(E @ v - f) < 1e-9) and abs(
                        cc @ v - rr[1]) < 1e-9:
                verts.add(tuple(np.round(v, 9)))
        if len(verts) != 1:
            continue
        v = np.array(list(verts)[0])
        active = int((A @ v > b - 1e-7).sum()) + len(f)
        if active != nx:
            continue
        lam = np.linalg.solve(
            P[np.concatenate((np.ones(len(f), bool),
                              A @ v > b - 1e-7))].T, cc)
        if (np.abs(lam) < 1e-9).any():
            continue
        got = utils.linear_program_cost(*T)
        cx.trans()
        cx.traces()
        if got is None or not (abs(got.item() - rr[1] - d) <= 1e-6):
            cx.fail("LP cost", A=A, b=b, c=c, e=e, got=got, want=rr[1] + d)
            return
        got.backward()
        h = 1e-6
        base = [cc, None, A, b, E, f]
        for k, t in enumerate(T):
            if k == 1:
                if not (abs(t.grad.item() - 1) <= 1e-9):
                    cx.fail("LP cost: derivative with respect to d")
                continue
            if t.numel() == 0:
                continue
            g = t.grad.numpy().reshape(-1) if t.grad is not None else \
                np.zeros(t.numel())
            for m in range(t.numel()):
                w = []
                for s in (h, -h):
                    args = [None if z is None else z.copy() for z in base]
                    args[k].reshape(-1)[m] += s
                    # the same active set
                    rows = np.concatenate(
                        (np.ones(len(f), bool), A @ v > b - 1e-7))
                    PP = np.vstack((args[4], args[2]))[rows]
                    qq = np.concatenate((args[5], args[3]))[rows]
                    w.append(args[0] @ np.linalg.solve(PP, qq))
                want = (w[0] - w[1]) / 2 / h
                cx.trans()
                if not (abs(want - g[m]) <= 1e-4 * (1 + abs(want))):
                    cx.fail("LP cost: derivative", which=k, entry=m,
                            got=g[m], want=want, A=A, b=b, c=c, e=e)
                    return
        cx.outcome("lp", round(rr[1], 6), len(f))
    cx.sample(A=A, b=b, c=c)


# ------------------------------------------------------------------ numbers
def numbers(cx, task):
    # interval of a (leaky) ReLU
    vals = (-3., -1., -.25, 0., .5, 2.)
    for lo, up in itertools.combinations(vals, 2):
        for s in (-2., -.5, 0., .3, 1., 2.):
            fs = [max(lo, s * lo) if 0 <= s <= 1 else
                  (lo if lo > 0 else s * lo),
                  up if up > 0 else s * up] + ([0.] if lo <= 0 <= up else [])
            want = (min(fs), max(fs))
            for tens in (True, False):
                cx.states()
                cx.trans()
                cx.traces()
                a, b = (torch.tensor(lo, dtype=DT),
                        torch.tensor(up, dtype=DT)) if tens else (lo, up)
                got = utils.leaky_relu_interval(s, a, b)
                if not (abs(float(got[0]) - want[0]) <= 1e-12) or not (abs(
                        float(got[1]) - want[1]) <= 1e-12):
                    cx.fail("interval of a leaky ReLU", lo=lo, up=up, s=s,
                            got=got, want=want)
                if tens and any(g is a or g is b for g in got):
                    cx.fail("interval: fresh tensors", lo=lo, up=up, s=s)
                cx.outcome("interval", lo, up, s)
    # Minkowski sum
    for nx, ny in itertools.product((1, 2, 3), repeat=2):
        for tail in ((), (1, ), (2, ), (2, 3)):
            cx.states()
            cx.trans()
            cx.traces()
            x = torch.arange(1., 1 + nx * int(np.prod(tail, dtype=int)),
                             dtype=DT).reshape((nx, ) + tail)
            y = 100 * torch.arange(
                1., 1 + ny * int(np.prod(tail, dtype=int)),
                dtype=DT).reshape((ny, ) + tail)
            got = utils.minkowski_sum(x, y)
            ok = got.shape == (nx * ny, ) + tail and all(
                torch.equal(got[i * ny + j], x[i] + y[j])
                for i in range(nx) for j in range(ny))
            if not ok:
                cx.fail("Minkowski sum", nx=nx, ny=ny, tail=tail, got=got)
                return
            cx.outcome("minkowski", nx, ny, tail)
    # loss reduction
    for n in (1, 2, 3):
        for v in itertools.product((0., .5, 2., 3.), repeat=n):
            cx.states()
            t = torch.tensor(v, dtype=DT)
            for how, want in (("mean", sum(v) / n), ("max", max(v)),
                              ("4norm", sum(a**4 for a in v)**.25)):
                cx.trans()
                got = utils.loss_reduction(t, how)
                if got.shape != () or not (abs(got.item() - want) <= 1e-12):
                    cx.fail("loss reduction", how=how, v=v, got=got)
            cx.outcome("loss", v)
    try:
        utils.loss_reduction(torch.ones(2), "sum of cubes")
        cx.fail("unknown reductions are refused")
    except Exception:
        pass
    # nearest entry
    for n in (1, 2, 3):
        for arr in itertools.product((-2., -.5, 1., 4.), repeat=n):
            for x in (-3., -1.2, .3, 2.4, 9.):
                cx.states()
                cx.trans()
                for a in (list(arr), np.array(arr)):
                    got = utils.find_nearest(a, x)
                    if got not in arr or not (abs(got - x) <= min(
                            abs(v - x) for v in arr) + 1e-12):
                        cx.fail("nearest entry", arr=arr, x=x, got=got)
    # sigmoid
    for lo, up, c, w in itertools.product((0., -1.), (.5, 3.), (0, 10),
                                          (1, 5)):
        for dt in (DT, torch.float32):
            f = utils.SigmoidAnneal(dt, lo, up, c, w)
            for step in (-50, 0, 1, 5, 9, 10, 11, 30, 200):
                cx.states()
                cx.trans()
                got = f(step)
                z = (step - c) / w
                want = lo + (up - lo) / (1 + np.exp(-z))
                if not (abs(got.item() - want) <= 1e-5) or got.dtype != dt:
                    cx.fail("sigmoid schedule", lo=lo, up=up, c=c, w=w,
                            step=step, got=got, want=want)
    # torch_to_numpy
    a = torch.tensor([[1., 2.]], dtype=DT, requires_grad=True)
    for sq in (True, False):
        out = utils.torch_to_numpy([a, 3, None], squeeze=sq)
        cx.states()
        if not (isinstance(out[0], np.ndarray)
                and out[0].shape == ((2, ) if sq else (1, 2))
                and out[1:] == [3, None]):
            cx.fail("torch_to_numpy", squeeze=sq, got=out)
        for shape in ((1, ), (2, 1), (1, 1, 3), (2, 1, 3), (3, )):
            v = torch.arange(float(np.prod(shape))).reshape(shape)
            out = utils.torch_to_numpy([v], squeeze=sq)[0]
            want = v.numpy().squeeze() if sq else v.numpy()
            if out.shape != want.shape or not np.array_equal(out, want):
                cx.fail("torch_to_numpy: shape", shape=shape, squeeze=sq,
                        got=out)
    # stopping the solver at a counterexample, and only there
    cb = gurobipy.GRB.Callback
    for threshold in (None, 0., -.5, 2.):
        f = utils.get_gurobi_terminate_if_callback() if threshold is None \
            else utils.get_gurobi_terminate_if_callback(threshold)
        limit = threshold or 0.
        for where, count, status, off in itertools.product(
                (cb.MIPNODE, 10**6), (0, 1, 3),
                (gurobipy.GRB.Status.OPTIMAL, gurobipy.GRB.Status.INFEASIBLE),
                (-1., -2.**-20, 0., 2.**-20, 1.)):
            class Model:
                stopped = 0

                def cbGet(self, what):
                    return {cb.MIPNODE_SOLCNT: count,
                            cb.MIPNODE_STATUS: status,
                            cb.MIPNODE_OBJBST: limit + off}[what]

                def terminate(self):
                    self.stopped += 1
            m = Model()
            f(m, where)
            cx.states()
            cx.trans()
            must = where == cb.MIPNODE and count > 0 and off > 0 and \
                status == gurobipy.GRB.Status.OPTIMAL
            may = where == cb.MIPNODE and count > 0 and off > 0
            if must and not m.stopped or m.stopped and not may:
                cx.fail("stop at a counterexample", threshold=threshold,
                        where=where == cb.MIPNODE, solutions=count,
                        above=off, stopped=m.stopped)
    for shape, dt, ok in (((1, 2), DT, True), ((2, 1), DT, False),
                          ((1, 2), torch.float32, False)):
        try:
            utils.check_shape_and_type(a, shape, dt)
            r = True
        except AssertionError:
            r = False
        if r != ok:
            cx.fail("check_shape_and_type", shape=shape, ok=ok)
    for x, y, ok in (([1., 2.], [1., 2.], True), ([1., 2.], [1., 2.1], False),
                     ([1.], [1.0000001], True)):
        if utils.compare_numpy_matrices(np.array(x), np.array(y), 1e-5,
                                        1e-5) is not ok:
            cx.fail("compare_numpy_matrices", x=x, y=y)
    cx.sample(sigmoid=float(got))


def numgrad(cx, task):
    """ numerical gradients: quadratic functions (exact for central
    differences) of one to three arguments, scalar or vector valued """
    def quad(Q, L, args):
        z = np.concatenate(args)
        return np.array([z @ q @ z + r @ z for q, r in zip(Q, L)])
    for dims in [(1, ), (3, ), (1, 2), (2, 1), (2, 2, 1)]:
        n = sum(dims)
        for m in (0, 1, 3):      # 0: scalar valued
            rng = np.random.RandomState(n * 10 + m)
            Q = rng.randn(max(m, 1), n, n)
            L = rng.randn(max(m, 1), n)
            for point in range(3):
                for dx in (None, 1e-3, .25):
                    cx.states()
                    cx.trans()
                    cx.traces()
                    args = [np.cos(np.arange(1., k + 1) + point + k)
                            for k in dims]
                    keep = [a.copy() for a in args]

                    def fun(*a):
                        if [x.shape for x in a] != [(k, ) for k in dims]:
                            raise mc.EngineProblem("argument shapes")
                        # only one entry may be away from the point
                        far = sum(int((np.abs(x - y) > 1e-12).sum())
                                  for x, y in zip(a, keep))
                        if far > 1:
                            seen.append(far)
                        v = quad(Q, L, a)
                        return v if m else float(v[0])
                    seen = []
                    kw = {} if dx is None else dict(dx=dx)
                    got = utils.compute_numerical_gradient(fun, *args, **kw)
                    z = np.concatenate(keep)
                    J = np.array([(q + q.T) @ z + r for q, r in zip(Q, L)])
                    if not m:
                        J = J[0]
                    want, k = [], 0
                    for kk in dims:
                        want.append(J[..., k:k + kk])
                        k += kk
                    if len(dims) == 1:
                        got = [got]
                    if len(got) != len(want) or any(
                            np.shape(g) != w.shape or
                            not (np.abs(g - w).max() <= 1e-5)
                            for g, w in zip(got, want)):
                        cx.fail("numerical gradient", dims=dims, m=m, dx=dx,
                                got=got, want=want)
                        return
                    if seen:
                        cx.fail("one entry is perturbed at a time",
                                dims=dims)
                        return
                    if any(not np.array_equal(a, b)
                           for a, b in zip(args, keep)):
                        cx.fail("arguments are left alone", dims=dims)
                        return
                    cx.outcome(dims, m, point)
    cx.sample(dims=dims, grad=want[0])


def tasks(tier):
    ts = [("mesh", ), ("boundary", ), ("numbers", ), ("numgrad", )]
    for d in BOXES:
        for b in range(len(BOXES[d])):
            ts.append(("sampling", d, b, tier))
    ts += [("poly", k, 16, tier) for k in range(16)]
    ts += [("lp", k, 8, tier) for k in range(8)]
    return ts


def work(cx, task):
    {"mesh": meshgrid, "boundary": boundary, "numbers": numbers,
     "numgrad": numgrad, "sampling": sampling, "poly": poly,
     "lp": lp_cost}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C28", tasks, work,
            rule="every outcome of the random draws on a grid; every subset "
            "of the half-plane alphabets; full products of the arguments of "
            "the numeric helpers; states = argument combinations, "
            "transitions = calls compared",
            assumptions=["the linear programs are solved by HiGHS instead "
                         "of Gurobi; linear_program_cost is compared at "
                         "non-degenerate optima"])
