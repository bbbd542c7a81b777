"""
C07: algebra of mixed-integer constraint blocks.  Every history (up to a
depth) of clone / change of input variable / concatenation over a declared
family of blocks; after every step every live block is compared, point by
point, with its meaning (a predicate composed symbolically from the original
data), including the blocks that the operation was not supposed to touch.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import nets  # noqa: E402

from neural_network_lyapunov import gurobi_torch_mip  # noqa: E402

DT = torch.float64
GRID = (-1., 0., 1.)
FIELDS = ["Aout_input", "Aout_slack", "Aout_binary", "Cout", "Ain_input",
          "Ain_slack", "Ain_binary", "rhs_in", "Aeq_input", "Aeq_slack",
          "Aeq_binary", "rhs_eq", "input_lo", "input_up", "slack_lo",
          "slack_up", "binary_lo", "binary_up"]


def block(k, pat, ni=2, ns=1, nb=2, nin=2, neq=1, no=2):
    """ pat: set of field names that are present; the numbers come from the
    declared table number k """
    r = gurobi_torch_mip.MixedIntegerConstraintsReturn()
    s = nets.stream(100 + k)

    def mat(m, n):
        return torch.tensor([[float(round(next(s) * 2)) for _ in range(n)]
                             for _ in range(m)], dtype=DT).reshape(m, n)
    dims = {"input": ni, "slack": ns, "binary": nb}
    rows = {"Aout": no, "Ain": nin, "Aeq": neq}
    for a in ("Aout", "Ain", "Aeq"):
        for b in ("input", "slack", "binary"):
            m = mat(rows[a], dims[b])
            if f"{a}_{b}" in pat:
                setattr(r, f"{a}_{b}", m)
    if "Cout" in pat:
        r.Cout = mat(1, no)[0]
    if any(f"Ain_{b}" in pat for b in dims):
        # inequality rows that cut through the grid
        r.rhs_in = torch.tensor([0.5 * ((k + i) % 3) for i in range(nin)],
                                dtype=DT)
    if any(f"Aeq_{b}" in pat for b in dims):
        # equality rows that hold at some grid point
        v = torch.zeros(neq, dtype=DT)
        for b, pt in (("input", [1., -1., 0.][:ni]), ("slack", [-1.] * ns),
                      ("binary", [1., 0., 1.][:nb])):
            m = getattr(r, f"Aeq_{b}")
            if m is not None:
                v = v + m @ torch.tensor(pt, dtype=DT)
        r.rhs_eq = v
    j = k % 3
    for b, n, lo, up in (("input", ni, [0., -1., -np.inf], [1., 0., np.inf]),
                         ("slack", ns, [0., -np.inf, -1.],
                          [np.inf, 0., 1.]),
                         ("binary", nb, [0., 1., 0.], [1., 1., 0.])):
        if f"{b}_lo" in pat:
            setattr(r, f"{b}_lo", torch.tensor(
                [lo[(i + j) % 3] for i in range(n)], dtype=DT))
        if f"{b}_up" in pat:
            setattr(r, f"{b}_up", torch.tensor(
                [up[(i + j) % 3] for i in range(n)], dtype=DT))
    return r


def snap(r):
    return {f: None if getattr(r, f) is None else
            np.array(getattr(r, f).detach().numpy(), copy=True)
            for f in FIELDS}


def member(d, X, S, Z):
    """ membership of the points (rows of X, S, Z), from raw data d """
    n = max(X.shape[0], S.shape[0], Z.shape[0])
    ok = np.ones(n, dtype=bool)
    for kind, rhs in (("Ain", "rhs_in"), ("Aeq", "rhs_eq")):
        if d[rhs] is None:
            continue
        v = np.zeros((n, d[rhs].shape[0]))
        for b, P in (("input", X), ("slack", S), ("binary", Z)):
            m = d[f"{kind}_{b}"]
            if m is not None:
                v = v + P @ m.T
        ok &= (np.all(v <= d[rhs] + 1e-9, axis=1) if kind == "Ain" else
               np.all(np.abs(v - d[rhs]) <= 1e-9, axis=1))
    for b, P in (("input", X), ("slack", S), ("binary", Z)):
        if d[f"{b}_lo"] is not None:
            ok &= np.all(P >= d[f"{b}_lo"] - 1e-9, axis=1)
        if d[f"{b}_up"] is not None:
            ok &= np.all(P <= d[f"{b}_up"] + 1e-9, axis=1)
    return ok


def output(d, X, S, Z):
    if all(d[f] is None for f in FIELDS[:4]):
        return None
    v = np.zeros((X.shape[0], 0))
    parts = [P @ d[f"Aout_{b}"].T
             for b, P in (("input", X), ("slack", S), ("binary", Z))
             if d[f"Aout_{b}"] is not None]
    v = sum(parts) if parts else 0.
    return v + d["Cout"] if d["Cout"] is not None else v


class Meaning:
    """ input dimension, slack and binary counts, membership and output as
    functions of points: built by composition, never from the block. """
    def __init__(self, ni, ns, nb, mem, out):
        self.ni, self.ns, self.nb, self.mem, self.out = ni, ns, nb, mem, out


def nvar(d, b):
    for a in ("Aout", "Ain", "Aeq"):
        if d[f"{a}_{b}"] is not None:
            return d[f"{a}_{b}"].shape[1]
    return 0


def base(r, ni):
    d = snap(r)
    return Meaning(ni, nvar(d, "slack"), nvar(d, "binary"),
                   lambda X, S, Z: member(d, X, S, Z),
                   lambda X, S, Z: output(d, X, S, Z))


def transformed(m, A, b):
    A, b = A.numpy(), b.numpy()
    return Meaning(A.shape[1], m.ns, m.nb,
                   lambda X, S, Z: m.mem(X @ A.T + b, S, Z),
                   lambda X, S, Z: m.out(X @ A.T + b, S, Z))


def joined(m1, m2, ss, sb, so):
    def cut(S, Z):
        S1, S2 = (S, S) if ss else (S[:, :m1.ns], S[:, m1.ns:])
        Z1, Z2 = (Z, Z) if sb else (Z[:, :m1.nb], Z[:, m1.nb:])
        return S1, S2, Z1, Z2

    def mem(X, S, Z):
        S1, S2, Z1, Z2 = cut(S, Z)
        return m1.mem(X, S1, Z1) & m2.mem(X, S2, Z2)

    def out(X, S, Z):
        if not so:
            return None
        S1, S2, Z1, Z2 = cut(S, Z)
        o = [o for o in (m1.out(X, S1, Z1), m2.out(X, S2, Z2))
             if o is not None]
        n = X.shape[0]
        o = [np.broadcast_to(v, (n, v.shape[-1])) for v in o]
        return np.concatenate(o, axis=1) if o else None
    return Meaning(m1.ni, m1.ns if ss else m1.ns + m2.ns,
                   m1.nb if sb else m1.nb + m2.nb, mem, out)


_PTS = {}


def points(ni, ns, nb):
    key = (ni, ns, nb)
    if key not in _PTS:
        def cart(vals, n):
            pts = list(itertools.product(vals, repeat=n))
            return np.array(pts, dtype=float).reshape(len(pts), n)
        X = cart(GRID if ni <= 2 else (-1., 1.), ni)
        S = cart(GRID if ns <= 1 else (-1., 1.), ns)
        Z = cart((0., 1.), nb)
        n = X.shape[0] * S.shape[0] * Z.shape[0]
        ix = np.indices((X.shape[0], S.shape[0], Z.shape[0])).reshape(3, n)
        _PTS[key] = X[ix[0]], S[ix[1]], Z[ix[2]]
    return _PTS[key]


def compare(cx, r, m, hist):
    op = "history" if isinstance(hist, dict) and "ops" in hist else (
        hist["op"] if isinstance(hist, dict) else hist[0]["op"] + "/operand")
    d = snap(r)
    if any(d[f] is not None for f in FIELDS[:12]):
        got = (nvar(d, "slack"), nvar(d, "binary"))
        # a block whose matrices never mention the variable has none
        if got[0] not in (0, m.ns) or got[1] not in (0, m.nb):
            cx.fail(op + ": wrong number of slack/binary variables", hist=hist,
                    got=got, want=(m.ns, m.nb))
            return
        for b, n in (("input", m.ni), ("slack", m.ns), ("binary", m.nb)):
            for e in ("lo", "up"):
                v = d[f"{b}_{e}"]
                if v is not None and v.shape != (n, ):
                    cx.fail(op + f": {b} bound has the wrong length", hist=hist,
                            got=v.shape, want=n)
                    return
        if (r.num_slack(), r.num_binary()) != got or r.num_input() not in (
                0, m.ni):
            cx.fail(op + ": reported sizes disagree with the data", hist=hist)
    X, S, Z = points(m.ni, m.ns, m.nb)
    got, want = member(d, X, S, Z), m.mem(X, S, Z)
    cx.states(len(X))
    cx.outcome(int(want.sum()), len(X))
    if not np.array_equal(got, want):
        i = int(np.nonzero(got != want)[0][0])
        cx.fail(op + ": admits a different set of points", hist=hist, x=X[i],
                slack=S[i], binary=Z[i], got=bool(got[i]),
                want=bool(want[i]))
    og, ow = output(d, X, S, Z), m.out(X, S, Z)
    if (og is None) != (ow is None):
        cx.fail(op + ": output rows lost or invented", hist=hist)
    elif og is not None:
        og, ow = np.broadcast_arrays(og, ow) if og.shape[-1:] == \
            ow.shape[-1:] else (og, ow)
        if og.shape != ow.shape or not np.allclose(og, ow, atol=1e-9):
            cx.fail(op + ": output is a different function", hist=hist)


T1 = [  # inputs of dimension 2 -> input of dimension 2 / 1 / 3
    ([[1., 2.], [0., -1.]], [1., 0.]),
    ([[1.], [-1.]], [0., 1.]),
    ([[1., 0., 1.], [0., 1., -1.]], [0., 0.]),
    ([[0., 0.], [0., 0.]], [1., -1.]),
]


def subsets(xs):
    return [c for n in range(len(xs) + 1)
            for c in itertools.combinations(xs, n)]


def patterns():
    """ presence patterns, by group: the rest of the block is full """
    full = [f for f in FIELDS if not f.startswith("rhs")]
    groups = [FIELDS[0:4], FIELDS[4:7], FIELDS[8:11], FIELDS[14:16],
              FIELDS[16:18], FIELDS[12:14]]
    ret = []
    for g in groups:
        for s in subsets(g):
            ret.append(frozenset(f for f in full if f not in g or f in s))
    # and the small blocks: one group present
    for s in subsets(FIELDS[4:7])[1:]:
        ret.append(frozenset(s))
    for s in subsets(FIELDS[8:11])[1:]:
        ret.append(frozenset(s))
    for s in subsets(FIELDS[0:4])[1:]:
        ret.append(frozenset(s))
    return sorted(set(ret), key=sorted)


def tasks(tier):
    n = len(patterns())
    ret = [("concat", i, tier) for i in range(n)] + [("single", i)
                                               for i in range(n)]
    depth = 2 if tier == "quick" else 3
    for a in range(4):
        for b in range(4):
            for first in range(24):
                ret.append(("history", a, b,
                            3 if (a, b) == (1, 2) else depth,
                            first))
    return ret


def sizes(r):
    d = snap(r)
    return nvar(d, "slack"), nvar(d, "binary")


def usable(r, ni=2):
    """ sizes are read off the matrices: bounds on variables that no matrix
    mentions are not meaningful """
    d = snap(r)
    for b in ("slack", "binary"):
        if nvar(d, b) == 0 and (d[f"{b}_lo"] is not None
                                or d[f"{b}_up"] is not None):
            return False
    return nvar(d, "input") == ni


def load(r, vals):
    for f, v in vals.items():
        setattr(r, f, v)
    return r


def carried(cx, key, rs, op, hist):
    """ the fields of the result are differentiable functions of the fields
    of the operands: directional derivative (over all fields at once, and the
    fields are at most bilinear in the data) against central differences """
    s = nets.stream(77)
    # away from ties between the bounds of the operands
    data = [{f: getattr(r, f) + 0.25 * torch.tensor(
        [next(s) for _ in range(getattr(r, f).numel())],
        dtype=DT).reshape(getattr(r, f).shape)
        for f in FIELDS if getattr(r, f) is not None} for r in rs]
    dirs = [{f: torch.tensor([next(s) for _ in range(v.numel())],
                             dtype=DT).reshape(v.shape)
             for f, v in d.items()} for d in data]

    def build(vals):
        news = [load(gurobi_torch_mip.MixedIntegerConstraintsReturn(), d)
                for d in vals]
        return op(*news)

    def value(res):
        q, tot = nets.stream(5), torch.zeros((), dtype=DT)
        for f in FIELDS:
            v = getattr(res, f)
            if v is None:
                continue
            v = v.reshape(-1)
            keep = torch.isfinite(v.detach())
            w = torch.tensor([next(q) for _ in range(v.numel())], dtype=DT)
            tot = tot + w[keep] @ v[keep]
        return tot
    leaf = [{f: v.detach().clone().requires_grad_(True)
             for f, v in d.items()} for d in data]
    y = value(build(leaf))
    got = 0.
    if y.requires_grad:
        ins = [v for d in leaf for v in d.values()]
        g = torch.autograd.grad(y, ins, allow_unused=True)
        fl = [e for d in dirs for e in d.values()]
        got = sum((a * e)[torch.isfinite(v.detach())].sum().item()
                  for a, e, v in zip(g, fl, ins) if a is not None)
    h = 2.**-12
    hi, lo = (value(build([{f: v + c * e[f] for f, v in d.items()}
                           for d, e in zip(data, dirs)])).item()
              for c in (h, -h))
    want = (hi - lo) / (2 * h)
    cx.trans()
    if not (abs(got - want) <= 1e-6 * max(1., abs(got))):
        cx.fail(key + ": derivative with respect to the data of the operands",
                hist=hist, got=got, want=want)


def scribble(r):
    """ changes every tensor of the block in place """
    for f in FIELDS:
        v = getattr(r, f)
        if v is not None:
            with torch.no_grad():
                v.mul_(-2.).add_(7.)


def concat(cx, i, tier):
    pats = patterns()
    for j, p2 in enumerate(pats):
        dims2 = [(1, 2), (2, 1)] if tier == "thorough" else [
            ((1, 2), (2, 1))[(i + j) % 2]]
        for ns2, nb2 in dims2:
            for ss, sb, so in itertools.product((False, True), repeat=3):
                r1 = block(3 * i, pats[i])
                r2 = block(3 * j + 1, p2, ns=ns2, nb=nb2, nin=1, neq=2,
                           no=1)
                if not usable(r1) or not usable(r2):
                    continue
                m1, m2 = base(r1, 2), base(r2, 2)
                if (ss and m1.ns != m2.ns) or (sb and m1.nb != m2.nb):
                    continue
                hist = dict(op="concatenate", p1=sorted(pats[i]),
                            p2=sorted(p2), same_slack=ss, same_binary=sb,
                            stack=so, dims2=(ns2, nb2))
                r = gurobi_torch_mip.concatenate_mixed_integer_constraints(
                    r1, r2, ss, sb, so)
                cx.trans()
                m = joined(m1, m2, ss, sb, so)
                compare(cx, r, m, hist)
                compare(cx, r1, m1, (hist, "first operand"))
                compare(cx, r2, m2, (hist, "second operand"))
                carried(cx, "concatenate", (r1, r2), lambda a, b:
                        gurobi_torch_mip.
                        concatenate_mixed_integer_constraints(
                            a, b, ss, sb, so), hist)
                if len(cx.fails) > 5:
                    return
    cx.traces()
    cx.sample(op="concatenate", first=sorted(pats[i]))


def single(cx, i):
    pats = patterns()
    r = block(2 * i, pats[i])
    has_bound = r.input_lo is not None or r.input_up is not None
    c = r.clone()
    cx.trans()
    h = dict(op="clone", p=sorted(pats[i]))
    compare(cx, c, base(r, 2), h)
    carried(cx, "clone", (r, ), lambda a: a.clone(), h)
    # writing to the copy, or to what was copied, leaves the other alone
    for k in range(2):
        o = block(2 * i, pats[i])
        c, m = o.clone(), base(o, 2)
        scribble((o, c)[k])
        compare(cx, (c, o)[k], m, (h, "written to"))
    for A, b in T1:
        A, b = torch.tensor(A, dtype=DT), torch.tensor(b, dtype=DT)
        c = r.clone()
        m = base(r, 2)
        cx.trans()
        h = dict(op="transform", p=sorted(pats[i]), A=A, b=b)
        try:
            c.transform_input(A, b)
        except Exception:
            if not has_bound:
                raise
            cx.outcome("refused")
            compare(cx, r, m, (h, "original"))
            continue
        compare(cx, c, transformed(m, A, b), h)
        # another block holding the same tensors
        o, q = block(2 * i, pats[i]), \
            gurobi_torch_mip.MixedIntegerConstraintsReturn()
        load(q, {f: getattr(o, f) for f in FIELDS})
        m0 = base(o, 2)
        q.transform_input(A, b)
        compare(cx, o, m0, (h, "block sharing the tensors"))
        if not has_bound:
            def change(a):
                a.transform_input(A, b)
                return a
            carried(cx, "transform", (r, ), change, h)
        compare(cx, r, m, (h, "original of the clone"))
    # an ill-typed field is not silently dropped by clone
    cx.traces()


HIST_PATS = [
    frozenset(f for f in FIELDS if f not in ("input_lo", "input_up")
              and not f.startswith("rhs")),
    frozenset(("Ain_input", "Ain_binary", "Aout_slack", "Ain_slack",
               "binary_up", "slack_lo")),
    frozenset(("Aeq_input", "Aeq_slack", "Aeq_binary", "Aout_input",
               "Cout", "binary_lo")),
    frozenset(("Ain_input", "Aeq_input", "Aout_input")),
]


def ops(live):
    """ all operations applicable to the pool of live blocks """
    ret = []
    for k, (r, m) in enumerate(live):
        ret.append(("clone", k))
        for t, (A, b) in enumerate(T1[:3]):
            if len(A) == m.ni:
                ret.append(("transform", k, t))
    for k, (r, m) in enumerate(live):
        for q, (r2, m2) in enumerate(live):
            if m.ni != m2.ni:
                continue
            for ss, sb, so in ((False, False, True), (True, True, True),
                               (False, True, False), (True, False, True)):
                if ss and m.ns != m2.ns or sb and m.nb != m2.nb:
                    continue
                if m.ns + (0 if ss else m2.ns) > 3 or \
                        m.nb + (0 if sb else m2.nb) > 4:
                    continue
                ret.append(("concat", k, q, ss, sb, so))
    return ret


def replay(seq, a, b):
    live = []
    for k, p in ((5, a), (7, b)):
        r = block(k, HIST_PATS[p], nin=1, no=1)
        live.append((r, base(r, 2)))
    for op in seq:
        apply(live, op)
    return live


def apply(live, op):
    if op[0] == "clone":
        r, m = live[op[1]]
        live.append((r.clone(), m))
    elif op[0] == "transform":
        r, m = live[op[1]]
        A = torch.tensor(T1[op[2]][0], dtype=DT)
        b = torch.tensor(T1[op[2]][1], dtype=DT)
        r.transform_input(A, b)
        live[op[1]] = (r, transformed(m, A, b))
    else:
        (r1, m1), (r2, m2) = live[op[1]], live[op[2]]
        live.append((gurobi_torch_mip.concatenate_mixed_integer_constraints(
            r1, r2, *op[3:]), joined(m1, m2, *op[3:])))


def history(cx, a, b, depth, first):
    stack = [()]
    while stack:
        seq = stack.pop()
        if cx.out_of_time():
            return
        live = replay(seq, a, b)
        todo = ops(live)
        if len(seq) == 0:
            todo = todo[first::24]
        for op in todo:
            new = replay(seq, a, b)
            apply(new, op)
            cx.trans()
            for n, (r, m) in enumerate(new):
                compare(cx, r, m, dict(start=(a, b), ops=seq + (op, ),
                                       block=n))
            if len(cx.fails) > 3:
                return
            if len(seq) + 1 < depth:
                stack.append(seq + (op, ))
    cx.traces()


def work(cx, task):
    {"concat": concat, "single": single, "history": history}[task[0]](
        cx, *task[1:])


if __name__ == "__main__":
    mc.main(
        "C07", tasks, work,
        rule="all pairs of presence patterns of the block fields x all flag "
        "combinations for concatenation; all patterns x 4 affine input maps; "
        "all operation histories up to the depth from 16 starting pairs; "
        "states = grid points at which membership and output were compared")
