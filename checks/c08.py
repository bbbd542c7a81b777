"""
C08: the differentiable copy of an optimisation problem and the problem held
by the solver stay the same problem after every history of operations;
operations that name an unknown or repeated variable are refused and change
nothing.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402

from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402

DT = torch.float64
GRB = gurobipy.GRB
INF = float("inf")


def t(v):
    return torch.tensor(v, dtype=DT)


class Spec:
    """ the problem as the caller described it: rows over named columns """
    def __init__(self):
        self.cols = []      # ("C"/"B"/"R", lb, ub, Var)
        self.rows = []      # ({col: coeff}, sense, rhs)
        self.obj = None     # ({col: c}, {(i, j): q}, constant, sense)

    def kind(self, *ks):
        return [i for i, c in enumerate(self.cols) if c[0] in ks]


def canon(rows, keep=lambda c: True):
    """ set of normalised rows; only the tightest bound per variable """
    ineq, eq, bnd = set(), set(), {}
    for terms, sense, rhs in rows:
        terms = {k: float(v) for k, v in terms.items() if abs(v) > 1e-12}
        rhs = float(rhs)
        if not terms:
            if sense == "=" and abs(rhs) > 1e-9 or sense == "<" and rhs < 0 \
                    or sense == ">" and rhs > 0:
                ineq.add(("infeasible", ))
            continue
        if sense == ">":
            terms = {k: -v for k, v in terms.items()}
            rhs, sense = -rhs, "<"
        keys = sorted(terms)
        sc = abs(terms[keys[0]])
        if sense == "=":
            sc = terms[keys[0]]
        row = tuple((k, round(terms[k] / sc, 7) + 0.) for k in keys)
        rhs = round(rhs / sc, 7) + 0.
        if sense == "=":
            eq.add((row, rhs))
        elif len(keys) == 1:
            bnd[row] = min(rhs, bnd.get(row, INF))
        else:
            ineq.add((row, rhs))
    # x <= c and x >= c
    for row, rhs in list(bnd.items()):
        ((k, s), ) = row
        other = ((k, -s), )
        if other in bnd and abs(bnd[other] + rhs) < 1e-9:
            eq.add((((k, 1.), ), round(rhs * s, 7) + 0.))
    for row, rhs in list(bnd.items()):
        ((k, s), ) = row
        for e in eq:
            if len(e[0]) == 1 and e[0][0][0] == k and s * e[1] <= rhs + 1e-9:
                bnd.pop(row, None)
    return ineq | {(r, "bound", v) for r, v in bnd.items()}, eq


def colnames(spec):
    return {c[3]: i for i, c in enumerate(spec.cols)}


def solver_rows(mip, spec):
    m = mip.gurobi_model
    m.update()
    name = colnames(spec)
    rows = []
    for c in m.getConstrs():
        e = m.getRow(c)
        terms = {}
        for i in range(e.size()):
            j = name[e.getVar(i)]
            terms[j] = terms.get(j, 0.) + e.getCoeff(i)
        rows.append((terms, c.Sense[0], c.RHS))
    for i, c in enumerate(spec.cols):
        if c[0] == "C":
            v = c[3]
            if v.lb == v.ub:
                rows.append(({i: 1.}, "=", v.lb))
                continue
            if v.lb > -1e19:
                rows.append(({i: 1.}, ">", v.lb))
            if v.ub < 1e19:
                rows.append(({i: 1.}, "<", v.ub))
    return rows


def mirror_rows(mip, spec, cx, hist):
    name = colnames(spec)
    rc = [name[v] for v in mip.r]
    zc = [name[v] for v in mip.zeta]
    Ain_r, Ain_z, rhs = mip.get_inequality_constraints()
    rows = []
    for i in range(rhs.shape[0]):
        terms = dict(zip(rc, Ain_r[i].tolist()))
        terms.update(zip(zc, Ain_z[i].tolist()))
        rows.append((terms, "<", rhs[i].item()))
    nz = len(zc)
    # equalities: affine in zeta, recovered from the public accessor
    A0, b0 = mip.get_active_constraints(set(), torch.zeros(nz, dtype=DT))
    bz = []
    for k in range(nz):
        e = torch.zeros(nz, dtype=DT)
        e[k] = 1
        A1, b1 = mip.get_active_constraints(set(), e)
        if A1.shape != A0.shape or not torch.equal(A1, A0):
            cx.fail("active rows depend on the binary value", hist=hist)
        bz.append(b0 - b1)
    for i in range(b0.shape[0]):
        terms = dict(zip(rc, A0[i].tolist()))
        terms.update({zc[k]: bz[k][i].item() for k in range(nz)})
        rows.append((terms, "=", b0[i].item()))
    # every single inequality, made active: same row, zeta moved to the right
    z = torch.tensor([float((k + 1) % 2) for k in range(nz)], dtype=DT)
    n = rhs.shape[0]
    for sel in [{i} for i in range(n)] + ([set(range(n))] if n else []):
        A, b = mip.get_active_constraints(sel, z)
        ix = sorted(sel)
        want_A = Ain_r[ix]
        want_b = rhs[ix] - Ain_z[ix] @ z
        got = sorted(torch.cat((A, b.reshape(-1, 1)), 1)[
            b0.shape[0]:].tolist())
        want = sorted(torch.cat((want_A, want_b.reshape(-1, 1)), 1).tolist())
        if not np.allclose(got, want):
            cx.fail("active inequality rows differ", hist=hist, sel=ix)
    return rows


def spec_rows(spec):
    rows = list(spec.rows)
    for i, c in enumerate(spec.cols):
        if c[0] == "C":
            if c[1] == c[2]:
                rows.append(({i: 1.}, "=", c[1]))
                continue
            if c[1] > -1e19:
                rows.append(({i: 1.}, ">", c[1]))
            if c[2] < 1e19:
                rows.append(({i: 1.}, "<", c[2]))
    return rows


def check(cx, mip, spec, hist):
    cx.states()
    name = colnames(spec)
    if sorted(name[v] for v in mip.r) != spec.kind("C") or sorted(
            name[v] for v in mip.zeta) != spec.kind("B", "R"):
        cx.fail("variables are filed under the wrong kind", hist=hist)
        return
    want = canon(spec_rows(spec))
    got_s = canon(solver_rows(mip, spec))
    got_m = canon(mirror_rows(mip, spec, cx, hist))
    cx.outcome(len(want[0]), len(want[1]), hist[-1] if hist else "")
    if got_s != want:
        cx.fail("solver holds a different problem: " + str(hist[-1][0]),
                hist=hist, extra=sorted(map(str, (got_s[0] - want[0]) | (
                    got_s[1] - want[1]))), missing=sorted(map(str, (
                        want[0] - got_s[0]) | (want[1] - got_s[1]))))
    if got_m != want:
        cx.fail("differentiable copy is a different problem: " +
                str(hist[-1][0]), hist=hist,
                extra=sorted(map(str, (got_m[0] - want[0]) | (
                    got_m[1] - want[1]))), missing=sorted(map(str, (
                        want[0] - got_m[0]) | (want[1] - got_m[1]))))
    m = mip.gurobi_model
    for i, (k, lb, ub, v) in enumerate(spec.cols):
        if k in ("B", "R"):
            if v.vtype != (GRB.BINARY if k == "B" else GRB.CONTINUOUS):
                cx.fail("variable type", hist=hist, want=k, got=v.vtype)
            if not (abs(v.lb - max(lb, 0)) <= 1e-9) or not (abs(v.ub - min(ub,
                                                               1)) <= 1e-9):
                cx.fail("bounds of a binary variable", hist=hist,
                        got=(v.lb, v.ub), want=(lb, ub))
    if spec.obj is None:
        if any(getattr(mip, k, None) is not None for k in (
                "c_r", "c_zeta", "c_constant", "sense", "Q_r", "Q_zeta",
                "Q_rzeta")):
            cx.fail("objective without one being set", hist=hist)
    else:
        lin, quad, const, sense = spec.obj
        e = m.getObjective()
        le = e.getLinExpr() if isinstance(e, gurobipy.QuadExpr) else e
        gl = {}
        for i in range(le.size()):
            j = name[le.getVar(i)]
            gl[j] = gl.get(j, 0.) + le.getCoeff(i)
        gq = {}
        if isinstance(e, gurobipy.QuadExpr):
            for i in range(e.size()):
                p = tuple(sorted((name[e.getVar1(i)], name[e.getVar2(i)])))
                gq[p] = gq.get(p, 0.) + e.getCoeff(i)
        rc, zc = [name[v] for v in mip.r], [name[v] for v in mip.zeta]
        nr, nzz = mip.c_r.shape[0], mip.c_zeta.shape[0]
        ml = dict(zip(rc[:nr], mip.c_r.tolist()))
        ml.update(zip(zc[:nzz], mip.c_zeta.tolist()))
        mq = {}
        if isinstance(mip, gtm.GurobiTorchMIQP):
            for Q, a, b in ((mip.Q_r, rc, rc), (mip.Q_zeta, zc, zc),
                            (mip.Q_rzeta, rc, zc)):
                for i, j in itertools.product(range(Q.shape[0]),
                                              range(Q.shape[1])):
                    p = tuple(sorted((a[i], b[j])))
                    mq[p] = mq.get(p, 0.) + Q[i, j].item()

        def clean(d):
            return {k: round(v, 7) for k, v in d.items() if abs(v) > 1e-12}
        for who, a, b, c in (("solver", gl, gq, le.getConstant()),
                             ("copy", ml, mq, float(mip.c_constant))):
            if clean(a) != clean(lin) or clean(b) != clean(quad) or not (abs(
                    c - const) <= 1e-9):
                cx.fail(f"objective differs ({who})", hist=hist, got=(
                    clean(a), clean(b), c), want=(clean(lin), clean(quad),
                                                  const))
        if m.ModelSense != (1 if sense == GRB.MINIMIZE else -1) or \
                mip.sense != sense:
            cx.fail("objective sense", hist=hist)


VARS = {
    "free": ("C", 2, -INF, INF),
    "box": ("C", 2, [-1., 0.], [1., 0.]),
    "default": ("C", 1, None, None),
    "upper": ("C", 1, -INF, 2),
    "mixed": ("C", 3, [-INF, -2., 1.], [0.5, INF, 1.]),
    "bin": ("B", 2, 0, 1),
    "binfix": ("B", 2, [0., 1.], [0., 1.]),
    "relax": ("R", 1, 0, 1),
    "relaxdef": ("R", 2, None, None),
    "relaxtight": ("R", 1, 1., 1.),
}
SENSES = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}


def coeff(i, j):
    return ((3 * i + 5 * j) % 7 - 3) * 0.5 + (0.25 if j % 2 else 0.)


def split(ix, how):
    if how == 0:
        return [ix]
    if how == 1:
        return [ix[::2], ix[1::2]]
    return [ix[len(ix) // 2:][::-1], [], ix[:len(ix) // 2]]


def op_list(quad):
    ops = [("vars", k) for k in VARS]
    for s in "<>=":
        ops.append(("L", s, "all", 1))
        ops.append(("L", s, "rev", 2))
        ops.append(("M", s, "all", 1, 2))
        ops.append(("M", s, "rev", 2, 1))
    ops += [("L", "<", "cont", 0), ("L", "=", "disc", 0),
            ("M", ">", "cont", 0, 2), ("M", "=", "disc", 0, 1),
            ("M", "<", "last", 0, 1)]
    ops += [("block", k) for k in range(8)]
    ops += [("unrelax", ), ("obj", "min"), ("obj", "max")]
    ops += [("bad", k) for k in ("Ldup", "Ldup2", "Lunknown", "Munknown",
                                 "Mforeign", "Lforeign", "Odup", "Ounknown",
                                 "Oquad")]
    return ops


def pick(spec, which):
    n = len(spec.cols)
    ix = list(range(n))
    if which == "rev":
        ix = ix[::-1]
    elif which == "cont":
        ix = spec.kind("C")
    elif which == "disc":
        ix = spec.kind("B", "R")
    elif which == "last":
        ix = ix[-1:]
    return ix


def do_vars(mip, spec, kind):
    k, n, lb, ub = VARS[kind]
    kw = {}
    if lb is not None:
        kw["lb"] = t(lb) if isinstance(lb, list) else lb
    if ub is not None:
        kw["ub"] = t(ub) if isinstance(ub, list) else ub
    vt = {"C": GRB.CONTINUOUS, "B": GRB.BINARY, "R": gtm.BINARYRELAX}[k]
    vs = mip.addVars(n, vtype=vt, name=f"v{len(spec.cols)}", **kw)
    for i in range(n):
        lo = 0. if lb is None else (lb[i] if isinstance(lb, list) else lb)
        up = (INF if k == "C" else 1.) if ub is None else (
            ub[i] if isinstance(ub, list) else ub)
        spec.cols.append((k, lo, up, vs[i]))


def do_block(mip, spec, k, step):
    """ blocks with / without outputs, binaries created or shared """
    if k >= 4 and not mip.__class__:
        return False
    cont = spec.kind("C")
    if len(cont) < 2:
        return False
    b = gtm.MixedIntegerConstraintsReturn()
    x = cont[:1] if k != 1 else cont[-1:]
    out = None
    share = None
    ns, nb = (0, 1, 1, 2, 0, 1, 2, 1)[k], (2, 1, 0, 1, 1, 2, 1, 2)[k]
    n0 = len(spec.cols)
    vt = gtm.BINARYRELAX if k == 3 else GRB.BINARY
    if k == 5:
        share = [i for i in spec.kind("B")][:2]
        if len(share) < 2:
            return False
    newcols = [("C", -INF, INF)] * ns
    if share is None:
        newcols += [("R" if k == 3 else "B", 0., 1.)] * nb
    xs, ss = x, list(range(n0, n0 + ns))
    zs = share if share is not None else list(range(n0 + ns, n0 + ns + nb))
    rows = []

    def mat(m, ix, off):
        return [[coeff(i + off, j) for j in range(len(ix))]
                for i in range(m)]

    def add(pref, m, sense, rhs, use):
        allterms = [dict() for _ in range(m)]
        for nm, ix, off in (("input", xs, 1), ("slack", ss, 2),
                            ("binary", zs, 4)):
            if nm in use and ix:
                M = mat(m, ix, off)
                for i in range(m):
                    for j, c in zip(ix, M[i]):
                        allterms[i][j] = allterms[i].get(j, 0.) + c
                setattr(b, f"{pref}_{nm}", t(M))
        for i in range(m):
            rows.append((allterms[i], sense, rhs[i]))
        return t(rhs)
    if k in (0, 1, 3, 4, 5):
        b.rhs_in = add("Ain", 2, "<", [1., -0.5],
                       ("input", "slack", "binary") if k != 4 else
                       ("binary", ))
    if k in (1, 2, 3):
        b.rhs_eq = add("Aeq", 1, "=", [0.25], ("input", "slack", "binary"))
    if k in (6, 7):
        # the sizes are only known from the (trivial) bounds
        if k == 6:
            b.slack_lo, b.binary_lo = t([-INF] * ns), t([0.] * nb)
        else:
            b.slack_up, b.binary_up = t([INF] * ns), t([1.] * nb)
    if k in (0, 2, 3, 6, 7):
        out = [cont[1]]
        use = {0: ("input", "binary"), 2: ("slack", )}.get(
            k, ("input", "slack", "binary"))
        terms = {cont[1]: -1.}
        for nm, ix, off in (("input", xs, 5), ("slack", ss, 6),
                            ("binary", zs, 3)):
            if nm in use and ix:
                M = mat(1, ix, off)
                for j, c in zip(ix, M[0]):
                    terms[j] = terms.get(j, 0.) + c
                setattr(b, f"Aout_{nm}", t(M))
        if k != 2:
            b.Cout = t([0.75])
        rows.append((terms, "=", -0.75 if k != 2 else 0.))
    if k == 1:
        # bounds on the new slack / input, also present as rows
        b.slack_lo, b.slack_up = t([-1.5]), t([2.5])
        b.input_lo = t([-0.75])
        b.Ain_input = torch.cat((b.Ain_input, t([[0.], [0.], [-1.]])))
        b.Ain_slack = torch.cat((b.Ain_slack, t([[-1.], [1.], [0.]])))
        b.Ain_binary = torch.cat((b.Ain_binary, t([[0.], [0.], [0.]])))
        b.rhs_in = torch.cat((b.rhs_in, t([1.5, 2.5, 0.75])))
        rows += [({ss[0]: -1.}, "<", 1.5), ({ss[0]: 1.}, "<", 2.5),
                 ({xs[0]: -1.}, "<", 0.75)]
    lo, up = 0., 1.
    if k == 4:
        b.binary_lo, b.binary_up = t([1.]), t([1.])
        newcols[-1] = ("B", 1., 1.)
    s, z = mip.add_mixed_integer_linear_constraints(
        b, [spec.cols[i][3] for i in xs],
        None if out is None else [spec.cols[i][3] for i in out],
        f"s{n0}", f"z{n0}" if share is None else
        [spec.cols[i][3] for i in share], "in", "eq", "out", vt)
    new = list(s) + (list(z) if share is None else [])
    assert len(new) == len(newcols), (k, len(s), len(z))
    for c, v in zip(newcols, new):
        spec.cols.append(c + (v, ))
    spec.rows += rows
    return True


def linear(mip, spec, ix, how, base):
    parts = split(ix, how)
    co = [t([coeff(base, i) for i in p]) if p else
          torch.zeros(0, dtype=DT) for p in parts]
    va = [[spec.cols[i][3] for i in p] for p in parts]
    return co, va, {i: coeff(base, i) for i in ix}


def do_op(mip, spec, op, step, cx, hist):
    """ returns False when the operation does not apply in this state """
    k = op[0]
    n = len(spec.cols)
    if k == "vars":
        if n > 7:
            return False
        do_vars(mip, spec, op[1])
    elif k == "L":
        ix = pick(spec, op[2])
        if not ix:
            return False
        co, va, terms = linear(mip, spec, ix, op[3], step)
        rhs = 0.5 - step
        mip.addLConstr(co, va, sense=SENSES[op[1]],
                       rhs=rhs if op[3] != 1 else t(rhs))
        spec.rows.append((terms, op[1], rhs))
    elif k == "M":
        ix = pick(spec, op[2])
        if not ix:
            return False
        parts = [p for p in split(ix, op[3])]
        m = op[4]
        A = [t([[coeff(step + 2 * r, i) for i in p] for r in range(m)]
               ).reshape(m, len(p)) for p in parts]
        b = t([0.25 * (r + 1) for r in range(m)])
        mip.addMConstr(A, [[spec.cols[i][3] for i in p] for p in parts],
                       sense=SENSES[op[1]], b=b)
        for r in range(m):
            spec.rows.append(({i: coeff(step + 2 * r, i) for i in ix},
                              op[1], 0.25 * (r + 1)))
    elif k == "block":
        if n > 7:
            return False
        return do_block(mip, spec, op[1], step)
    elif k == "unrelax":
        if not spec.kind("R"):
            return False
        mip.remove_binary_relaxation()
        spec.cols = [("B", ) + c[1:] if c[0] == "R" else c
                     for c in spec.cols]
    elif k == "obj":
        if n == 0:
            return False
        sense = GRB.MINIMIZE if op[1] == "min" else GRB.MAXIMIZE
        co, va, terms = linear(mip, spec, list(range(n))[::-1], 1 + step % 2,
                               step)
        const = 0.5 if step % 2 else t(-1.5)
        if isinstance(mip, gtm.GurobiTorchMIQP):
            L, R = list(range(min(n, 3))), list(range(max(0, n - 2), n))
            L = [i for i in L if i not in R]
            if not L:
                L, R = [0], [n - 1]
            Q = t([[coeff(i, j + 1) for j in R] for i in L])
            mip.setObjective([Q], [([spec.cols[i][3] for i in L],
                                    [spec.cols[j][3] for j in R])], co, va,
                             const, sense)
            quad = {}
            for a, i in enumerate(L):
                for b2, j in enumerate(R):
                    p = tuple(sorted((i, j)))
                    quad[p] = quad.get(p, 0.) + Q[a, b2].item()
        else:
            mip.setObjective(co, va, const, sense)
            quad = {}
        spec.obj = (terms, quad, float(const), sense)
    elif k == "bad":
        if n == 0:
            return False
        all_v = [c[3] for c in spec.cols]
        one = [1.] * n
        f = None
        other = gtm.GurobiTorchMILP(DT)
        alien = other.addVars(1)[0]
        stray = None
        if op[1].endswith("unknown"):
            # a variable of the solver's model that was never registered
            stray = mip.gurobi_model.addVar(name="stray")
            mip.gurobi_model.update()
        if op[1] == "Ldup":
            def f():
                mip.addLConstr([t(one + [2.])], [all_v + all_v[:1]],
                               sense=GRB.LESS_EQUAL, rhs=0.)
        elif op[1] == "Ldup2":
            def f():
                mip.addLConstr([t(one), t([2.])], [all_v, all_v[-1:]],
                               sense=GRB.EQUAL, rhs=0.)
        elif op[1] == "Lunknown":
            def f():
                mip.addLConstr([t([1.]), t(one)], [[stray], all_v],
                               sense=GRB.LESS_EQUAL, rhs=1.)
        elif op[1] == "Lforeign":
            def f():
                mip.addLConstr([t([1.]), t(one)], [[alien], all_v],
                               sense=GRB.LESS_EQUAL, rhs=1.)
        elif op[1] == "Munknown":
            def f():
                mip.addMConstr([t([[1.]]), t([one])], [[stray], all_v],
                               sense=GRB.LESS_EQUAL, b=t([1.]))
        elif op[1] == "Mforeign":
            def f():
                mip.addMConstr([t([one]), t([[1.]])], [all_v, [alien]],
                               sense=GRB.GREATER_EQUAL, b=t([1.]))
        elif op[1] == "Odup":
            if isinstance(mip, gtm.GurobiTorchMIQP):
                def f():
                    mip.setObjective([], [], [t(one), t([2.])],
                                     [all_v, all_v[:1]], 0., GRB.MINIMIZE)
            else:
                def f():
                    mip.setObjective([t(one), t([2.])], [all_v, all_v[:1]],
                                     0., GRB.MINIMIZE)
        elif op[1] == "Oquad":
            # a repeated pair in the quadratic part (a linear one otherwise)
            if isinstance(mip, gtm.GurobiTorchMIQP):
                def f():
                    mip.setObjective(
                        [t([[1.]]), t([[2.]])],
                        [(all_v[:1], all_v[-1:])] * 2, [t(one)], [all_v],
                        t(0.25), GRB.MAXIMIZE)
            else:
                def f():
                    mip.setObjective([t(one), t(one)], [all_v, all_v],
                                     t(0.25), GRB.MAXIMIZE)
        elif op[1] == "Ounknown":
            if isinstance(mip, gtm.GurobiTorchMIQP):
                def f():
                    mip.setObjective([], [], [t(one), t([2.])],
                                     [all_v, [stray]], 0., GRB.MINIMIZE)
            else:
                def f():
                    mip.setObjective([t(one), t([2.])], [all_v, [stray]],
                                     0., GRB.MINIMIZE)
        try:
            f()
            refused = False
        except Exception:
            refused = True
        if not refused:
            cx.fail(f"not refused: {op[1]}", hist=hist)
            return None
        cx.count("refusals")
    return True


def tasks(tier):
    n = len(op_list(False))
    depth = 3
    ret = []
    for quad in (False, True):
        starts = [k for k in VARS]
        for s in starts:
            for a in range(n):
                d = depth
                if tier == "quick" and (quad or s not in ("mixed",
                                                          "relaxdef")):
                    d = 2
                ret.append((quad, s, a, d))
    return ret


def build(quad, start, seq, cx):
    mip = (gtm.GurobiTorchMIQP if quad else gtm.GurobiTorchMILP)(DT)
    mip.gurobi_model.setParam("OutputFlag", 0)
    spec = Spec()
    do_vars(mip, spec, start)
    for s, op in enumerate(seq):
        ok = do_op(mip, spec, op, s, cx, (start, ) + seq[:s + 1])
        if not ok:
            return None, None, ok
    return mip, spec, True


def work(cx, task):
    quad, start, a, depth = task
    ops = op_list(quad)
    mip, spec, _ = build(quad, start, (), cx)
    check(cx, mip, spec, (("vars", start), ))
    stack = [(ops[a], )]
    while stack:
        seq = stack.pop()
        if cx.out_of_time():
            return
        mip, spec, ok = build(quad, start, seq, cx)
        if not ok:
            continue
        cx.trans()
        before = len(cx.fails)
        check(cx, mip, spec, seq)
        if len(cx.fails) > 3:
            return
        if len(cx.fails) > before:
            continue
        if len(seq) < depth:
            stack.extend(seq + (o, ) for o in ops)
        else:
            cx.traces()
    cx.sample(start=start, first=ops[a], depth=depth, quadratic=quad)


if __name__ == "__main__":
    mc.main(
        "C08", tasks, work,
        rule="every history of operations up to the depth (3; 2 from all "
        "but one start in the quick tier) from 10 initial variable groups, for linear and quadratic "
        "problems; states = problems compared row by row in three versions "
        "(caller's description, solver, differentiable copy)")
