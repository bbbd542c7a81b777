"""
C09: the optimal (and every pooled sub-optimal) objective, recomputed as a
differentiable function of the problem data, equals the objective of the
solved problem, and its gradient is the derivative of that objective with
respect to every coefficient, bound, right-hand side and constant.
"""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402
import nets  # noqa: E402

from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402

DT = torch.float64
GRB = gurobipy.GRB
SENSE = {"<": GRB.LESS_EQUAL, ">": GRB.GREATER_EQUAL, "=": GRB.EQUAL}


def build(spec, th):
    """ spec: structure; th: flat torch vector of every number """
    pos = [0]

    def take(n):
        v = th[pos[0]:pos[0] + n]
        pos[0] += n
        return v
    nr, nz = spec["nr"], spec["nz"]
    mip = (gtm.GurobiTorchMIQP if spec["quad"] else gtm.GurobiTorchMILP)(DT)
    mip.gurobi_model.setParam("OutputFlag", 0)
    lb, ub = take(nr), take(nr)
    if spec["fixed_first"]:
        ub = torch.cat((lb[:1], ub[1:]))
    # discrete first, then continuous in two groups
    z = mip.addVars(nz, vtype=GRB.BINARY, name="z")
    r = mip.addVars(1, lb=lb[:1], ub=ub[:1], name="r0")
    if nr > 1:
        r = r + mip.addVars(nr - 1, lb=lb[1:], ub=ub[1:], name="r1")
    for how, s in spec["rows"]:
        a, b, d = take(nr), take(nz), take(1)
        if how == "L":
            mip.addLConstr([a, b], [r, z], sense=SENSE[s], rhs=d[0])
        elif how == "Lrev":
            mip.addLConstr([b, a.flip(0)], [z, r[::-1]], sense=SENSE[s],
                           rhs=d[0])
        else:
            mip.addMConstr([b.reshape(1, -1), a.reshape(1, -1)], [z, r],
                           sense=SENSE[s], b=d)
    cr, cz, c0 = take(nr), take(nz), take(1)
    if spec["quad"]:
        Q = take(nr * nr).reshape(nr, nr)
        Qz = take(nz * nz).reshape(nz, nz)
        Qx = take(nr * nz).reshape(nr, nz)
        cross = {
            "rz": [(Qx, (r, z))],
            "zr": [(Qx.T, (z, r))],
            "mix": [(Qx[:1].T, (z, r[:1])), (Qx[1:], (r[1:], z))],
        }[spec["cross"]]
        quad = [(Q, (r, r))] + cross[:1] + [(Qz, (z, z))] + cross[1:]
        mip.setObjective([q for q, _ in quad], [v for _, v in quad],
                         [cr, cz], [r, z], c0[0], spec["sense"])
    else:
        mip.setObjective([cr, cz], [r, z], c0[0], spec["sense"])
    assert pos[0] == th.shape[0], (pos[0], th.shape)
    return mip, r, z


def value(spec, th, zfix=None):
    """ objective of the solved problem (binaries fixed when zfix given) """
    mip, r, z = build(spec, torch.tensor(th, dtype=DT))
    if zfix is not None:
        for v, k in zip(z, zfix):
            v.lb = v.ub = k
    mip.gurobi_model.optimize()
    if mip.gurobi_model.status != GRB.Status.OPTIMAL:
        return None
    return mip.gurobi_model.ObjVal


def explore(cx, spec, th, grad):
    tol = 1e-4 if spec["quad"] else 1e-6
    pen = 1e-8 if spec["quad"] else 0.
    tt = torch.tensor(th, dtype=DT, requires_grad=True)
    mip, r, z = build(spec, tt)
    m = mip.gurobi_model
    nz = spec["nz"]
    if not spec["quad"]:
        m.setParam(GRB.Param.PoolSearchMode, 2)
        m.setParam(GRB.Param.PoolSolutions, 2**nz)
    m.optimize()
    cx.states()
    kw = dict(spec={k: v for k, v in spec.items()}, data=th)
    if m.status != GRB.Status.OPTIMAL:
        cx.outcome("status", m.status)
        return
    seen = set()
    for k in range(m.solCount):
        m.setParam(GRB.Param.SolutionNumber, k)
        zk = tuple(round(v.xn) for v in z)
        objk = m.PoolObjVal
        fresh = value(spec, th, zk)
        cx.trans()
        cx.outcome(round(objk, 5), zk)
        if fresh is None or abs(fresh - objk) > 1e-6:
            raise mc.EngineProblem(f"pool {objk} vs {fresh}")
        seen.add(zk)
        obj = mip.compute_objective_from_mip_data_and_solution(
            solution_number=k, penalty=pen)
        if not (abs(obj.item() - objk) <= tol):
            cx.fail("recomputed objective differs from the solver's",
                    solution=k, got=obj.item(), want=objk, **kw)
            return
        active, zs = mip.get_active_constraint_indices_and_binary_val(
            solution_number=k)
        o2 = mip.compute_objective_from_mip_data(active, zs, pen)
        if not (abs(o2.item() - objk) <= tol) or tuple(
                int(v) for v in zs.tolist()) != zk:
            cx.fail("objective from active rows and binaries differs",
                    solution=k, got=o2.item(), want=objk, **kw)
            return
        if not grad:
            continue
        # derivative w.r.t. every datum, binaries fixed as in solution k
        m.setParam(GRB.Param.SolutionNumber, k)
        (g, ) = torch.autograd.grad(obj, tt, retain_graph=True)
        h = 2.**-15
        bad = []
        for i in range(len(th)):
            tp, tm = list(th), list(th)
            tp[i] += h
            tm[i] -= h
            vp, vm = value(spec, tp, zk), value(spec, tm, zk)
            if vp is None or vm is None:
                continue
            right, left = (vp - objk) / h, (objk - vm) / h
            cx.trans()
            if abs(right - left) > 1e-3 * (1 + abs(right)):
                cx.count("kinks")
                bad.append(None)
                continue
            want = (vp - vm) / (2 * h)
            if abs(g[i].item() - want) > 2e-3 * (1 + abs(want)):
                bad.append((i, g[i].item(), want))
        real = [b for b in bad if b is not None]
        # at a degenerate solution (two bases) the derivative in the other
        # data is not promised
        if real and None not in bad:
            cx.fail("gradient is not the derivative of the objective",
                    solution=k, first=real[:3], **kw)
            return
        cx.traces()


def tiny(quad, part):
    """ one continuous, one binary variable, one coupling row: exhaustive over
    an alphabet """
    combos = list(itertools.product(
        (-1., 0.5, 1.), (-1., 0., 2.), (0.25, 1., -0.5),
        (-1., 1.), (-0.25, 0.75), ("L", "M"), "<>=",
        (GRB.MINIMIZE, GRB.MAXIMIZE)))
    for a, b, d, c, cz, how, s, sense in combos[part::16]:
        spec = dict(nr=1, nz=1, quad=quad, fixed_first=False,
                    cross=("rz", "zr")[how == "M"],
                    rows=[(how, s)], sense=sense)
        th = [-1.25, 1.5, a, b, d, c, cz, 0.375]
        if quad:
            q = 1. if sense == GRB.MINIMIZE else -1.
            th += [q, 0.5, -0.75]
        yield spec, th


def table(quad, k):
    """ two continuous, two binaries """
    s = nets.stream(500 + k)

    def num():
        v = float(next(s))
        return v if v != 0 else 0.25
    sense = GRB.MINIMIZE if k % 2 else GRB.MAXIMIZE
    rows = [[("L", "<"), ("M", ">")], [("M", "<"), ("Lrev", "=")],
            [("Lrev", ">"), ("L", "<"), ("M", "<")], [("M", "=")],
            [("Lrev", "<"), ("M", "<")]][k % 5]
    nr = 2 + (k % 7 == 3)
    nz = 2
    spec = dict(nr=nr, nz=nz, quad=quad, fixed_first=(k % 4 == 1),
                cross=("rz", "zr", "mix")[(k // 2 + k // 5) % 3],
                rows=rows, sense=sense)
    th = [-1. - 0.125 * i for i in range(nr)] + [
        1.25 + 0.0625 * i for i in range(nr)]
    if spec["fixed_first"]:
        pass
    for _ in rows:
        th += [num() for _ in range(nr + nz)] + [0.4375 + 0.1 * num()]
    th += [num() for _ in range(nr + nz)] + [num()]
    if quad:
        q = 1. if sense == GRB.MINIMIZE else -1.
        L = np.array([[num() for _ in range(nr)] for _ in range(nr)])
        Q = L.T @ L + 0.5 * np.eye(nr)
        shape = k % 3
        if shape == 1:   # same function, upper triangular
            Q = np.triu(Q) + np.triu(Q, 1)
        elif shape == 2:
            Q = np.diag(np.diag(Q))
        th += (q * Q).reshape(-1).tolist()
        th += [num() for _ in range(nz * nz)]
        th += [num() if k % 2 else 0. for _ in range(nr * nz)]
    return spec, th


def noisy(cx, k):
    """ a solver that returns the solution only up to its own (scaled)
    tolerance: the rows active at the solution have a residual. The search
    for the active rows widens its tolerance until the objective agrees, at
    most ten times, and the result is that of the exact solution. """
    spec, th = table(False, k)
    tt = torch.tensor(th, dtype=DT, requires_grad=True)
    mip, r, z = build(spec, tt)
    m = mip.gurobi_model
    m.setParam(GRB.Param.PoolSearchMode, 2)
    m.setParam(GRB.Param.PoolSolutions, 4)
    m.optimize()
    cx.states()
    if m.status != GRB.Status.OPTIMAL:
        return
    tol0, kw = 1e-6, dict(spec=spec, data=th)
    A, Az, b = (t.detach().numpy() for t in mip.get_inequality_constraints())
    Ae = np.zeros((len(mip.rhs_eq), len(mip.r)))
    for i, j, v in zip(mip.Aeq_r_row, mip.Aeq_r_col, mip.Aeq_r_val):
        Ae[i, j] += float(v)
    pool = list(m._pool)
    for n, (objn, sol) in enumerate(pool):
        rs = np.array([sol[v] for v in mip.r])
        zs = np.array([round(sol[v]) for v in mip.zeta])
        gap = A @ rs + Az @ zs - b
        act = np.abs(gap) < 1e-9
        M = np.vstack((A[act], Ae))
        # only vertices described by as many rows as there are variables
        if M.shape[0] != len(rs) or np.linalg.cond(M) > 1e6 or \
                np.any(~act & (np.abs(gap) < 0.01)):
            cx.count("degenerate")
            continue
        # binaries within the solver's integrality tolerance
        for signs in itertools.product((-1., 0., 1.), repeat=len(zs)):
            if not any(signs):
                continue
            moved = dict(sol)
            for v, zv, d in zip(mip.zeta, zs, signs):
                moved[v] = float(zv) + d * 5e-6
            m.__dict__["_pool"] = pool[:n] + [(objn, moved)] + pool[n + 1:]
            cx.trans()
            try:
                got = mip.compute_objective_from_mip_data_and_solution(
                    solution_number=n)
                rows, zz = mip.get_active_constraint_indices_and_binary_val(n)
            except gtm.IncorrectActiveConstraint:
                cx.fail("binaries within tolerance: no active rows found",
                        solution=n, **kw)
                return
            finally:
                m.__dict__["_pool"] = pool
            if not (abs(got.item() - objn) <= 1e-6 * (1 + abs(objn))):
                cx.fail("binaries within tolerance: objective", solution=n,
                        got=got.item(), want=objn, **kw)
                return
            if not np.array_equal(zz.detach().numpy(), zs) or \
                    {int(i) for i in rows} != set(np.flatnonzero(act)):
                cx.fail("binaries within tolerance: active rows or binaries",
                        solution=n, got=[sorted(rows), zz], **kw)
                return
        for signs in itertools.product((-1., 1.), repeat=int(act.sum())):
            for lead in range(-1, 12):
                # residual of the active rows, as a multiple of the starting
                # tolerance: just above 2^(lead - 1), just below 2^lead
                res = np.zeros(M.shape[0])
                scale = 2.**lead * 0.75 * tol0
                for i, sgn in enumerate(signs):
                    res[i] = sgn * scale * (1. if i == 0 else 0.5)
                dr = np.linalg.solve(M, res)
                moved = dict(sol)
                for v, d in zip(mip.r, dr):
                    moved[v] = sol[v] + float(d)
                m.__dict__["_pool"] = pool[:n] + [(objn, moved)] + pool[n + 1:]
                cx.trans()
                try:
                    got = mip.compute_objective_from_mip_data_and_solution(
                        solution_number=n)
                except gtm.IncorrectActiveConstraint:
                    got = None
                finally:
                    m.__dict__["_pool"] = pool
                inside = [abs(x) < tol0 * 2.**9 for x in res[:len(signs)]]
                cx.outcome("lead", lead, got is None)
                if got is None:
                    if all(inside):
                        cx.fail("active rows not found although the ten "
                                "tolerances cover the residual",
                                solution=n, residual=res.tolist(), **kw)
                        return
                    continue
                if not (abs(got.item() - objn) <= 1e-3):
                    cx.fail("an objective that does not match was returned",
                            solution=n, residual=res.tolist(),
                            got=got.item(), want=objn, **kw)
                    return
                cx.traces()


def tasks(tier):
    n = 60 if tier == "quick" else 600
    return [("tiny", q, p) for q in (False, True) for p in range(16)] + \
        [("table", q, k) for q in (False, True) for k in range(n)] + \
        [("noisy", False, k) for k in range(n // 2)]


def work(cx, task):
    kind, quad, k = task
    if kind == "tiny":
        for n, (spec, th) in enumerate(tiny(quad, k)):
            explore(cx, spec, th, n % (3 if quad else 2) == 0)
            if len(cx.fails) > 2:
                return
    elif kind == "noisy":
        noisy(cx, k)
    else:
        spec, th = table(quad, k)
        explore(cx, spec, th, True)
        cx.sample(spec=spec, data=th)


if __name__ == "__main__":
    mc.main(
        "C09", tasks, work,
        rule="every problem of the declared families, every solution in the "
        "pool, every datum perturbed both ways; states = problems, "
        "transitions = solved (perturbed) problems",
        assumptions=["gradient compared where the one-sided derivatives "
                     "agree for every datum (non-degenerate solution)"])
