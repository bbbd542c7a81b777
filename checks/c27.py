"""
C27: synthesis of simple piecewise-linear Lyapunov functions.  For every system
of a family (1, 2 and 3 states, 1-4 modes, equilibrium inside a mode, on a
facet or off the origin), every SUBSET and several orders of the constraints a
user can add, and every interleaving of adding and solving, the returned
function is compared with an independently assembled linear program: same
optimum, the returned slacks are the true worst violations over the modes, and
with zero slacks the function is continuous, positive and decreasing at every
point of a grid.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import scipy.optimize  # noqa: E402

import neural_network_lyapunov.simple_pwl_lyapunov as spl  # noqa: E402


def box_vertices(lo, up):
    return np.array(list(itertools.product(*zip(lo, up))), dtype=float)


def rot(a, s):
    return s * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def systems():
    """ name -> (x_dim, [ (lo, up, A, g) per mode ], x*, mode of x*) ; the
    modes are boxes sharing facets """
    S = {}
    S["1d"] = (1, [((0., ), (1., ), [[-1.]], [0.]),
                   ((-1., ), (0., ), [[-2.]], [0.])], [0.], 0)
    S["1d unstable"] = (1, [((0., ), (1., ), [[.5]], [0.]),
                            ((-1., ), (0., ), [[-2.]], [0.])], [0.], 1)
    S["1d shifted"] = (1, [((-1., ), (.5, ), [[-1.]], [.5]),
                           ((.5, ), (3., ), [[-1.5]], [.75]),
                           ((3., ), (4., ), [[0.]], [-3.75])], [.5], 1)
    S["1d affine"] = (1, [((-2., ), (1., ), [[-1.]], [1.]),
                          ((1., ), (2., ), [[2.]], [-5.])], [1.], 0)
    A1, A2 = rot(2.2, 1.), rot(3., .75)
    S["2d halves"] = (2, [((0., -1.), (1., 1.), A1, [0., 0.]),
                          ((-1., -1.), (0., 1.), A2, [0., 0.])],
                      [0., 0.], 1)
    S["2d decoupled"] = (
        2, [((0., -1.), (1., 1.), [[-1., 0.], [0., -2.]], [0., 0.]),
            ((-1., -1.), (0., 1.), [[-3., 0.], [0., -2.]], [0., 0.])],
        [0., 0.], 0)
    S["2d quadrants"] = (
        2, [((.5, -1.), (2., 1.), [[-1., .2], [.1, -2.]],
             [.5 + .2, -.05 - 2.]),
            ((-1., -1.), (.5, 1.), [[-3., .2], [.1, -2.]],
             [1.5 + .2, -.05 - 2.]),
            ((.5, 1.), (2., 2.), [[-1., -.2], [.1, -1.]],
             [.5 + .2, -.05 + 1.]),
            ((-1., 1.), (.5, 2.), [[-3., -.2], [.1, -1.]],
             [1.5 + .2, -.05 + 1.])], [.5, 1.], 2)
    S["2d johansson"] = (
        2, [((-2., -1.), (-1., 1.), [[-10., -10.5], [10.5, 9]], [-11., 7.5]),
            ((-1., -1.), (1., 1.), [[-1., -2.5], [1., -1.]], [0., 0.]),
            ((1., -1.), (2., 1.), [[-10., -10.5], [10.5, -20.]],
             [11., 50.5])], [0., 0.], 1)
    S["3d"] = (3, [((0., -1., -1.), (1., 1., 1.), np.diag([-1., -2., -.5]),
                    [0., 0., 0.]),
                   ((-1., -1., -1.), (0., 1., 1.), np.diag([-2., -1., -.5]),
                    [0., 0., 0.])], [0., 0., 0.], 0)
    return S


def operations(name):
    """ everything a user adds: ("der", mode), ("pos", mode, sign),
    ("cont", i, j) """
    nx, modes, xs, _ = systems()[name]
    ops = []
    for i, (lo, up, A, g) in enumerate(modes):
        ops.append(("der", i, box_vertices(lo, up), np.array(A, dtype=float),
                    np.array(g, dtype=float)))
        for sign in itertools.product((1, -1), repeat=nx):
            l, u = list(lo), list(up)
            for k, s in enumerate(sign):
                if s == 1:
                    l[k] = max(l[k], xs[k])
                else:
                    u[k] = min(u[k], xs[k])
            if all(a < b for a, b in zip(l, u)):
                ops.append(("pos", i, box_vertices(l, u), np.array(sign)))
    for i, j in itertools.combinations(range(len(modes)), 2):
        l = np.maximum(modes[i][0], modes[j][0])
        u = np.minimum(modes[i][1], modes[j][1])
        if np.all(l <= u) and np.sum(l == u) == 1:
            v = np.unique(box_vertices(l, u), axis=0)
            ops.append(("cont", i, j, v))
    return ops


def add(dut, op):
    if op[0] == "der":
        dut.add_lyapunov_derivative_in_mode(op[1], op[2].copy(),
                                            op[3].copy(), op[4].copy())
    elif op[0] == "pos":
        dut.add_lyapunov_positivity_in_mode(op[1], op[2].copy(),
                                            op[3].copy())
    else:
        dut.add_continuity_constraint(op[1], op[2], op[3].copy())


def reference(name, ops, e1, e2, weight):
    """ the LP over (c_0, d_0, c_1, d_1, ..., s1, s2) """
    nx, modes, xs, em = systems()[name]
    n = len(modes) * (nx + 1) + 2

    def V(i, x):
        r = np.zeros(n)
        r[i * (nx + 1):i * (nx + 1) + nx] = x
        r[i * (nx + 1) + nx] = 1
        return r

    def grad(i, f):
        r = np.zeros(n)
        r[i * (nx + 1):i * (nx + 1) + nx] = f
        return r
    A, b, Ae, be = [], [], [V(em, xs)], [0.]
    for op in ops:
        if op[0] == "der":
            for v in op[2]:
                # s1 >= dV/dt + e2 V at the vertex
                r = grad(op[1], op[3] @ v + op[4]) + e2 * V(op[1], v)
                r[-2] = -1
                A.append(r)
                b.append(0.)
        elif op[0] == "pos":
            for v in op[2]:
                # s2 >= e1 |v - x*|_1 - V
                r = -V(op[1], v)
                r[-1] = -1
                A.append(r)
                b.append(-e1 * np.abs(v - xs).sum())
        else:
            for v in op[3]:
                Ae.append(V(op[1], v) - V(op[2], v))
                be.append(0.)
    c = np.zeros(n)
    c[-2], c[-1] = 1 - weight, weight
    res = scipy.optimize.linprog(
        c, A_ub=np.array(A) if A else None, b_ub=b if A else None,
        A_eq=np.array(Ae), b_eq=be,
        bounds=[(None, None)] * (n - 2) + [(0, None)] * 2, method="highs")
    if res.status != 0:
        raise mc.EngineProblem(f"reference LP status {res.status}")
    return res.fun


def judge(cx, name, ops, e1, e2, weight, sol, where):
    nx, modes, xs, em = systems()[name]
    c, d, s1, s2 = sol
    if np.shape(c) != (nx, len(modes)) or np.shape(d) != (len(modes), ):
        cx.fail("shape of the solution", **where)
        return False
    want = reference(name, ops, e1, e2, weight)
    got = (1 - weight) * s1 + weight * s2
    tol = 1e-5 * (1 + abs(want))
    cx.trans()
    if not (abs(got - want) <= tol):
        cx.fail("optimal cost", got=got, want=want, **where)
        return False

    def V(i, x):
        return c[:, i] @ x + d[i]
    viol1, viol2 = 0., 0.
    scale = 1 + np.abs(c).max() + np.abs(d).max()
    for op in ops:
        if op[0] == "der":
            i, vs, A, g = op[1:]
            for v in vs:
                viol1 = max(viol1, c[:, i] @ (A @ v + g) + e2 * V(i, v))
        elif op[0] == "pos":
            for v in op[2]:
                viol2 = max(viol2, e1 * np.abs(v - xs).sum() - V(op[1], v))
        else:
            for v in op[3]:
                if not (abs(V(op[1], v) - V(op[2], v)) <= 1e-5 * scale):
                    cx.fail("continuity", i=op[1], j=op[2], v=v, **where)
                    return False
    if not (abs(V(em, np.array(xs))) <= 1e-5 * scale):
        cx.fail("V vanishes at the equilibrium", **where)
        return False
    cx.trans()
    if viol1 > s1 + 1e-5 * scale or viol2 > s2 + 1e-5 * scale or (
            s1 < -1e-7 or s2 < -1e-7):
        cx.fail("returned slacks are the violations", got=[s1, s2],
                want=[viol1, viol2], **where)
        return False
    if s1 > viol1 + 1e-4 * scale or s2 > viol2 + 1e-4 * scale:
        cx.fail("returned slacks are no larger than the violations",
                got=[s1, s2], want=[viol1, viol2], **where)
        return False
    cx.outcome(name, round(float(s1), 3), round(float(s2), 3), len(ops))
    return True


def function_on_grid(cx, name, e1, e2, sol, where):
    """ all constraints present: check the function itself everywhere """
    nx, modes, xs, em = systems()[name]
    c, d, s1, s2 = sol
    scale = 1 + np.abs(c).max() + np.abs(d).max()
    for i, (lo, up, A, g) in enumerate(modes):
        axes = [np.linspace(a, b, 7) for a, b in zip(lo, up)]
        for x in itertools.product(*axes):
            x = np.array(x)
            cx.states()
            V = c[:, i] @ x + d[i]
            Vd = c[:, i] @ (np.array(A) @ x + np.array(g))
            if V < e1 * np.abs(x - xs).sum() - s2 - 1e-5 * scale:
                cx.fail("positivity on the grid", x=x, **where)
                return
            if Vd + e2 * V > s1 + 1e-4 * scale:
                cx.fail("decrease on the grid", x=x, **where)
                return


EPS = ((.1, .01), (.5, .3))
WEIGHTS = (.3, .9)


def tasks(tier):
    ts = []
    for name in systems():
        for e in range(len(EPS)):
            for w in WEIGHTS:
                ts.append(("all", name, e, w))
        n = len(operations(name))
        limit = 6 if tier == "quick" else 8
        chunks = 4
        ts += [("subset", name, k, chunks, limit, tier)
               for k in range(chunks)]
    for name in ("1d", "2d halves", "1d shifted"):
        ts.append(("order", name, tier))
    ts.append(("refuse", ))
    return ts


def new(name, e1, e2):
    nx, modes, xs, em = systems()[name]
    return spl.SimplePWLLyapunov(nx, len(modes), e1, e2,
                                 np.array(xs, dtype=float), em)


def do_all(cx, task):
    _, name, e, w = task
    e1, e2 = EPS[e]
    ops = operations(name)
    where = dict(system=name, eps=[e1, e2], weight=w)
    dut = new(name, e1, e2)
    for op in ops:
        add(dut, op)
    cx.traces()
    sol = dut.solve(w)
    if judge(cx, name, ops, e1, e2, w, sol, where):
        function_on_grid(cx, name, e1, e2, sol, where)
    cx.sample(system=name, s1=sol[2], s2=sol[3])


def subset(cx, task):
    """ every subset of the operations (of up to `limit` kinds, the rest
    present) """
    _, name, k, chunks, limit, tier = task
    ops = operations(name)
    free = list(range(len(ops)))
    if len(free) > limit:
        # every kind is represented among the optional ones
        free = sorted(range(len(ops)), key=lambda i: (
            sum(1 for q in ops[:i] if q[0] == ops[i][0]), i))[:limit]
    base = [i for i in range(len(ops)) if i not in free]
    e1, e2 = EPS[0]
    for m in range(2**len(free)):
        if m % chunks != k:
            continue
        if cx.out_of_time():
            return
        sel = base + [i for b, i in enumerate(free) if m >> b & 1]
        use = [ops[i] for i in sel]
        cx.states()
        cx.traces()
        dut = new(name, e1, e2)
        for op in use:
            add(dut, op)
        sol = dut.solve(.4)
        if not judge(cx, name, use, e1, e2, .4, sol,
                     dict(system=name, subset=sel)):
            return
    cx.sample(system=name, subset=sel)


def order(cx, task):
    """ histories: additions in any order with solves in between, two objects
    at the same time """
    _, name, tier = task
    ops = operations(name)
    depth = 3 if tier == "quick" else 4
    e1, e2 = EPS[1]
    for seq in itertools.permutations(range(len(ops)), min(depth,
                                                           len(ops))):
        if cx.out_of_time():
            return
        cx.states()
        cx.traces()
        dut = new(name, e1, e2)
        other = new(name, EPS[0][0], EPS[0][1])
        use = []
        for n, i in enumerate(seq):
            add(dut, ops[i])
            add(other, ops[seq[-1 - n]])
            use.append(ops[i])
            if n != 1:
                sol = dut.solve(.6)
                if not judge(cx, name, use, e1, e2, .6, sol,
                             dict(system=name, history=seq[:n + 1])):
                    return
        # adding the same again changes nothing
        add(dut, ops[seq[0]])
        sol = dut.solve(.6)
        if not judge(cx, name, use, e1, e2, .6, sol,
                     dict(system=name, history=seq, twice=True)):
            return
    cx.sample(system=name, history=seq)


def refuse(cx, task):
    xs = np.array([.5, 1.])
    box = box_vertices((.5, 1.), (2., 2.))
    for sign in itertools.product((1, -1, 0), repeat=2):
        for lo, up, side in (((.5, 1.), (2., 2.), (1, 1)),
                             ((-1., 1.), (.5, 2.), (-1, 1)),
                             ((.5, -1.), (2., 1.), (1, -1)),
                             ((-1., -1.), (.5, 1.), (-1, -1))):
            cx.states()
            cx.trans()
            cx.traces()
            dut = spl.SimplePWLLyapunov(2, 1, .1, .1, xs, 0)
            try:
                dut.add_lyapunov_positivity_in_mode(
                    0, box_vertices(lo, up), np.array(sign))
                ok = True
            except Exception:
                ok = False
            if ok != (tuple(sign) == side):
                cx.fail("a region outside the orthant is refused",
                        sign=sign, side=side, accepted=ok)
            cx.outcome(sign, side, ok)
    for w in (0., 1., -1.):
        try:
            dut = spl.SimplePWLLyapunov(2, 1, .1, .1, xs, 0)
            dut.add_lyapunov_positivity_in_mode(0, box, np.array([1, 1]))
            dut.solve(w)
            cx.fail("weights outside (0, 1) are refused", weight=w)
        except AssertionError:
            pass


def work(cx, task):
    {"all": do_all, "subset": subset, "order": order,
     "refuse": refuse}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C27", tasks, work,
            rule="every system x margins x weight; every subset of the "
            "constraints; every order with solves in between; states = "
            "subsets, histories or grid points, transitions = solutions "
            "compared with an independently assembled linear program",
            assumptions=["the solver Gurobi is replaced by HiGHS/Clarabel; "
                         "comparisons at 1e-5"])
