"""
C21: parameterisations of the matrix R of the Lyapunov candidate.  For every
class, every size m x n up to 4 x 3 and EVERY assignment of the search
variables from a finite alphabet: R has the promised shape, structure and
smallest singular value, is exactly reproduced from its own value, depends on
every variable with the right derivative.  Histories of assignments, refused
assignments, in-place optimiser steps, mutations of the caller's arrays and
queries are explored to a depth; after each operation R must be the matrix the
history defines (a copy in numpy).
"""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.r_options as r_options  # noqa: E402

EPS = (0.01, 0.5)


def make(kind, size, par):
    m, n = size
    if kind == "spd":
        return r_options.SearchRwithSPDOptions(size, par)
    if kind == "svd":
        k = min(m, n)
        return r_options.SearchRwithSVDOptions(
            size, np.array([par * (1 + .5 * i) for i in range(k)]))
    return r_options.SearchRfreeOptions(size)


def floor(kind, size, par):
    """ promised lower bound of the singular values """
    return {"spd": par, "svd": par, "free": 0.}[kind]


def var_shape(opt):
    return tuple(opt.variables()[0].shape)


def tasks(tier):
    ts = []
    sizes = [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2), (3, 3),
             (4, 4)]
    wide = [(1, 2), (2, 3), (1, 3)]
    for kind in ("spd", "svd", "free"):
        for size in sizes[:-1] + (wide if kind != "spd" else []) + (
                sizes[-1:] if kind != "free" else []):
            for par in EPS if kind != "free" else (0.,):
                ts.append(("grid", kind, size, par, tier))
    for kind in ("spd", "svd", "free"):
        for size in [(2, 2), (3, 2)] + ([(2, 3)] if kind != "spd" else []):
            for first in range(7):
                ts.append(("hist", kind, size, first,
                           3 if tier == "quick" else 5))
    ts.append(("fixed",))
    return ts


def alphabet(nvar, tier):
    if nvar <= 3:
        return (-1.5, -.25, 0., .5, 2.)
    if nvar <= 5:
        return (-1.5, 0., .5, 2.) if tier != "quick" else (-1.5, 0., .5)
    return (-1.5, 0., .5) if tier != "quick" else (-1.5, .5)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def val(opt):
    return opt.R().detach().numpy().copy()


def structure(cx, kind, size, par, R, where):
    m, n = size
    if R.shape != tuple(size) or R.dtype != np.float64:
        cx.fail("shape", got=[list(R.shape), str(R.dtype)], **where)
        return False
    if not np.all(np.isfinite(R)):
        cx.fail("finite", **where)
        return False
    if kind == "spd":
        T = R[:n] - par * np.eye(n)
        if not close(T, T.T, 1e-12):
            cx.fail("the top square block is symmetric", R=R, **where)
        if np.linalg.eigvalsh((T + T.T) / 2).min() < -1e-10:
            cx.fail("the top square block is at least eps I", R=R, **where)
    if kind != "free":
        s = np.linalg.svd(R, compute_uv=False)
        if s.min() < floor(kind, size, par) - 1e-9:
            cx.fail("smallest singular value", R=R, sigma=s, **where)
            return False
    return True


def grid(cx, task):
    _, kind, size, par, tier = task
    opt = make(kind, size, par)
    if opt.fixed_R:
        cx.fail("fixed_R is false for a searched R", kind=kind)
    shape = var_shape(opt)
    nvar = int(np.prod(shape))
    m, n = size
    dof = {"spd": n * (n + 1) // 2 + (m - n) * n, "svd": min(m, n),
           "free": m * n}[kind]
    if len(opt.variables()) != 1 or nvar != dof:
        cx.fail("number of search variables", got=nvar, want=dof)
        return
    rng = np.random.RandomState(3)
    if kind == "svd":
        # bring in non-trivial orthonormal factors
        k = min(m, n)
        base = rng.randn(m, n)
        u, s, v = np.linalg.svd(base)
        S = np.zeros((m, n))
        S[:k, :k] = np.diag(np.arange(k, 0, -1) * 3.)
        base = u @ S @ v
        opt.set_variable_value(base)
        if not close(val(opt), base):
            cx.fail("set_variable_value: R is the given matrix", want=base,
                    got=val(opt))
    for vals in itertools.product(alphabet(nvar, tier), repeat=nvar):
        if cx.out_of_time():
            return
        cx.states()
        x = np.array(vals).reshape(shape)
        keep = x.copy()
        opt.set_variable_value_directly(x)
        where = dict(kind=kind, size=list(size), par=par, x=keep)
        R = val(opt)
        cx.trans()
        if not np.array_equal(x, keep):
            cx.fail("caller's array is left alone", **where)
        if not structure(cx, kind, size, par, R, where):
            return
        v = opt.variables()[0]
        if not (v.is_leaf and v.requires_grad) or not close(
                v.detach().numpy(), keep, 1e-15):
            cx.fail("variables: the leaves that were assigned", **where)
            return
        # derivative of sum(C * R): R is a polynomial of degree <= 2 in each
        # variable, so the central difference with step 1/2 is exact
        C = torch.from_numpy(np.sin(np.arange(1., m * n + 1)).reshape(m, n))
        (C * opt.R()).sum().backward()
        g = opt.variables()[0].grad
        if g is None:
            cx.fail("R depends on its variables", **where)
            return
        g = g.numpy().reshape(-1)
        for k in range(nvar):
            d = []
            for s in (.5, -.5):
                y = keep.copy().reshape(-1)
                y[k] += s
                opt.set_variable_value_directly(y.reshape(shape))
                d.append((C.numpy() * val(opt)).sum())
            cx.trans()
            if not (abs(g[k] - (d[0] - d[1])) <= 1e-9 * (1 + abs(g[k]))):
                cx.fail("derivative of R", k=k, got=g[k], want=d[0] - d[1],
                        **where)
                return
        # the matrix itself, given back, is reproduced
        for scale in (1., ) if kind == "svd" else (1., 1.5):
            W = R * scale if kind == "free" else R + (scale - 1) * np.eye(
                m, n)
            if kind == "svd":
                # singular values must dominate a in decreasing order
                s = np.linalg.svd(W, compute_uv=False)
                a = np.array([par * (1 + .5 * i) for i in range(min(m, n))])
                if not np.all(s >= a + 1e-9):
                    continue
                o = make(kind, size, par)
            else:
                o = make(kind, size, par)
            if kind == "spd" and np.linalg.eigvalsh(
                    W[:n] - par * np.eye(n)).min() < 1e-6:
                continue
            cx.trans()
            cx.traces()
            k2 = W.copy()
            o.set_variable_value(W)
            if not np.array_equal(W, k2):
                cx.fail("set_variable_value leaves its argument alone",
                        **where)
            if not close(val(o), k2, 1e-7):
                cx.fail("set_variable_value: R is the given matrix",
                        want=k2, got=val(o), **where)
                return
            W += 7.
            if not close(val(o), k2, 1e-7):
                cx.fail("set_variable_value keeps its own copy", **where)
                return
            if kind == "spd" and n > 1:
                # only the symmetric part of the top block is used
                Z = k2.copy()
                Z[0, n - 1] += .125
                Z[n - 1, 0] -= .125
                o.set_variable_value(Z)
                if not close(val(o), k2, 1e-7):
                    cx.fail("symmetric part of the top block", want=k2,
                            got=val(o), **where)
                    return
        cx.outcome(kind, np.round(R, 3))
    cx.sample(kind=kind, size=size, R=R)


def hist(cx, task):
    """ histories; the reference is the matrix in numpy """
    _, kind, size, first, depth = task
    m, n = size
    par = .2
    rng = np.random.RandomState(5)
    k = min(m, n)

    def orth(s):
        a = rng.randn(m, n)
        u, _, v = np.linalg.svd(a)
        S = np.zeros((m, n))
        S[:k, :k] = np.diag(s)
        return u @ S @ v
    if kind == "spd":
        A = np.concatenate((np.diag(np.arange(1., n + 1)) + .25,
                            rng.randn(m - n, n)))
        B = np.concatenate((np.eye(n) * 2 - .5, rng.randn(m - n, n)))
        bad = A.copy()
        bad[:n] = -np.eye(n)
    else:
        A, B = orth([3., 2.]), orth([2.5, .75])
        bad = orth([3., 1e-4])
    shape = var_shape(make(kind, size, par))
    X = np.cos(np.arange(1., np.prod(shape) + 1)).reshape(shape)
    OPS = ("A", "B", "bad", "direct", "step", "mutate", "query")

    def run(seq):
        opt = make(kind, size, par)
        opt.set_variable_value(A.copy())
        want = A.copy()
        given = [A]
        params = []
        for op in seq:
            cx.trans()
            before = opt.variables()[0]
            if op in ("A", "B"):
                W = (A if op == "A" else B).copy()
                opt.set_variable_value(W)
                want = W.copy()
                given.append(W)
            elif op == "bad":
                W = bad.copy()
                if kind == "free":
                    W = np.zeros((m + 1, n))
                try:
                    opt.set_variable_value(W)
                    cx.fail("a matrix outside the parameterisation is "
                            "refused", kind=kind, seq=seq)
                    return False
                except Exception:
                    pass
            elif op == "direct":
                x = X.copy()
                opt.set_variable_value_directly(x)
                given.append(x)
                # what the variables define, from a fresh object with the
                # same factors: the derivative test above ties R to them
                want = None
            elif op == "step":
                R = opt.R()
                v = opt.variables()[0]
                v.grad = None
                (R**2).sum().backward()
                with torch.no_grad():
                    old = v.detach().clone()
                    v -= .05 * v.grad
                if kind == "free":
                    want = old.numpy() * .9
                else:
                    want = None
            elif op == "mutate":
                for W in given:
                    if W is not A:
                        W += 100.
                for p in params:
                    pass
                if opt.variables()[0] is not before:
                    cx.fail("variables are stable objects", kind=kind,
                            seq=seq)
            elif op == "query":
                p = opt.extract_params()
                str(opt)
                if not isinstance(p, dict) or tuple(p["R_size"]) != size:
                    cx.fail("extract_params: size", kind=kind, got=p)
                    return False
                if kind == "spd" and (
                        p["R_epsilon"] != par or not torch.equal(
                            p["R_variables"][0], opt.variables()[0])):
                    cx.fail("extract_params: SPD parameters", got=p)
                    return False
                if kind == "svd":
                    s = np.zeros((m, n))
                    v = opt.variables()[0].detach().numpy()
                    s[:k, :k] = np.diag(p["R_a"] + v**2)
                    if not close(p["R_U"] @ s @ p["R_V"], val(opt)):
                        cx.fail("extract_params: SVD factors give R",
                                seq=seq)
                        return False
            R = val(opt)
            if want is None:
                want = R.copy()
                if op in ("direct", "step"):
                    # the value is a function of the variables only
                    v = opt.variables()[0].detach().numpy().copy()
                    twin = copy.deepcopy(opt)
                    twin.set_variable_value_directly(v)
                    if not close(val(twin), want, 1e-12):
                        cx.fail("R is a function of the variables",
                                kind=kind, seq=seq)
                        return False
            if not close(R, want, 1e-7):
                cx.fail("R after a history", kind=kind, size=list(size),
                        seq=seq, got=R, want=want)
                return False
            if not structure(cx, kind, size, par, R, dict(kind=kind,
                                                          seq=seq)):
                return False
        cx.outcome(kind, np.round(R, 4))
        return True

    for rest in itertools.product(OPS, repeat=depth - 1):
        if cx.out_of_time():
            return
        cx.states()
        if not run((OPS[first], ) + rest):
            return
        cx.traces()
    cx.sample(kind=kind, size=size, seq=(OPS[first], ) + rest)


def fixed(cx, task):
    for R in ([[1., 2.], [3., 5.]], [[2.]], [[1., 0.], [0., 1.], [3., 4.]]):
        cx.states()
        cx.trans()
        cx.traces()
        t = torch.tensor(R, dtype=torch.float64)
        o = r_options.FixedROptions(t.clone())
        if not torch.equal(o.R(), t) or o.variables() != [] or \
                o.fixed_R is not True or o.R().requires_grad:
            cx.fail("fixed R", R=R)
        if not isinstance(o.extract_params(), dict):
            cx.fail("fixed R: extract_params", R=R)
        str(o)
        cx.outcome("fixed", R)
    # wrong sizes are refused
    for f in (lambda: r_options.SearchRwithSPDOptions((2, 3), .1),
              lambda: r_options.SearchRwithSPDOptions((2, 2), 0.),
              lambda: r_options.SearchRwithSVDOptions(
                  (2, 2), np.array([1., 0.])),
              lambda: r_options.SearchRwithSVDOptions(
                  (2, 3), np.array([1., 1., 1.]))):
        cx.trans()
        try:
            f()
            cx.fail("an impossible parameterisation is refused")
        except Exception:
            pass


def work(cx, task):
    {"grid": grid, "hist": hist, "fixed": fixed}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C21", tasks, work,
            rule="every class x size x assignment of the variables from the "
            "alphabet; every history of operations up to the depth; states = "
            "assignments or histories, transitions = calls compared with the "
            "numpy reference",
            assumptions=["matrices on the very edge of a parameterisation "
                         "are not required to be accepted"])
