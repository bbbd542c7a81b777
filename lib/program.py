"""
Explicit-state view of a program that the code under test has built in the
solver interface: every row, bound and variable type is read back through the
public interface, some variables are fixed, and every 0/1 assignment of the
binaries that is feasible is visited (depth first; a branch is cut only when
its linear relaxation is empty).
"""
import numpy as np

import gurobipy
from mc import EngineProblem
from mip import LP

GRB = gurobipy.GRB
INF = np.inf


class Program:
    def __init__(self, model, tol=1e-9, loosen=1e-9):
        model.update()
        self.model = model
        self.vars = model.getVars()
        self.index = {v: i for i, v in enumerate(self.vars)}
        n = len(self.vars)
        self.lb = np.array([v.LB for v in self.vars], dtype=float)
        self.ub = np.array([v.UB for v in self.vars], dtype=float)
        self.lb[self.lb <= -1e20] = -INF
        self.ub[self.ub >= 1e20] = INF
        self.bin = [i for i, v in enumerate(self.vars) if v.VType in (
            GRB.BINARY, GRB.INTEGER)]
        self.continuous = [i for i in range(n) if i not in set(self.bin)]
        A, b, E, e = [], [], [], []
        for c in model.getConstrs():
            row = np.zeros(n)
            expr = model.getRow(c)
            for k in range(expr.size()):
                row[self.index[expr.getVar(k)]] += expr.getCoeff(k)
            rhs = c.RHS - expr.getConstant()
            if c.Sense == "<":
                A.append(row)
                b.append(rhs)
            elif c.Sense == ">":
                A.append(-row)
                b.append(-rhs)
            else:
                E.append(row)
                e.append(rhs)
        self.A = np.array(A).reshape((len(A), n))
        self.b = np.array(b, dtype=float)
        self.E = np.array(E).reshape((len(E), n))
        self.e = np.array(e, dtype=float)
        self.n = n
        self.lp = LP(n, self.A, self.E, self._cap(self.lb), self._cap(self.ub),
                     tol) if n else None
        self.loose = self.b + loosen
        self.solves = 0

    @staticmethod
    def _cap(a):
        import highspy
        return np.clip(a, -highspy.kHighsInf, highspy.kHighsInf)

    def _bounds(self, lo, up):
        self.lp.h.changeColsBounds(self.n, self.lp.cols, self._cap(lo),
                                   self._cap(up))

    def _solve(self, c):
        self.solves += 1
        return self.lp.solve(c, self.loose, self.e)

    def start(self, fixed, within=1e-7):
        """ bounds with some variables fixed; None when outside of theirs """
        lo, up = self.lb.copy(), self.ub.copy()
        for v, val in fixed.items():
            i = self.index[v] if not isinstance(v, int) else v
            val = float(val)
            if val < lo[i] - within or val > up[i] + within:
                return None
            lo[i] = up[i] = val
        return lo, up

    def leaves(self, fixed, relax=False):
        """ yields (binaries, lo, up) for every feasible assignment of the
        binaries (or, relaxed, once if the relaxation is feasible) """
        s = self.start(fixed)
        if s is None:
            return
        zero = np.zeros(self.n)
        todo = [] if relax else self.bin
        stack = [(0, s[0], s[1])]
        while stack:
            k, lo, up = stack.pop()
            self._bounds(lo, up)
            st, _, _ = self._solve(zero)
            if st == "infeasible":
                continue
            while k < len(todo) and lo[todo[k]] == up[todo[k]]:
                k += 1
            if k == len(todo):
                yield tuple(lo[i] for i in self.bin), lo, up
                continue
            i = todo[k]
            for z in (1., 0.):
                if lo[i] - 1e-9 <= z <= up[i] + 1e-9:
                    l2, u2 = lo.copy(), up.copy()
                    l2[i] = u2[i] = z
                    stack.append((k + 1, l2, u2))

    def extent(self, lo, up, coeffs):
        """ range of each linear form [(coefficients over variables)] """
        self._bounds(lo, up)
        ret = []
        for c in coeffs:
            st, v, _ = self._solve(c)
            mn = v if st == "optimal" else -INF
            st, v, _ = self._solve(-c)
            mx = -v if st == "optimal" else INF
            ret.append((mn, mx))
        return ret

    def unit(self, v):
        c = np.zeros(self.n)
        c[self.index[v]] = 1.
        return c

    def form(self, terms):
        c = np.zeros(self.n)
        for v, k in terms:
            c[self.index[v]] += float(k)
        return c

    def feasible(self, fixed, relax=False):
        for _ in self.leaves(fixed, relax):
            return True
        return False

    def best(self, c, fixed=None, maximize=True, relax=False):
        """ exact optimum of c over all leaves -> (value or None, binaries) """
        sgn = -1. if maximize else 1.
        best, arg = None, None
        for z, lo, up in self.leaves(fixed or {}, relax):
            self._bounds(lo, up)
            st, v, _ = self._solve(sgn * c)
            if st == "unbounded":
                return (INF if maximize else -INF), z
            if st != "optimal":
                raise EngineProblem(f"leaf status {st}")
            v = sgn * v
            if best is None or (v > best) == maximize and v != best:
                best, arg = v, z
        return best, arg
