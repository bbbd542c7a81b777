"""
Explicit-state view of a mixed-integer encoding: fix the input, enumerate every
0/1 assignment of the binaries, and look at the polytope that is left.
"""
import itertools

import numpy as np
import highspy

from mc import EngineProblem

_INF = highspy.kHighsInf


def np_(t):
    return None if t is None else t.detach().cpu().numpy().astype(float)


class LP:
    """ min c.y  s.t.  A y <= b, E y = e, lb <= y <= ub; reused for many rhs /
    bounds / objectives. """
    def __init__(self, n, A, E, lb=None, ub=None, tol=1e-9):
        A = np.zeros((0, n)) if A is None else A
        E = np.zeros((0, n)) if E is None else E
        self.n, self.mi, self.me = n, A.shape[0], E.shape[0]
        M = np.vstack((A, E))
        self.M = M
        h = highspy.Highs()
        for k, v in (("output_flag", False), ("threads", 1),
                     ("presolve", "off"), ("small_matrix_value", 1e-12),
                     ("primal_feasibility_tolerance", tol),
                     ("dual_feasibility_tolerance", tol)):
            h.setOptionValue(k, v)
        lp = highspy.HighsLp()
        lp.num_col_, lp.num_row_ = n, M.shape[0]
        lp.col_cost_ = np.zeros(n)
        lp.col_lower_ = np.full(n, -_INF) if lb is None else lb
        lp.col_upper_ = np.full(n, _INF) if ub is None else ub
        lp.row_lower_ = np.full(M.shape[0], -_INF)
        lp.row_upper_ = np.full(M.shape[0], _INF)
        r, c = np.nonzero(M)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.num_col_, lp.a_matrix_.num_row_ = n, M.shape[0]
        lp.a_matrix_.start_ = np.concatenate(
            ([0], np.cumsum((M != 0).sum(axis=1)))).astype(np.int32)
        lp.a_matrix_.index_ = c.astype(np.int32)
        lp.a_matrix_.value_ = M[r, c]
        h.passModel(lp)
        self.h = h
        self.cols = np.arange(n, dtype=np.int32)
        self.rows = np.arange(M.shape[0], dtype=np.int32)

    def solve(self, c, b, e):
        """ -> (status, value, y) for min c.y """
        h = self.h
        h.changeColsCost(self.n, self.cols, np.asarray(c, dtype=float))
        b = np.zeros(0) if b is None else b
        e = np.zeros(0) if e is None else e
        lo = np.concatenate((np.full(self.mi, -_INF), e))
        up = np.concatenate((b, e))
        h.changeRowsBounds(len(self.rows), self.rows, lo, up)
        S = highspy.HighsModelStatus
        for attempt in range(3):
            h.run()
            st = h.getModelStatus()
            if st == S.kOptimal:
                return "optimal", h.getObjectiveValue(), np.array(
                    h.getSolution().col_value)
            if st == S.kInfeasible:
                return "infeasible", None, None
            if st == S.kUnbounded:
                return "unbounded", None, None
            h.clearSolver()
            if attempt == 1:
                h.setOptionValue("presolve", "on")
        h.setOptionValue("presolve", "off")
        if st == S.kUnboundedOrInfeasible:
            return "unbounded", None, None
        if st == S.kModelEmpty:
            return "optimal", 0., np.zeros(self.n)
        raise EngineProblem(f"LP status {st}")


class Encoding:
    """
    A MixedIntegerConstraintsReturn, used as a black box: for a given input x
    and binary assignment, the slack is constrained by linear (in)equalities.
    """
    def __init__(self, ret, num_input=None):
        g = {k: np_(getattr(ret, k)) for k in (
            "Aout_input", "Aout_slack", "Aout_binary", "Cout", "Ain_input",
            "Ain_slack", "Ain_binary", "rhs_in", "Aeq_input", "Aeq_slack",
            "Aeq_binary", "rhs_eq", "input_lo", "input_up", "slack_lo",
            "slack_up", "binary_lo", "binary_up")}
        for k in ("rhs_in", "rhs_eq", "Cout"):
            if g[k] is not None:
                g[k] = g[k].reshape(-1)
        self.g = g
        self.ni = num_input if num_input is not None else self._dim("input")
        self.ns = self._dim("slack")
        self.nb = self._dim("binary")
        self.mi = 0 if g["rhs_in"] is None else len(g["rhs_in"])
        self.me = 0 if g["rhs_eq"] is None else len(g["rhs_eq"])
        self.no = 0
        for k in ("Aout_input", "Aout_slack", "Aout_binary", "Cout"):
            if g[k] is not None:
                self.no = g[k].shape[0]

    def _dim(self, what):
        for k in ("Ain_", "Aeq_", "Aout_"):
            m = self.g[k + what]
            if m is not None:
                return m.shape[1]
        for k in ("_lo", "_up"):
            m = self.g[what + k]
            if m is not None:
                return m.shape[0]
        return 0

    def mat(self, kind, what, rows, cols):
        m = self.g[f"{kind}_{what}"]
        return np.zeros((rows, cols)) if m is None else m

    def binaries(self):
        lo = self.g["binary_lo"]
        up = self.g["binary_up"]
        for z in itertools.product((0., 1.), repeat=self.nb):
            z = np.array(z)
            if lo is not None and np.any(z < lo):
                continue
            if up is not None and np.any(z > up):
                continue
            yield z

    def prepare(self):
        """ LP over the slack, with one extra scalar objective. """
        g = self.g
        lb = np.full(self.ns, -_INF)
        ub = np.full(self.ns, _INF)
        if g["slack_lo"] is not None:
            lb = np.maximum(g["slack_lo"], -_INF)
        if g["slack_up"] is not None:
            ub = np.minimum(g["slack_up"], _INF)
        self.lp = LP(self.ns, self.mat("Ain", "slack", self.mi, self.ns),
                     self.mat("Aeq", "slack", self.me, self.ns), lb, ub) \
            if self.ns else None

    def residual(self, x, z):
        g = self.g
        b = e = None
        if self.mi:
            b = g["rhs_in"] - self.mat("Ain", "input", self.mi, self.ni) @ x -\
                self.mat("Ain", "binary", self.mi, self.nb) @ z
        if self.me:
            e = g["rhs_eq"] - self.mat("Aeq", "input", self.me, self.ni) @ x -\
                self.mat("Aeq", "binary", self.me, self.nb) @ z
        return b, e

    def input_ok(self, x, tol=1e-9):
        lo, up = self.g["input_lo"], self.g["input_up"]
        return (lo is None or np.all(x >= lo - tol)) and (
            up is None or np.all(x <= up + tol))

    def at(self, x, z, tol=1e-7):
        """
        For this input and binary assignment: None if infeasible, else
        (out_lo, out_up, slack_lo, slack_up) ranges of outputs and slacks.
        Slack rows are loosened by tol/100 so that rounding in the encoding
        cannot make a razor-thin feasible set empty.
        """
        if not self.input_ok(x):
            return None
        b, e = self.residual(x, z)
        base = np.zeros(self.no)
        g = self.g
        if self.no:
            base = base + self.mat("Aout", "input", self.no, self.ni) @ x + \
                self.mat("Aout", "binary", self.no, self.nb) @ z
            if g["Cout"] is not None:
                base = base + g["Cout"]
        if self.ns == 0:
            if b is not None and np.any(b < -tol):
                return None
            if e is not None and np.any(np.abs(e) > tol):
                return None
            return base, base, np.zeros(0), np.zeros(0)
        if not hasattr(self, "lp"):
            self.prepare()
        bb = None if b is None else b + tol / 100
        st, _, _ = self.lp.solve(np.zeros(self.ns), bb, e)
        if st == "infeasible":
            return None
        Aout = self.mat("Aout", "slack", self.no, self.ns)
        rows = [Aout[i] for i in range(self.no)] + [
            np.eye(self.ns)[i] for i in range(self.ns)
        ]
        lo, up = [], []
        for c in rows:
            st, v, _ = self.lp.solve(c, bb, e)
            lo.append(v if st == "optimal" else -np.inf)
            st, v, _ = self.lp.solve(-c, bb, e)
            up.append(-v if st == "optimal" else np.inf)
        lo, up = np.array(lo), np.array(up)
        return base + lo[:self.no], base + up[:self.no], lo[self.no:], \
            up[self.no:]
