"""
Stand-in for `gurobipy` (which is not installed here): an EXPLICIT-ENUMERATION
mixed-integer engine.

The engine decides a MIP by depth-first enumeration of every assignment of the
integer variables.  A subtree is cut only when its continuous relaxation is
infeasible (or, when no pool is asked for, cannot beat the incumbent); every
surviving leaf (all integer variables fixed at exact integers) is a linear (or
convex quadratic) program that is solved by simplex (HiGHS, tolerance 1e-9).
There are no cuts, no presolve, no heuristics and no integrality tolerance.

It implements the part of the gurobipy API that is needed to run
neural_network_lyapunov, plus enough of the neighbouring API (addVar, addMVar,
quicksum, addConstrs, ...) that a behaviour-preserving rewrite of the library
keeps running.  Attribute writes are lazy, as in gurobipy: they take effect at
update() / optimize().

`STATS` counts what was enumerated (nodes, leaves, solves).
"""
import itertools
import math
import numbers

import numpy as np
import highspy


class GurobiError(Exception):
    def __init__(self, message="", errno=None):
        super().__init__(message)
        self.message = message
        self.errno = errno


STATS = {"models": 0, "solves": 0, "nodes": 0, "leaves": 0}
# A list of environment answers (status codes) the checks may inject: see
# Model.optimize.
INJECT = []


class _Names:
    """ Param / Attr namespaces: every name maps to itself. """
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return name


class _Status:
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    CUTOFF = 6
    ITERATION_LIMIT = 7
    NODE_LIMIT = 8
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    INTERRUPTED = 11
    NUMERIC = 12
    SUBOPTIMAL = 13
    INPROGRESS = 14
    USER_OBJ_LIMIT = 15
    WORK_LIMIT = 16
    MEM_LIMIT = 17


class _Callback:
    POLLING = 0
    PRESOLVE = 1
    SIMPLEX = 2
    MIP = 3
    MIPSOL = 4
    MIPNODE = 5
    MESSAGE = 6
    BARRIER = 7
    MIP_OBJBST = 3000
    MIP_OBJBND = 3001
    MIP_NODCNT = 3002
    MIP_SOLCNT = 3003
    MIPSOL_SOL = 4001
    MIPSOL_OBJ = 4002
    MIPSOL_OBJBST = 4003
    MIPSOL_OBJBND = 4004
    MIPSOL_NODCNT = 4005
    MIPSOL_SOLCNT = 4006
    MIPNODE_STATUS = 5001
    MIPNODE_REL = 5002
    MIPNODE_OBJBST = 5003
    MIPNODE_OBJBND = 5004
    MIPNODE_NODCNT = 5005
    MIPNODE_SOLCNT = 5006
    RUNTIME = 6001


class GRB:
    INFINITY = 1e100
    MAXINT = 2000000000
    CONTINUOUS = 'C'
    BINARY = 'B'
    INTEGER = 'I'
    SEMICONT = 'S'
    SEMIINT = 'N'
    LESS_EQUAL = '<'
    GREATER_EQUAL = '>'
    EQUAL = '='
    MINIMIZE = 1
    MAXIMIZE = -1
    UNDEFINED = 1e101
    Param = _Names()
    param = Param
    Attr = _Names()
    attr = Attr
    Status = _Status
    status = _Status
    Callback = _Callback
    callback = _Callback
    LOADED = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    CUTOFF = 6
    ITERATION_LIMIT = 7
    NODE_LIMIT = 8
    TIME_LIMIT = 9
    SOLUTION_LIMIT = 10
    INTERRUPTED = 11
    NUMERIC = 12
    SUBOPTIMAL = 13


# [type, current default, min, max]
_PARAM_DEFAULT = {
    "outputflag": (int, 1, 0, 1),
    "logtoconsole": (int, 1, 0, 1),
    "dualreductions": (int, 1, 0, 1),
    "solutionlimit": (int, 2000000000, 1, 2000000000),
    "solutionnumber": (int, 0, 0, 2000000000),
    "poolsolutions": (int, 10, 1, 2000000000),
    "poolsearchmode": (int, 0, 0, 2),
    "poolgap": (float, 1e100, 0., 1e100),
    "timelimit": (float, 1e100, 0., 1e100),
    "threads": (int, 0, 0, 1024),
    "presolve": (int, -1, -1, 2),
    "mipfocus": (int, 0, 0, 3),
    "mipgap": (float, 1e-4, 0., 1e100),
    "mipgapabs": (float, 1e-10, 0., 1e100),
    "feasibilitytol": (float, 1e-6, 1e-9, 1e-2),
    "optimalitytol": (float, 1e-6, 1e-9, 1e-2),
    "intfeastol": (float, 1e-5, 1e-9, 1e-1),
    "nonconvex": (int, -1, -1, 2),
    "method": (int, -1, -1, 5),
    "seed": (int, 0, 0, 2000000000),
    "cuts": (int, -1, -1, 3),
    "heuristics": (float, 0.05, 0., 1.),
    "objscale": (float, 0., -1., 1e100),
    "scaleflag": (int, -1, -1, 3),
    "numericfocus": (int, 0, 0, 3),
    "bestobjstop": (float, -1e100, -1e100, 1e100),
    "bestbdstop": (float, 1e100, -1e100, 1e100),
    "cutoff": (float, 1e100, -1e100, 1e100),
    "infunbdinfo": (int, 0, 0, 1),
    "symmetry": (int, -1, -1, 2),
    "nodelimit": (float, 1e100, 0., 1e100),
    "iterationlimit": (float, 1e100, 0., 1e100),
    "logfile": (str, "", "", ""),
}


def _to_float(v, what="coefficient"):
    """ scalar (python, numpy, 0-d / 1-element torch tensor) -> float. """
    if isinstance(v, float) or isinstance(v, int):
        f = float(v)
    elif hasattr(v, "detach"):
        f = float(v.detach().reshape(-1)[0]) if v.numel() == 1 else None
    elif isinstance(v, np.ndarray):
        f = float(v.reshape(-1)[0]) if v.size == 1 else None
    elif isinstance(v, numbers.Number) or isinstance(v, np.generic):
        f = float(v)
    else:
        f = None
    if f is None:
        raise GurobiError(f"cannot use {type(v)} as a {what}")
    if math.isnan(f):
        raise GurobiError(f"{what} is NaN")
    return f


def _to_array(v):
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    if hasattr(v, "toarray"):
        v = v.toarray()
    return np.asarray(v, dtype=float)


def _is_scalar(v):
    if isinstance(v, (numbers.Number, np.generic)):
        return True
    if hasattr(v, "numel"):
        return v.numel() == 1
    if isinstance(v, np.ndarray):
        return v.size == 1
    return False


class TempConstr:
    def __init__(self, lhs, sense, rhs):
        self._lhs = lhs
        self._sense = sense
        self._rhs = rhs

    def __bool__(self):
        raise GurobiError("Constraint has no bool value (are you trying "
                          "\"lb <= expr <= ub\"?)")


class _Expr:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __le__(self, o):
        return TempConstr(self, GRB.LESS_EQUAL, o)

    def __ge__(self, o):
        return TempConstr(self, GRB.GREATER_EQUAL, o)

    def __radd__(self, o):
        return self + o

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        if isinstance(o, _Expr):
            return self + o * -1.
        return self + (-_to_float(o))

    def __rsub__(self, o):
        return (self * -1.) + o

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return self * (1. / _to_float(o))

    def __pos__(self):
        return self * 1.


class Var(_Expr):
    """ One variable. Hash is identity based, as for gurobipy.Var. """
    def __init__(self, model, lb, ub, obj, vtype, name):
        object.__setattr__(self, "_model", model)
        object.__setattr__(
            self, "_pending",
            dict(lb=lb, ub=ub, obj=obj, vtype=vtype, varname=name,
                 start=GRB.UNDEFINED))
        object.__setattr__(self, "_data", None)
        object.__setattr__(self, "_removed", False)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        # gurobipy: `var == var` between two Var objects builds a constraint;
        # dictionary lookups first compare identity.
        if o is self:
            return TempConstr(self, GRB.EQUAL, o)
        if isinstance(o, (_Expr, numbers.Number, np.generic)) or _is_scalar(o):
            return TempConstr(self, GRB.EQUAL, o)
        return NotImplemented

    def sameAs(self, o):
        return o is self

    def __getattr__(self, name):
        key = name.lower()
        if name.startswith("__"):
            raise AttributeError(name)
        if self._data is None:
            raise AttributeError(
                f"Unable to retrieve attribute '{name}' (variable is not yet "
                "part of the model: call update())")
        if key in self._data:
            return self._data[key]
        if key == "index":
            return self._model._vars.index(self)
        if key == "x":
            return self._model._solution_value(self, 0)
        if key == "xn":
            return self._model._solution_value(
                self, self._model._param("solutionnumber"))
        raise AttributeError(f"Unable to retrieve attribute '{name}'")

    def __setattr__(self, name, value):
        key = name.lower()
        if key in ("lb", "ub", "obj", "start"):
            self._pending[key] = _to_float(value, name)
        elif key in ("vtype", "varname"):
            self._pending[key] = value
        elif key.startswith("_"):
            object.__setattr__(self, name, value)
        else:
            raise AttributeError(f"Attribute '{name}' cannot be set")

    def getAttr(self, name):
        return getattr(self, name)

    def setAttr(self, name, value):
        setattr(self, name, value)

    def _flush(self):
        if self._data is None:
            object.__setattr__(self, "_data", {})
        self._data.update(self._pending)
        self._pending.clear()
        # gurobipy reports infinite bounds as +-inf
        if self._data["lb"] <= -GRB.INFINITY:
            self._data["lb"] = -math.inf
        if self._data["ub"] >= GRB.INFINITY:
            self._data["ub"] = math.inf

    def __add__(self, o):
        return LinExpr(1., self) + o

    def __mul__(self, o):
        return LinExpr(1., self) * o

    def __pow__(self, p):
        assert p == 2
        return self * self

    def __repr__(self):
        if self._data is None:
            return "<gurobi.Var *Awaiting Model Update*>"
        return f"<gurobi.Var {self._data['varname']}>"


class LinExpr(_Expr):
    __hash__ = object.__hash__

    def __init__(self, arg1=0.0, arg2=None):
        self._terms = []  # list of (coeff, Var); duplicates are summed later
        self._const = 0.
        if arg2 is None:
            if isinstance(arg1, Var):
                self._terms.append((1., arg1))
            elif isinstance(arg1, LinExpr):
                self._terms = list(arg1._terms)
                self._const = arg1._const
            elif isinstance(arg1, (list, tuple)):
                for c, v in arg1:
                    self._terms.append((_to_float(c), v))
            else:
                self._const = _to_float(arg1)
        elif isinstance(arg2, Var):
            self._terms.append((_to_float(arg1), arg2))
        else:
            coeffs = list(arg1)
            variables = list(arg2)
            if len(coeffs) != len(variables):
                raise GurobiError("LinExpr: list lengths differ")
            for c, v in zip(coeffs, variables):
                if not isinstance(v, Var):
                    raise GurobiError(f"LinExpr: {v!r} is not a Var")
                self._terms.append((_to_float(c), v))

    def copy(self):
        return LinExpr(self)

    def __eq__(self, o):
        return TempConstr(self, GRB.EQUAL, o)

    def __add__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        ret = LinExpr(self)
        ret.add(o)
        return ret

    def __iadd__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        ret = LinExpr(self)
        ret.add(o)
        return ret

    def add(self, o, mult=1.0):
        mult = _to_float(mult)
        if isinstance(o, Var):
            self._terms.append((mult, o))
        elif isinstance(o, LinExpr):
            self._terms.extend((mult * c, v) for c, v in list(o._terms))
            self._const += mult * o._const
        else:
            self._const += mult * _to_float(o)

    def addConstant(self, c):
        self._const += _to_float(c)

    def addTerms(self, coeffs, variables):
        if isinstance(variables, Var):
            self._terms.append((_to_float(coeffs), variables))
            return
        for c, v in zip(coeffs, variables):
            self._terms.append((_to_float(c), v))

    def __mul__(self, o):
        if isinstance(o, (Var, LinExpr)):
            o = LinExpr(o)
            q = QuadExpr()
            for c1, v1 in self._terms:
                for c2, v2 in o._terms:
                    q._qterms.append((c1 * c2, v1, v2))
            for c1, v1 in self._terms:
                if o._const:
                    q._lin._terms.append((c1 * o._const, v1))
            for c2, v2 in o._terms:
                if self._const:
                    q._lin._terms.append((c2 * self._const, v2))
            q._lin._const = self._const * o._const
            return q
        f = _to_float(o)
        ret = LinExpr()
        ret._terms = [(f * c, v) for c, v in self._terms]
        ret._const = f * self._const
        return ret

    def __pow__(self, p):
        assert p == 2
        return self * self

    def size(self):
        return len(self._terms)

    def getVar(self, i):
        return self._terms[i][1]

    def getCoeff(self, i):
        return self._terms[i][0]

    def getConstant(self):
        return self._const

    def getValue(self):
        return self._const + sum(c * v.x for c, v in self._terms)

    def clear(self):
        self._terms = []
        self._const = 0.


class QuadExpr(_Expr):
    __hash__ = object.__hash__

    def __init__(self, expr=None):
        self._qterms = []
        self._lin = LinExpr()
        if isinstance(expr, QuadExpr):
            self._qterms = list(expr._qterms)
            self._lin = LinExpr(expr._lin)
        elif expr is not None:
            self._lin = LinExpr(expr)

    def copy(self):
        return QuadExpr(self)

    def __eq__(self, o):
        return TempConstr(self, GRB.EQUAL, o)

    def add(self, o, mult=1.0):
        mult = _to_float(mult)
        if isinstance(o, QuadExpr):
            self._qterms.extend((mult * c, a, b) for c, a, b in o._qterms)
            self._lin.add(o._lin, mult)
        else:
            self._lin.add(o, mult)

    def addConstant(self, c):
        self._lin.addConstant(c)

    def addTerms(self, coeffs, v1, v2=None):
        if v2 is None:
            self._lin.addTerms(coeffs, v1)
        elif isinstance(v1, Var):
            self._qterms.append((_to_float(coeffs), v1, v2))
        else:
            for c, a, b in zip(coeffs, v1, v2):
                self._qterms.append((_to_float(c), a, b))

    def __add__(self, o):
        ret = QuadExpr(self)
        ret.add(o)
        return ret

    def __iadd__(self, o):
        ret = QuadExpr(self)
        ret.add(o)
        return ret

    def __mul__(self, o):
        f = _to_float(o)
        ret = QuadExpr()
        ret.add(self, f)
        return ret

    def size(self):
        return len(self._qterms)

    def getLinExpr(self):
        return self._lin

    def getVar1(self, i):
        return self._qterms[i][1]

    def getVar2(self, i):
        return self._qterms[i][2]

    def getCoeff(self, i):
        return self._qterms[i][0]

    def getValue(self):
        return self._lin.getValue() + sum(c * a.x * b.x
                                          for c, a, b in self._qterms)


def quicksum(items):
    ret = LinExpr()
    for i in items:
        ret = ret + i
    return ret


class tupledict(dict):
    def select(self, *args):
        return list(self.values())

    def sum(self, *args):
        return quicksum(self.values())

    def prod(self, coeff, *args):
        return quicksum(coeff[k] * v for k, v in self.items())


class Constr:
    def __init__(self, model, terms, sense, rhs, name):
        self._model = model
        self._terms = terms  # dict Var -> coeff
        self._sense = sense
        self._rhs = rhs
        self._name = name

    def __getattr__(self, name):
        key = name.lower()
        if key == "sense":
            return self._sense
        if key == "rhs":
            return self._rhs
        if key == "constrname":
            return self._name
        if key == "slack":
            lhs = sum(c * v.x for v, c in self._terms.items())
            return self._rhs - lhs
        raise AttributeError(f"Unable to retrieve attribute '{name}'")

    def __setattr__(self, name, value):
        key = name.lower()
        if key == "rhs":
            self.__dict__["_rhs"] = _to_float(value)
        elif key == "constrname":
            self.__dict__["_name"] = value
        elif key == "sense":
            self.__dict__["_sense"] = value
        else:
            self.__dict__[name] = value

    def getAttr(self, name):
        return getattr(self, name)


class MConstr(list):
    def tolist(self):
        return list(self)


class MVar(list):
    def tolist(self):
        return list(self)

    @property
    def x(self):
        return np.array([v.x for v in self])

    X = x


def _norm_sense(sense):
    s = str(sense)[0]
    if s not in ("<", ">", "="):
        raise GurobiError(f"bad sense {sense!r}")
    return s


class Model:
    def __init__(self, name="", env=None):
        d = self.__dict__
        d["_name"] = name
        d["_vars"] = []
        d["_pending_vars"] = []
        d["_pending_removed_vars"] = []
        d["_constrs"] = []
        d["_pending_constrs"] = []
        d["_pending_removed"] = []
        d["_obj"] = LinExpr()
        d["_pending_obj"] = None
        d["_sense"] = GRB.MINIMIZE
        d["_pending_sense"] = None
        d["_params"] = {k: v[1] for k, v in _PARAM_DEFAULT.items()}
        d["_status"] = GRB.LOADED
        d["_pool"] = []  # list of (objective, {Var: value})
        d["_objbound"] = None
        d["_objective_has_value"] = False
        d["_where"] = None
        d["_terminate"] = False
        d["Params"] = _ParamProxy(self)
        d["params"] = d["Params"]
        STATS["models"] += 1

    # ---- variables ----
    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype=GRB.CONTINUOUS,
               name="", column=None):
        lb = _to_float(lb, "lower bound")
        ub = _to_float(ub, "upper bound")
        if vtype not in ("C", "B", "I"):
            raise GurobiError(f"unsupported vtype {vtype!r}")
        if vtype == GRB.BINARY:
            lb = max(lb, 0.)
            ub = min(ub, 1.)
        if name == "":
            name = f"C{len(self._vars) + len(self._pending_vars)}"
        v = Var(self, lb, ub, _to_float(obj), vtype, name)
        self._pending_vars.append(v)
        return v

    def addVars(self, *indices, lb=0., ub=GRB.INFINITY, obj=0.,
                vtype=GRB.CONTINUOUS, name=""):
        keys = []
        for ix in indices:
            if isinstance(ix, (int, np.integer)):
                keys.append(list(range(int(ix))))
            else:
                keys.append(list(ix))
        flat = keys[0] if len(keys) == 1 else list(itertools.product(*keys))

        def pick(val, n, key):
            if isinstance(val, dict):
                return val[key]
            if isinstance(val, str) or _is_scalar(val) and not isinstance(
                    val, (list, tuple)):
                return val
            if hasattr(val, "__getitem__"):
                return val[n]
            return val

        ret = tupledict()
        for n, key in enumerate(flat):
            nm = name
            if isinstance(name, str):
                if name != "":
                    k = ",".join(str(i) for i in key) if isinstance(
                        key, tuple) else str(key)
                    nm = f"{name}[{k}]"
            else:
                nm = name[n]
            ret[key] = self.addVar(lb=pick(lb, n, key),
                                   ub=pick(ub, n, key),
                                   obj=pick(obj, n, key),
                                   vtype=pick(vtype, n, key),
                                   name=nm)
        return ret

    def addMVar(self, shape, lb=0., ub=GRB.INFINITY, obj=0.,
                vtype=GRB.CONTINUOUS, name=""):
        n = int(np.prod(shape))
        d = self.addVars(n, lb=lb, ub=ub, obj=obj, vtype=vtype, name=name)
        return MVar(d[i] for i in range(n))

    # ---- constraints ----
    def _check_vars(self, variables):
        for v in variables:
            if not isinstance(v, Var):
                raise GurobiError(f"{v!r} is not a Var")
            if v._model is not self or v._removed:
                raise GurobiError("Variable not in model")

    def _new_constr(self, expr, sense, rhs, name):
        if isinstance(expr, QuadExpr):
            raise GurobiError("quadratic constraints are not supported")
        terms = {}
        const = 0.
        if isinstance(expr, (Var, LinExpr)):
            e = LinExpr(expr)
            self._check_vars([v for _, v in e._terms])
            for c, v in e._terms:
                terms[v] = terms.get(v, 0.) + c
            const = e._const
        else:
            const = _to_float(expr)
        for c in terms.values():
            if math.isinf(c):
                raise GurobiError("infinite coefficient")
        constr = Constr(self, terms, _norm_sense(sense), rhs - const, name)
        self._pending_constrs.append(constr)
        return constr

    def addLConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, TempConstr):
            if isinstance(sense, str) and rhs is None:
                name = sense
            diff = LinExpr(0.) + lhs._lhs
            diff = diff - lhs._rhs
            return self._new_constr(diff, lhs._sense, 0., name)
        if isinstance(rhs, _Expr):
            return self._new_constr((LinExpr(0.) + lhs) - rhs, sense, 0.,
                                    name)
        return self._new_constr(lhs, sense, _to_float(rhs, "rhs"), name)

    def addConstr(self, constr, sense=None, rhs=None, name=""):
        if not isinstance(constr, TempConstr) and sense is None:
            raise GurobiError("addConstr needs a constraint")
        return self.addLConstr(constr, sense, rhs, name)

    def addConstrs(self, gen, name=""):
        ret = tupledict()
        for i, c in enumerate(gen):
            ret[i] = self.addConstr(c, name=f"{name}[{i}]" if name else "")
        return ret

    def addRange(self, expr, lower, upper, name=""):
        self.addLConstr(expr, GRB.GREATER_EQUAL, lower, name)
        return self.addLConstr(expr, GRB.LESS_EQUAL, upper, name)

    def addMConstr(self, A, x, sense, b, name=""):
        A = _to_array(A)
        b = _to_array(b).reshape(-1)
        if A.ndim != 2:
            raise GurobiError("addMConstr: A must be 2-dimensional")
        x = self.getVars() if x is None else list(x)
        if A.shape != (b.shape[0], len(x)):
            raise GurobiError(
                f"addMConstr: A has shape {A.shape}, x has {len(x)} entries, "
                f"b has {b.shape[0]}")
        if np.isnan(A).any() or np.isnan(b).any():
            raise GurobiError("addMConstr: NaN coefficient")
        if np.isinf(A).any():
            raise GurobiError("addMConstr: infinite coefficient")
        self._check_vars(x)
        senses = list(sense) if not isinstance(sense, str) or len(
            sense) == b.shape[0] > 1 else [sense] * b.shape[0]
        ret = MConstr()
        for i in range(b.shape[0]):
            terms = {}
            for j in range(len(x)):
                if A[i, j] != 0.:
                    terms[x[j]] = terms.get(x[j], 0.) + A[i, j]
            c = Constr(self, terms, _norm_sense(senses[i]), float(b[i]),
                       f"{name}[{i}]" if name else "")
            self._pending_constrs.append(c)
            ret.append(c)
        return ret

    addMConstrs = addMConstr

    def remove(self, item):
        if isinstance(item, (Constr, )):
            if item not in self._constrs and \
                    item not in self._pending_constrs:
                raise GurobiError("Constraint not in model")
            self._pending_removed.append(item)
        elif isinstance(item, Var):
            self._pending_removed_vars.append(item)
        elif isinstance(item, dict):
            for i in item.values():
                self.remove(i)
        else:
            for i in item:
                self.remove(i)

    # ---- objective ----
    def setObjective(self, expr, sense=None):
        if isinstance(expr, QuadExpr):
            e = QuadExpr(expr)
            self._check_vars([v for _, v in e._lin._terms])
            self._check_vars([v for _, v, _ in e._qterms])
            self._check_vars([v for _, _, v in e._qterms])
        else:
            e = LinExpr(expr)
            self._check_vars([v for _, v in e._terms])
        self.__dict__["_pending_obj"] = e
        if sense is not None:
            self.__dict__["_pending_sense"] = sense

    def setMObjective(self, Q, c, constant, xQ_L=None, xQ_R=None, xc=None,
                      sense=None):
        e = QuadExpr()
        if Q is not None:
            Q = _to_array(Q)
            xl = list(xQ_L) if xQ_L is not None else self.getVars()
            xr = list(xQ_R) if xQ_R is not None else xl
            for i in range(Q.shape[0]):
                for j in range(Q.shape[1]):
                    if Q[i, j] != 0:
                        e._qterms.append((Q[i, j], xl[i], xr[j]))
        if c is not None:
            c = _to_array(c).reshape(-1)
            xx = list(xc) if xc is not None else self.getVars()
            e._lin.addTerms(c, xx)
        e._lin.addConstant(constant)
        self.setObjective(e if e._qterms else e._lin, sense)

    def getObjective(self, index=None):
        if isinstance(self._obj, QuadExpr):
            return QuadExpr(self._obj)
        return LinExpr(self._obj)

    # ---- bookkeeping ----
    def update(self):
        d = self.__dict__
        for v in self._pending_vars:
            v._flush()
            self._vars.append(v)
        d["_pending_vars"] = []
        changed = False
        for v in self._vars:
            if v._pending:
                changed = True
                v._flush()
        if self._pending_constrs or self._pending_removed or \
                self._pending_obj is not None:
            changed = True
        self._constrs.extend(self._pending_constrs)
        d["_pending_constrs"] = []
        for c in self._pending_removed:
            self._constrs.remove(c)
        d["_pending_removed"] = []
        for v in self._pending_removed_vars:
            self._vars.remove(v)
            object.__setattr__(v, "_removed", True)
            for c in self._constrs:
                c._terms.pop(v, None)
        d["_pending_removed_vars"] = []
        if self._pending_obj is not None:
            d["_obj"] = self._pending_obj
            d["_pending_obj"] = None
        if self._pending_sense is not None:
            d["_sense"] = self._pending_sense
            d["_pending_sense"] = None
        if changed:
            # gurobipy discards the solution information when the model is
            # modified.
            d["_pool"] = []
            d["_status"] = GRB.LOADED

    def reset(self, clearall=0):
        self.__dict__["_pool"] = []
        self.__dict__["_status"] = GRB.LOADED

    def dispose(self):
        pass

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._constrs)

    def getVarByName(self, name):
        for v in self._vars:
            if v.VarName == name:
                return v
        return None

    def getConstrByName(self, name):
        for c in self._constrs:
            if c._name == name:
                return c
        return None

    def getRow(self, constr):
        return LinExpr([(c, v) for v, c in constr._terms.items()])

    def getCoeff(self, constr, var):
        return constr._terms.get(var, 0.)

    def chgCoeff(self, constr, var, value):
        constr._terms[var] = _to_float(value)

    # ---- parameters ----
    def _param_key(self, name):
        key = str(name).lower()
        if key not in _PARAM_DEFAULT:
            raise GurobiError(f"Unknown parameter '{name}'")
        return key

    def _param(self, name):
        return self._params[self._param_key(name)]

    def setParam(self, name, value):
        key = self._param_key(name)
        typ, default, lo, up = _PARAM_DEFAULT[key]
        if isinstance(value, str) and value.lower() == "default":
            value = default
        if typ is int:
            value = int(value)
        elif typ is float:
            value = float(value)
        if typ is not str and not (lo <= value <= up):
            raise GurobiError(f"parameter {name}={value} out of range")
        self._params[key] = value

    def getParamInfo(self, name):
        key = self._param_key(name)
        typ, default, lo, up = _PARAM_DEFAULT[key]
        return (name, typ, self._params[key], lo, up, default)

    def resetParams(self):
        self._params.update({k: v[1] for k, v in _PARAM_DEFAULT.items()})

    # ---- attributes ----
    def __getattr__(self, name):
        key = name.lower()
        if name.startswith("__"):
            raise AttributeError(name)
        if key == "status":
            return self._status
        if key == "solcount":
            return len(self._pool)
        if key == "objval":
            if not self._pool:
                raise AttributeError("Unable to retrieve attribute 'objVal'")
            return self._pool[0][0]
        if key == "poolobjval":
            n = self._param("solutionnumber")
            if n >= len(self._pool):
                raise AttributeError(
                    "Unable to retrieve attribute 'PoolObjVal'")
            return self._pool[n][0]
        if key == "objbound":
            return self._objbound
        if key == "mipgap":
            return 0.
        if key == "modelname":
            return self._name
        if key == "modelsense":
            return self._sense
        if key == "numvars":
            return len(self._vars)
        if key == "numconstrs":
            return len(self._constrs)
        if key == "numbinvars":
            return len([v for v in self._vars if v.vtype == GRB.BINARY])
        if key == "numintvars":
            return len([v for v in self._vars if v.vtype != GRB.CONTINUOUS])
        if key == "ismip":
            return int(any(v.vtype != GRB.CONTINUOUS for v in self._vars))
        if key == "isqp":
            return int(isinstance(self._obj, QuadExpr))
        if key == "runtime":
            return 0.
        if key == "objcon":
            return (self._obj._lin if isinstance(self._obj, QuadExpr) else
                    self._obj)._const
        raise AttributeError(f"Unable to retrieve attribute '{name}'")

    def __setattr__(self, name, value):
        if name.lower() == "modelsense":
            self.__dict__["_pending_sense"] = value
        else:
            self.__dict__[name] = value

    def getAttr(self, name, objs=None):
        if objs is None:
            return getattr(self, name)
        if isinstance(objs, dict):
            return tupledict((k, getattr(v, name)) for k, v in objs.items())
        return [getattr(v, name) for v in objs]

    def setAttr(self, name, arg1, arg2=None):
        if arg2 is None:
            setattr(self, name, arg1)
        else:
            for v, val in zip(arg1, arg2):
                setattr(v, name, val)

    def write(self, filename):
        pass

    def computeIIS(self):
        pass

    def relax(self):
        raise GurobiError("relax() is not supported")

    def _solution_value(self, var, n):
        if n >= len(self._pool):
            raise AttributeError("Unable to retrieve attribute 'x'")
        return self._pool[n][1][var]

    # ---- callbacks ----
    def terminate(self):
        self.__dict__["_terminate"] = True

    def cbGet(self, what):
        c = self._where
        if c is None:
            raise GurobiError("cbGet called outside of a callback")
        where, info = c
        prefix = {3: 3, 4: 4, 5: 5}.get(where)
        if what == GRB.Callback.RUNTIME:
            return 0.
        if what // 1000 != prefix:
            raise GurobiError("cbGet: what/where mismatch")
        if what in (3000, 4003, 5003):
            return info["objbst"]
        if what in (3001, 4004, 5004):
            return info["objbnd"]
        if what in (3002, 4005, 5005):
            return float(info["nodcnt"])
        if what in (3003, 4006, 5006):
            return info["solcnt"]
        if what == 4002:
            return info["obj"]
        if what == 5001:
            return info["status"]
        raise GurobiError("cbGet: unsupported")

    def cbGetSolution(self, variables):
        sol = self._where[1]["sol"]
        if isinstance(variables, Var):
            return sol[variables]
        return [sol[v] for v in variables]

    # ---- solve ----
    def optimize(self, callback=None):
        self.update()
        d = self.__dict__
        d["_terminate"] = False
        STATS["solves"] += 1
        _Search(self, callback).run()
        if INJECT:
            forced = INJECT.pop(0)
            if forced is not None:
                forced(self)


class _ParamProxy:
    def __init__(self, model):
        self.__dict__["_m"] = model

    def __getattr__(self, name):
        return self._m._param(name)

    def __setattr__(self, name, value):
        self._m.setParam(name, value)


FEAS_TOL = 1e-9
# Feasibility slack used for the leaf LPs. Gurobi accepts constraint violation
# up to FeasibilityTol (1e-6); the encodings built by the library may be
# perturbed by rounding (1e-16 relative), so a strictly exact engine could call
# a razor-thin feasible set empty.
_INF = highspy.kHighsInf


class _Search:
    """ Depth-first enumeration of the integer assignments of one model. """
    def __init__(self, model, callback):
        self.m = model
        self.callback = callback
        self.vars = model._vars
        self.index = {v: i for i, v in enumerate(self.vars)}
        n = len(self.vars)
        self.n = n
        self.lb = np.array([v._data["lb"] for v in self.vars], dtype=float)
        self.ub = np.array([v._data["ub"] for v in self.vars], dtype=float)
        self.int_cols = [
            i for i, v in enumerate(self.vars) if v._data["vtype"] != "C"
        ]
        for i in self.int_cols:
            if self.vars[i]._data["vtype"] == "B":
                self.lb[i] = max(self.lb[i], 0.)
                self.ub[i] = min(self.ub[i], 1.)
            self.lb[i] = math.ceil(self.lb[i] - 1e-9)
            self.ub[i] = math.floor(self.ub[i] + 1e-9)
        self.lb[self.lb <= -1e20] = -_INF
        self.ub[self.ub >= 1e20] = _INF
        obj = model._obj
        lin = obj._lin if isinstance(obj, QuadExpr) else obj
        self.c = np.zeros(n)
        for coef, v in lin._terms:
            self.c[self.index[v]] += coef
        self.const = lin._const
        self.sign = 1. if model._sense == GRB.MINIMIZE else -1.
        self.Q = None
        if isinstance(obj, QuadExpr) and obj._qterms:
            self.Q = np.zeros((n, n))
            for coef, a, b in obj._qterms:
                self.Q[self.index[a], self.index[b]] += coef
        rows = model._constrs
        m = len(rows)
        self.A = np.zeros((m, n))
        self.rl = np.full(m, -_INF)
        self.ru = np.full(m, _INF)
        for k, cst in enumerate(rows):
            for v, coef in cst._terms.items():
                self.A[k, self.index[v]] = coef
            rhs = cst._rhs
            if cst._sense != ">":
                self.ru[k] = min(max(rhs, -1e20), _INF) if rhs < 1e20 else _INF
            if cst._sense != "<":
                self.rl[k] = rhs if rhs > -1e20 else -_INF
        self.pool = []
        self.nodes = 0
        self.unbounded = False
        self.stopped = None
        mode = model._param("poolsearchmode")
        # without PoolSearchMode 2 the pool has the solutions met on the way
        # to the optimum; with it, the best ones
        self.pool_size = model._param("poolsolutions")
        self.complete = self.pool_size if mode == 2 else 1
        self.sol_limit = model._param("solutionlimit")
        self.sols_found = 0

    # -- LP at a node --
    def setup(self):
        h = highspy.Highs()
        h.setOptionValue("output_flag", False)
        h.setOptionValue("threads", 1)
        h.setOptionValue("presolve", "off")
        h.setOptionValue("solver", "simplex")
        h.setOptionValue("primal_feasibility_tolerance", FEAS_TOL)
        h.setOptionValue("dual_feasibility_tolerance", FEAS_TOL)
        h.setOptionValue("small_matrix_value", 1e-12)
        lp = highspy.HighsLp()
        lp.num_col_ = self.n
        lp.num_row_ = self.A.shape[0]
        lp.col_cost_ = self.sign * self.c if self.Q is None else np.zeros(
            self.n)
        lp.col_lower_ = self.lb
        lp.col_upper_ = self.ub
        lp.row_lower_ = self.rl
        lp.row_upper_ = self.ru
        r, cidx = np.nonzero(self.A)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.num_col_ = self.n
        lp.a_matrix_.num_row_ = self.A.shape[0]
        lp.a_matrix_.start_ = np.concatenate(
            ([0], np.cumsum((self.A != 0).sum(axis=1)))).astype(np.int32)
        lp.a_matrix_.index_ = cidx.astype(np.int32)
        lp.a_matrix_.value_ = self.A[r, cidx]
        st = h.passModel(lp)
        if st == highspy.HighsStatus.kError:
            raise GurobiError("engine: HiGHS rejected the model")
        self.h = h
        self.icols = np.array(self.int_cols, dtype=np.int32)

    def _tol(self, tol):
        self.h.setOptionValue("primal_feasibility_tolerance", tol)
        self.h.setOptionValue("dual_feasibility_tolerance", tol)

    def solve_lp(self, lo, up):
        """ -> (status, objective in minimization sense, x) """
        if len(self.int_cols) > 0:
            self.h.changeColsBounds(len(self.int_cols), self.icols, lo, up)
        self.h.run()
        st = self.h.getModelStatus()
        S = highspy.HighsModelStatus
        if st not in (S.kOptimal, S.kInfeasible, S.kUnbounded):
            # Retry from scratch (no warm start), then with presolve, then
            # with a looser tolerance (badly scaled data).
            for presolve, tol in (("off", FEAS_TOL), ("on", FEAS_TOL),
                                  ("off", 1e-8), ("on", 1e-7), ("on", 1e-6)):
                self.h.clearSolver()
                self._tol(tol)
                self.h.setOptionValue("presolve", presolve)
                self.h.run()
                st = self.h.getModelStatus()
                if st in (S.kOptimal, S.kInfeasible, S.kUnbounded):
                    break
            if tol != FEAS_TOL:
                STATS["loose"] = STATS.get("loose", 0) + 1
            self._tol(FEAS_TOL)
            self.h.setOptionValue("presolve", "off")
            self._retried = True
        else:
            self._retried = False
        if st == S.kOptimal:
            x = np.array(self.h.getSolution().col_value, dtype=float)
            return "optimal", self.h.getObjectiveValue(), x
        if st == S.kInfeasible:
            return "infeasible", None, None
        if st == S.kUnbounded:
            return "unbounded", None, None
        if st == S.kUnboundedOrInfeasible:
            # decide feasibility with a zero objective
            self.h.changeColsCost(self.n, np.arange(self.n, dtype=np.int32),
                                  np.zeros(self.n))
            self.h.clearSolver()
            self.h.run()
            st2 = self.h.getModelStatus()
            self.h.changeColsCost(self.n, np.arange(self.n, dtype=np.int32),
                                  self.sign * self.c)
            self.h.clearSolver()
            return ("unbounded" if st2 == S.kOptimal else "infeasible"), \
                None, None
        if st == S.kModelEmpty:
            return "optimal", 0., np.zeros(self.n)
        return self._elastic(lo, up)

    def _fresh(self, A, c, lb, ub, rl, ru):
        n = len(c)
        h = highspy.Highs()
        for k, v in (("output_flag", False), ("threads", 1),
                     ("small_matrix_value", 1e-12)):
            h.setOptionValue(k, v)
        lp = highspy.HighsLp()
        lp.num_col_, lp.num_row_ = n, A.shape[0]
        lp.col_cost_, lp.col_lower_, lp.col_upper_ = c, lb, ub
        lp.row_lower_, lp.row_upper_ = rl, ru
        r, cidx = np.nonzero(A)
        lp.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
        lp.a_matrix_.num_col_, lp.a_matrix_.num_row_ = n, A.shape[0]
        lp.a_matrix_.start_ = np.concatenate(
            ([0], np.cumsum((A != 0).sum(axis=1)))).astype(np.int32)
        lp.a_matrix_.index_ = cidx.astype(np.int32)
        lp.a_matrix_.value_ = A[r, cidx]
        h.passModel(lp)
        h.run()
        return h

    def _elastic(self, lo, up):
        """
        The simplex could not decide this LP: decide it by its smallest
        maximal row violation t. t > 1e-7: infeasible; otherwise the rows are
        relaxed by t.
        """
        STATS["elastic"] = STATS.get("elastic", 0) + 1
        lb, ub = self.lb.copy(), self.ub.copy()
        lb[self.int_cols], ub[self.int_cols] = lo, up
        A, rl, ru = [], [], []
        for k in range(self.A.shape[0]):
            if self.ru[k] < _INF:
                A.append(np.append(self.A[k], -1.))
                rl.append(-_INF)
                ru.append(self.ru[k])
            if self.rl[k] > -_INF:
                A.append(np.append(self.A[k], 1.))
                rl.append(self.rl[k])
                ru.append(_INF)
        A = np.array(A).reshape(-1, self.n + 1)
        h = self._fresh(A, np.append(np.zeros(self.n), 1.), np.append(lb, 0.),
                        np.append(ub, _INF), np.array(rl), np.array(ru))
        S = highspy.HighsModelStatus
        if h.getModelStatus() != S.kOptimal:
            raise GurobiError(f"engine: elastic LP {h.getModelStatus()}")
        t = h.getSolution().col_value[-1]
        if t > 1e-7:
            return "infeasible", None, None
        t = t + 1e-8
        h = self._fresh(self.A, self.sign * self.c, lb, ub, self.rl - t,
                        self.ru + t)
        st = h.getModelStatus()
        if st == S.kOptimal:
            return "optimal", h.getObjectiveValue(), np.array(
                h.getSolution().col_value)
        if st == S.kInfeasible:
            return "infeasible", None, None
        if st in (S.kUnbounded, S.kUnboundedOrInfeasible):
            return "unbounded", None, None
        raise GurobiError(f"engine: LP status {st}")

    def solve_qp(self, lo, up):
        """ The convex QP of a leaf, by clarabel. """
        st, _, _ = self.solve_lp(lo, up)
        if st == "infeasible":
            return st, None, None
        import clarabel
        import scipy.sparse as sp
        free = [i for i in range(self.n) if i not in self.int_cols]
        z = np.zeros(self.n)
        z[self.int_cols] = lo
        Qs = self.sign * (self.Q + self.Q.T)  # 1/2 x'Qs x
        P = Qs[np.ix_(free, free)]
        if len(free) and np.linalg.eigvalsh(P).min() < -1e-9:
            raise GurobiError("Q matrix is not positive semi-definite")
        q = self.sign * self.c[free] + Qs[free] @ z
        const = self.sign * self.c @ z + .5 * z @ Qs @ z
        if len(free) == 0:
            return "optimal", const, z
        G, hh, E, e = [], [], [], []
        for k in range(self.A.shape[0]):
            a = self.A[k, free]
            off = self.A[k] @ z
            if self.rl[k] == self.ru[k]:
                E.append(a)
                e.append(self.ru[k] - off)
                continue
            if self.ru[k] < 1e20:
                G.append(a)
                hh.append(self.ru[k] - off)
            if self.rl[k] > -1e20:
                G.append(-a)
                hh.append(off - self.rl[k])
        for j, i in enumerate(free):
            row = np.zeros(len(free))
            row[j] = 1.
            if self.lb[i] == self.ub[i]:
                E.append(row)
                e.append(self.lb[i])
                continue
            if self.ub[i] < 1e20:
                G.append(row)
                hh.append(self.ub[i])
            if self.lb[i] > -1e20:
                G.append(-row)
                hh.append(-self.lb[i])
        M = np.array(E + G).reshape(-1, len(free))
        b = np.array(e + hh)
        cones = []
        if E:
            cones.append(clarabel.ZeroConeT(len(E)))
        if G:
            cones.append(clarabel.NonnegativeConeT(len(G)))
        settings = clarabel.DefaultSettings()
        settings.verbose = False
        settings.tol_gap_abs = settings.tol_gap_rel = 1e-11
        settings.tol_feas = 1e-11
        sol = clarabel.DefaultSolver(sp.csc_matrix(np.triu(P)), q,
                                     sp.csc_matrix(M), b, cones,
                                     settings).solve()
        s = str(sol.status)
        if "Infeasible" in s:
            return ("unbounded" if "Dual" in s else "infeasible"), None, None
        x = z.copy()
        x[free] = sol.x
        return "optimal", sol.obj_val + const, x

    # -- enumeration --
    def run(self):
        d = self.m.__dict__
        d["_pool"] = []
        if np.any(self.lb > self.ub):
            d["_status"] = GRB.INFEASIBLE
            return
        if self.n == 0:
            ok = np.all(self.rl <= 0) and np.all(self.ru >= 0)
            d["_status"] = GRB.OPTIMAL if ok else GRB.INFEASIBLE
            if ok:
                d["_pool"] = [(self.const, {})]
            return
        self.setup()
        lo = self.lb[self.int_cols].astype(float)
        up = self.ub[self.int_cols].astype(float)
        self.started = None
        self.start_phase = False
        start = np.array([self.vars[i]._data["start"] for i in self.int_cols])
        given = start < GRB.UNDEFINED
        if len(start) and np.any(given):
            # A (partial) start: the first completion of it that is feasible
            # becomes the first incumbent.
            slo, sup = lo.copy(), up.copy()
            slo[given] = sup[given] = np.clip(np.round(start[given]),
                                              lo[given], up[given])
            self.start_phase = True
            self._dfs(slo, sup)
            self.start_phase = False
        self._cb(GRB.Callback.MIP)
        self._dfs(lo, up)
        STATS["nodes"] += self.nodes
        if self.unbounded:
            d["_status"] = GRB.UNBOUNDED
            return
        self.pool.sort(key=lambda t: t[0])
        d["_pool"] = [(self.sign * o + self.const,
                       {v: x[i]
                        for i, v in enumerate(self.vars)})
                      for (o, x) in self.pool]
        if self.stopped is not None:
            d["_status"] = self.stopped
        else:
            d["_status"] = GRB.OPTIMAL if self.pool else GRB.INFEASIBLE
        d["_objbound"] = d["_pool"][0][0] if d["_pool"] else None

    def _cb(self, where, status=GRB.OPTIMAL, sol=None):
        if self.callback is None:
            return
        best = min((o for o, _ in self.pool), default=None)
        if best is None:
            objbst = GRB.INFINITY * self.sign
        else:
            objbst = self.sign * best + self.const
        info = dict(objbst=objbst,
                    objbnd=-GRB.INFINITY * self.sign,
                    nodcnt=self.nodes,
                    solcnt=len(self.pool),
                    status=status,
                    obj=objbst,
                    sol=sol)
        self.m.__dict__["_where"] = (where, info)
        try:
            self.callback(self.m, where)
        finally:
            self.m.__dict__["_where"] = None
        if self.m._terminate:
            self.stopped = GRB.INTERRUPTED

    def _record(self, obj, x):
        x = x.copy()
        if self.int_cols:
            x[self.int_cols] = np.round(x[self.int_cols])
        self.pool.append((obj, x))
        self.pool.sort(key=lambda t: t[0])
        del self.pool[self.pool_size:]
        self.sols_found += 1

    def _dfs(self, lo, up):
        if self.unbounded or self.stopped is not None:
            return
        self.nodes += 1
        leaf = bool(np.all(lo == up))
        if self.start_phase and self.started is not None:
            return
        if leaf and not self.start_phase and self.started is not None and \
                np.all(lo == self.started):
            return  # already evaluated as the start
        solver = self.solve_qp if (leaf and self.Q is not None) else \
            self.solve_lp
        st, obj, x = solver(lo, up)
        if st == "infeasible":
            self._cb(GRB.Callback.MIPNODE, GRB.INFEASIBLE)
            return
        if leaf:
            STATS["leaves"] += 1
            if st == "unbounded":
                self.unbounded = True
                return
            self._record(obj, x)
            if self.start_phase:
                self.started = lo.copy()
            self._cb(GRB.Callback.MIPSOL, sol=dict(zip(self.vars, x)))
            if self.stopped is None:
                self._cb(GRB.Callback.MIPNODE)
            if self.stopped is None and self.sols_found >= self.sol_limit:
                self.stopped = GRB.SOLUTION_LIMIT
            return
        if st == "optimal" and self.Q is None and len(
                self.pool) >= self.complete and obj > \
                self.pool[self.complete - 1][0] + 1e-9 * (1 + abs(obj)):
            return
        self._cb(GRB.Callback.MIPNODE)
        # Branch on the most fractional free integer variable, nearest value
        # first; every value is eventually visited.
        free = np.nonzero(lo != up)[0]
        if st == "optimal":
            val = x[self.icols[free]]
            frac = np.abs(val - np.round(val))
            j = int(np.argmax(frac))
            k = int(free[j])
            order = sorted(range(int(lo[k]), int(up[k]) + 1),
                           key=lambda t: abs(t - val[j]))
        else:
            k = int(free[0])
            order = range(int(lo[k]), int(up[k]) + 1)
        for v in order:
            lo2, up2 = lo.copy(), up.copy()
            lo2[k] = up2[k] = v
            self._dfs(lo2, up2)


class Env:
    def __init__(self, *args, **kwargs):
        pass

    def setParam(self, *args):
        pass

    def start(self):
        pass


def setParam(name, value):
    pass


class gurobi:
    @staticmethod
    def version():
        return (0, 0, 0)
