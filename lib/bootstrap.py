"""
Puts the code under test (/repo), the gurobipy stand-in and this library on
sys.path, and sends cvxpy's solver="GUROBI" requests to an installed solver.
Import it before anything from neural_network_lyapunov.
"""
import os
import sys

for _k, _v in (("OMP_NUM_THREADS", "1"), ("MKL_NUM_THREADS", "1"),
               ("OPENBLAS_NUM_THREADS", "1"), ("MPLBACKEND", "Agg"),
               ("WANDB_MODE", "offline"), ("CUDA_VISIBLE_DEVICES", "")):
    os.environ.setdefault(_k, _v)
sys.dont_write_bytecode = True

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("NNL_REPO", "/repo")

for _p in (REPO, LIB):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)
try:
    import gurobipy  # noqa: F401  a real one, were it ever installed
    if not hasattr(gurobipy, "STATS"):
        raise ImportError
except ImportError:
    sys.modules.pop("gurobipy", None)
    sys.path.insert(0, os.path.join(LIB, "standin"))
import gurobipy  # noqa: E402

assert hasattr(gurobipy, "STATS"), "the stand-in must be the one in use"

import torch  # noqa: E402

torch.set_num_threads(1)


def patch_cvxpy():
    import cvxpy as cp
    if getattr(cp, "_nnl_patched", False):
        return
    cp._nnl_patched = True
    orig = cp.Problem.solve

    def solve(self, *args, **kwargs):
        s = kwargs.get("solver", None)
        if s is not None and str(s).upper() == "GUROBI":
            kwargs = {k: v for k, v in kwargs.items() if k == "verbose"}
            qp = not self.is_dcp() or any(
                "quad" in type(e).__name__.lower() or "sum_squares" in
                type(e).__name__.lower() for e in self.atoms())
            try:
                is_lp = self.is_lp()
            except Exception:
                is_lp = not qp
            # HIGHS: simplex, vertex solutions (as GUROBI); CLARABEL for QPs.
            kwargs["solver"] = "HIGHS" if is_lp else "CLARABEL"
            return orig(self, *args, **kwargs)
        return orig(self, *args, **kwargs)

    cp.Problem.solve = solve


patch_cvxpy()
