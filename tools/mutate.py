"""
Mutation campaign (bug hunting for the checks themselves; no check uses it).

  mutate.py gen  COVDIR OUT.json [per_function] [seed]   choose mutants
  mutate.py run  OUT.json RESULT.jsonl [jobs]            run them

A mutant is one textual edit of one expression or statement.  For each, the
checks that own the file and execute the line (COVDIR/cNN: lists of
file:line written by a tracing run) are run with NNL_FAILFAST=1 against a
scratch clone.  Survivors are printed for a human to judge.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PKG = "/repo/neural_network_lyapunov/"
OWN = {
    "mip_utils.py": "c02 c06 c01",
    "relu_to_optimization.py": "c01 c02 c03 c04 c06",
    "relu_to_optimization_utils.py": "c01 c06 c02",
    "utils.py": "c05 c28 c29 c22 c03 c26",
    "gurobi_torch_mip.py": "c07 c08 c09",
    "hybrid_linear_system.py": "c10",
    "relu_system.py": "c11",
    "feedback_system.py": "c12",
    "control_affine_system.py": "c13",
    "dynamic_system.py": "c10 c11",
    "lyapunov.py": "c14 c15 c17 c19 c20",
    "continuous_time_lyapunov.py": "c16 c19 c17",
    "barrier.py": "c18",
    "train_lyapunov_barrier.py": "c20 c31",
    "train_utils.py": "c31 c22 c29",
    "dynamics_learning.py": "c32",
    "r_options.py": "c21",
    "line_search_adam.py": "c23",
    "line_search_gd.py": "c23",
    "geometry_transform.py": "c24",
    "integrator.py": "c25",
    "pybullet_data_generation.py": "c26",
    "worlds.py": "c26",
    "simple_pwl_lyapunov.py": "c27",
    "encoders.py": "c30",
    "training_log.py": "c30",
}
SWAP = [("_lo", "_up"), ("_up", "_lo"), ("lower", "upper"),
        ("upper", "lower"), ("_min", "_max"), ("max", "min"), ("min", "max"),
        ("_in", "_eq"), ("zeros", "ones")]


def mutants_of(src):
    """ yields (function, line, kind, start, end, new) in byte offsets """
    data = src.encode()
    starts = [0]
    for ln in data.split(b"\n"):
        starts.append(starts[-1] + len(ln) + 1)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    def visit(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + "." if fn else "") + ch.name
            if isinstance(ch, (ast.Assert, ast.Raise)):
                continue
            if isinstance(ch, ast.Expr) and isinstance(
                    ch.value, ast.Constant):
                continue
            if isinstance(ch, ast.Expr) and isinstance(
                    ch.value, ast.Call) and text(
                        ch.value.func) in ("print", "warnings.warn"):
                continue
            if isinstance(ch, ast.JoinedStr):
                continue
            yield from one(ch, f)
            yield from visit(ch, f)

    def one(n, fn):
        if not fn:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
                 ast.Eq: "!=", ast.NotEq: "=="}
            m2 = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<="}
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            for t, k in ((m, "cmp"), (m2, "cmpflip")):
                if type(n.ops[0]) in t:
                    mid = data[a:b].decode()
                    old = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
                           ast.GtE: ">=", ast.Eq: "==",
                           ast.NotEq: "!="}[type(n.ops[0])]
                    yield (fn, n.lineno, k, a, b,
                           mid.replace(old, t[type(n.ops[0])], 1))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            m = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"),
                 ast.Mult: ("*", "/"), ast.Div: ("/", "*")}
            if type(n.op) in m:
                o, w = m[type(n.op)]
                le, ri = (n.left, n.right) if isinstance(
                    n, ast.BinOp) else (n.target, n.value)
                a, b = span(le)[1], span(ri)[0]
                mid = data[a:b].decode()
                if mid.count(o) == 1:
                    yield (fn, n.lineno, "arith", a, b, mid.replace(o, w, 1))
                a, b = span(n)
                if isinstance(n, ast.BinOp) and isinstance(
                        n.op, (ast.Add, ast.Sub)):
                    yield fn, n.lineno, "dropterm", a, b, text(le)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            v = n.value
            if type(v) is int:
                yield fn, n.lineno, "const", a, b, str(v + 1)
                if v > 0:
                    yield fn, n.lineno, "const", a, b, str(v - 1)
            elif v == 0:
                yield fn, n.lineno, "const", a, b, "1."
            else:
                yield fn, n.lineno, "const", a, b, repr(v * 2)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            yield fn, n.lineno, "bool", a, b, str(not n.value)
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = data[a:b].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else (
                "or", "and")
            if o in mid:
                yield fn, n.lineno, "boolop", a, b, mid.replace(o, w, 1)
        if isinstance(n, ast.UnaryOp):
            a, b = span(n)
            if isinstance(n.op, (ast.USub, ast.Not)):
                yield fn, n.lineno, "unary", a, b, text(n.operand)
        if isinstance(n, ast.If):
            a, b = span(n.test)
            yield fn, n.lineno, "if", a, b, "True"
            yield fn, n.lineno, "if", a, b, "False"
        if isinstance(n, ast.AugAssign) or (isinstance(
                n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = span(n)
            yield fn, n.lineno, "delete", a, b, "pass"
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in (
                    "clone", "detach", "copy", "squeeze", "flatten", "abs",
                    "sum", "mean", "norm", "t", "transpose") and not n.args:
            a, b = span(n)
            yield fn, n.lineno, "dropcall", a, b, text(n.func.value)
        if isinstance(n, (ast.Name, ast.Attribute)):
            t = n.id if isinstance(n, ast.Name) else n.attr
            a, b = span(n)
            if isinstance(n, ast.Attribute):
                a = b - len(t.encode())
            for x, y in SWAP:
                if x in t and isinstance(n.ctx, ast.Load):
                    yield fn, n.lineno, "name", a, b, t.replace(x, y, 1)
                    break
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(x, ast.Starred) for x in n.args):
            k = len(n.args) - 2
            a1, b1 = span(n.args[k])
            a2, b2 = span(n.args[k + 1])
            yield (fn, n.lineno, "argswap", a1, b2,
                   text(n.args[k + 1]) + data[b1:a2].decode() +
                   text(n.args[k]))
        if isinstance(n, ast.Break):
            a, b = span(n)
            yield fn, n.lineno, "loop", a, b, "pass"
        if isinstance(n, ast.Continue):
            a, b = span(n)
            yield fn, n.lineno, "loop", a, b, "pass"

    yield from visit(ast.parse(src), "")


def gen(covdir, out, per=1, seed=1):
    rnd = random.Random(seed)
    cov = {}
    for c in os.listdir(covdir):
        if c.endswith(".log"):
            continue
        for ln in open(os.path.join(covdir, c)):
            cov.setdefault(ln.strip(), set()).add(c)
    res = []
    for f in sorted(OWN):
        src = open(PKG + f).read()
        by = {}
        for m in mutants_of(src):
            by.setdefault(m[0], []).append(m)
        for fn in sorted(by):
            ms = []
            for m in by[fn]:
                cs = [c for c in OWN[f].split()
                      if c in cov.get(f"{f}:{m[1]}", ())]
                if not cs:
                    # continuation lines carry no event of their own
                    cs = [c for c in OWN[f].split() if any(
                        c in cov.get(f"{f}:{m[1] - k}", ())
                        for k in range(1, 8))]
                data = src.encode()
                new = (data[:m[3]] + m[5].encode() + data[m[4]:]).decode()
                try:
                    ast.parse(new)
                except SyntaxError:
                    continue
                if new == src:
                    continue
                ms.append((m, cs))
            rnd.shuffle(ms)
            kinds = set()
            n = 0
            want = per * (1 + len(ms) // 40)
            for m, cs in ms:
                if m[2] in kinds and len(ms) > 3 * want:
                    continue
                kinds.add(m[2])
                res.append(dict(file=f, fn=fn, line=m[1], kind=m[2],
                                start=m[3], end=m[4], new=m[5], checks=cs,
                                old=src.encode()[m[3]:m[4]].decode()))
                n += 1
                if n >= want:
                    break
    rnd.shuffle(res)
    json.dump(res, open(out, "w"), indent=0)
    print(len(res), "mutants")


def run_one(args):
    i, m, jobs = args
    d = f"/tmp/mutwt/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mutwt", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    p = f"{d}/neural_network_lyapunov/{m['file']}"
    data = open(p, "rb").read()
    data = data[:m["start"]] + m["new"].encode() + data[m["end"]:]
    open(p, "wb").write(data)
    res = "SURVIVED" if m["checks"] else "UNCOVERED"
    t = time.time()
    for c in m["checks"]:
        e = dict(os.environ, NNL_REPO=d, NNL_FAILFAST="1", VERIF_JOBS=str(jobs))
        try:
            q = subprocess.run([PY, f"checks/{c}.py", "--tier", "quick"],
                               cwd=os.environ.get("MUT_VERIF", VERIF), env=e,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=900)
        except subprocess.TimeoutExpired:
            res = f"TIMEOUT {c}"
            break
        if q.returncode == 1 and "VIOLATION" in q.stdout:
            res = f"killed {c}"
            break
        if q.returncode not in (0, 1):
            res = f"ERROR {c} " + q.stdout[-300:]
            break
    shutil.rmtree(d, ignore_errors=True)
    return dict(m, i=i, result=res, secs=round(time.time() - t, 1))


def run(inp, out, workers=4, jobs=2):
    ms = json.load(open(inp))
    done = set()
    if os.path.exists(out):
        done = {json.loads(ln)["i"] for ln in open(out)}
    todo = [(i, m, jobs) for i, m in enumerate(ms) if i not in done]
    with ThreadPoolExecutor(workers) as ex, open(out, "a") as f:
        for r in ex.map(run_one, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], sys.argv[3], *(int(x) for x in sys.argv[4:]))
    else:
        run(sys.argv[2], sys.argv[3], *(int(x) for x in sys.argv[4:]))
