"""
Plant a bug: reads a Python spec on stdin defining
  id, prop, edits=[(file, old, new), ...], demo (python text), needs, breaks
writes /verif/seeded/<id>/, confirms it in scratch clones of /repo and reports
whether checks/<prop>.py catches it.   --recheck <id>: only re-run the check.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STUB = '''""" Stand-in so that the library can be imported without the solver. """
import sys
from unittest.mock import MagicMock
sys.modules[__name__] = MagicMock(name="gurobipy")
'''
SH = '''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg WANDB_MODE=offline CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1
export PYTHONPATH="$PWD:$here${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python "$here/demo.py"
'''
TESTS = "test_encoders test_geometry_transform test_integrator " \
    "test_line_search_adam test_line_search_gd test_pybullet_data_generation"


def clone(name):
    d = f"/tmp/seedwt/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedwt", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    return d


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def check(prop, d):
    rc, out = run([PY, f"{VERIF}/checks/{prop.lower()}.py", "--tier",
                   "quick"], VERIF, {"NNL_REPO": d})
    return rc, out


def recheck(i):
    s = f"{VERIF}/seeded/{i}"
    meta = json.load(open(s + "/meta.json"))
    d = clone("re_" + i)
    subprocess.run(["git", "apply", s + "/patch.diff"], cwd=d, check=True)
    rc, out = check(meta["property"], d)
    print(i, meta["property"], "CAUGHT" if rc == 1 and "VIOLATION" in out
          else f"MISSED rc={rc}", [ln for ln in out.splitlines()
                                   if ln.startswith("  task")][:1])
    shutil.rmtree(d)


def main():
    if sys.argv[1:2] == ["--recheck"]:
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        for i in ids:
            recheck(i)
        return
    ns = {}
    exec(sys.stdin.read(), ns)
    i = ns["id"]
    s = f"{VERIF}/seeded/{i}"
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    good, bad = clone("good_" + i), clone("bad_" + i)
    for f, old, new in ns["edits"]:
        p = f"{bad}/neural_network_lyapunov/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=bad, check=True,
                          stdout=subprocess.PIPE, text=True).stdout
    open(s + "/patch.diff", "w").write(diff)
    open(s + "/demo.sh", "w").write(SH)
    os.chmod(s + "/demo.sh", 0o755)
    open(s + "/demo.py", "w").write(ns["demo"])
    if ns.get("stub", True) == "solver":
        shutil.copy(VERIF + "/lib/standin/gurobipy/__init__.py",
                    s + "/gurobipy.py")
    elif ns.get("stub", True):
        open(s + "/gurobipy.py", "w").write(STUB)
    json.dump({"property": ns["prop"], "needs": ns["needs"],
               "what_it_breaks": ns["breaks"]},
              open(s + "/meta.json", "w"), indent=1)
    ok = True
    rc, out = run(["bash", s + "/demo.sh"], good)
    if rc != 0:
        ok = False
        print("DEMO FAILS ON GOOD", out[-1500:])
    rc, out = run(["bash", s + "/demo.sh"], bad)
    if rc == 0:
        ok = False
        print("DEMO PASSES ON BAD", out[-500:])
    else:
        print("demo on bad:", out.strip().splitlines()[-1:])
    rc, out = run(["bash", "-c", f"""
for t in {TESTS}; do T="$T neural_network_lyapunov/test/$t.py"; done
PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -p no:cacheprovider $T \
 neural_network_lyapunov/examples/rocket 2>&1 | tail -3"""], bad)
    print("tests:", out.strip().splitlines()[-1:])
    if "failed" in out or "error" in out:
        ok = False
    rc, out = check(ns["prop"], bad)
    caught = rc == 1 and f"VIOLATION property={ns['prop']}" in out
    print(i, "OK" if ok else "NOT VALID", "CAUGHT" if caught else
          f"MISSED rc={rc}")
    if not caught:
        print(out[-1500:])
    else:
        print([ln[:250] for ln in out.splitlines()
               if ln.startswith("  task")][:2])
    shutil.rmtree(good)
    shutil.rmtree(bad)


main()
