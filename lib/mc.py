"""
Shared harness of the checks: exhaustive enumeration over a declared finite
space, in parallel, with counters, replay files, known findings and evidence.

A check is a list of TASKS (plain picklable tuples) and a worker function
`work(cx, task)` which explores one task completely and reports to `cx`.
"""
import argparse
import collections
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

import bootstrap  # noqa: F401  (sys.path, stand-in)

VERIF = bootstrap.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class EngineProblem(Exception):
    """ The check itself (not the code under test) cannot decide. """


def _jsonable(o):
    import numpy as np
    import torch
    from fractions import Fraction
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in o]
    if isinstance(o, torch.Tensor):
        return o.detach().cpu().tolist()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, Fraction):
        return float(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


class Cx:
    """ What one task reports. """
    def __init__(self, task, deadline):
        self.task = task
        self.deadline = deadline
        self.counts = collections.Counter()
        self.fails = []
        self.samples = []
        self.outcomes = set()
        self.truncated = False

    def states(self, n=1):
        self.counts["states"] += n

    def trans(self, n=1):
        self.counts["transitions"] += n

    def traces(self, n=1):
        self.counts["traces"] += n

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, *key):
        """ Distinct observed outcomes: shows that the enumeration is not
        vacuous. """
        if len(self.outcomes) < 5000:
            self.outcomes.add(repr(_jsonable(key)))

    def sample(self, **kw):
        if len(self.samples) < 1:
            self.samples.append(_jsonable(kw))

    def fail(self, key, **detail):
        """ key: stable identification of what failed (property-specific site
        + input). """
        if len(self.fails) < 20:
            self.fails.append((str(key), _jsonable(detail)))
        self.counts["failed_comparisons"] += 1

    def out_of_time(self):
        if time.time() > self.deadline:
            self.truncated = True
            return True
        return False


_WORK = None
_DEADLINE = None


def _is_engine_problem(e):
    import gurobipy
    if isinstance(e, EngineProblem):
        return True
    return isinstance(e, gurobipy.GurobiError) and str(e).startswith("engine:")


def _run_one(args):
    i, task = args
    cx = Cx(task, _DEADLINE)
    err = None
    try:
        import torch
        torch.manual_seed(int(os.environ.get("VERIF_SEED", "1")) * 7919 + i)
        import numpy as np
        np.random.seed((int(os.environ.get("VERIF_SEED", "1")) * 7919 + i)
                       % (2**31))
        if time.time() > _DEADLINE:
            cx.truncated = True
        else:
            _WORK(cx, task)
    except Exception as e:  # noqa
        tb = traceback.format_exc()
        if _is_engine_problem(e):
            err = tb
        else:
            # Where was it raised?  In the code under test: a violation (the
            # property promises an answer). In the check: an error.
            frames = traceback.extract_tb(e.__traceback__)
            in_repo = [
                f for f in frames
                if f.filename.startswith(bootstrap.REPO + os.sep)
            ]
            if in_repo:
                f = in_repo[-1]
                cx.fail(f"exception:{type(e).__name__}:"
                        f"{os.path.basename(f.filename)}:{f.name}",
                        message=str(e), traceback=tb[-3000:])
            elif isinstance(e, (MemoryError, OSError)) and not isinstance(
                    e, FileNotFoundError):
                err = tb
            else:
                # The answer of the code under test could not even be read
                # (wrong type, shape or missing field): not the promised one.
                f = frames[-1]
                cx.fail(f"unreadable:{type(e).__name__}:"
                        f"{os.path.basename(f.filename)}:{f.name}",
                        message=str(e), traceback=tb[-3000:])
    return i, cx.counts, cx.fails, cx.samples, cx.outcomes, cx.truncated, err


def load_known(prop):
    """ lines  `known: property=<id> key=<key> :: <what fails>` """
    ret = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                head, what = line.split(" :: ", 1)
                key = head.split("key=", 1)[1].strip()
                ret[key] = what
    return ret


def silence():
    """ The library prints a lot; keep stdout for the verdict. """
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    import warnings
    warnings.filterwarnings("ignore")


def main(prop, tasks_fn, work, *, rule, assumptions=(), level="model_checking",
         budget=(600, 820), extra=None):
    """
    tasks_fn(tier) -> list of tasks;   work(cx, task).
    """
    global _WORK, _DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", type=int, default=None)
    ap.add_argument("-j", type=int, default=int(
        os.environ.get("VERIF_JOBS", "0")) or os.cpu_count())
    args = ap.parse_args()
    tier = args.tier
    t0 = time.time()
    # keep the verdict apart from what libraries print, C code included
    sys.stdout.flush()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.close(nul)
    silence()
    sys.setrecursionlimit(10000)
    _WORK = work
    _DEADLINE = t0 + budget[0 if tier == "quick" else 1]
    if args.replay:
        rec = json.load(open(args.replay))
        tier = rec["tier"]
    tasks = list(tasks_fn(tier))
    idx = list(range(len(tasks)))
    if args.replay:
        idx = [rec["task_index"]]
    if args.only is not None:
        idx = [args.only]
    totals = collections.Counter()
    fails = []
    samples = []
    outcomes = set()
    truncated = 0
    errors = []
    per_task = []
    work_items = [(i, tasks[i]) for i in idx]
    if args.j == 1 or len(work_items) == 1:
        results = map(_run_one, work_items)
        pool = None
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(min(args.j, len(work_items)), maxtasksperchild=None)
        results = pool.imap_unordered(_run_one, work_items, chunksize=1)
    for i, counts, fs, ss, oc, trunc, err in results:
        totals.update(counts)
        fails.extend((i, k, d) for k, d in fs)
        samples.extend((i, s) for s in ss)
        outcomes |= oc
        truncated += bool(trunc)
        if err:
            errors.append((i, err))
        if fs and os.environ.get("NNL_FAILFAST"):
            # for bug campaigns only: stop at the first unknown failure
            if any(k not in load_known(prop) for k, _ in fs):
                break
    if pool is not None:
        pool.terminate()
        pool.join()
    fails.sort(key=lambda t: (t[0], t[1]))
    samples.sort(key=lambda t: t[0])
    known = load_known(prop)
    hit_known = {}
    new = []
    for i, k, d in fails:
        if k in known:
            hit_known[k] = known[k]
        else:
            new.append((i, k, d))
    nsteps = max(1, len(samples) // 4)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": {
            "states": totals["states"],
            "transitions": totals["transitions"],
            "traces_validated_against_impl": totals["traces"],
            "evaluations": totals["transitions"] + totals["traces"],
            "distinct_nontrivial": len(outcomes),
            "tasks": len(work_items),
            "tasks_cut_by_time": truncated,
            "exhaustive": truncated == 0 and not errors,
            "rule": rule,
            "samples": [s for _, s in samples[::nsteps][:5]] or
                       [_jsonable(tasks[0])],
            "other_counts": {
                k: v for k, v in totals.items()
                if k not in ("states", "transitions", "traces")
            },
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if extra is not None:
        evidence["coverage"].update(extra(totals))
    if args.replay is None and args.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
    for k, what in sorted(hit_known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}", file=out)
    print(f"{prop} {tier}: states={totals['states']} "
          f"transitions={totals['transitions']} traces={totals['traces']} "
          f"outcomes={len(outcomes)} tasks={len(work_items)} "
          f"cut={truncated} wall={time.time() - t0:.1f}s", file=out)
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        i, k, d = new[0]
        h = hashlib.sha1((prop + k + repr(tasks[i])).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "tier": tier,
                    "task_index": i,
                    "task": _jsonable(tasks[i]),
                    "key": k,
                    "detail": d,
                    "how": f"python {os.path.relpath(sys.argv[0], VERIF)} "
                           f"--replay {path}",
                    "all_failing_keys": sorted({x[1] for x in new})[:200],
                }, f, indent=1)
        shown = set()
        for i, k, d in new:
            if k in shown or len(shown) >= 6:
                continue
            shown.add(k)
            d = {a: b for a, b in d.items() if a != "traceback"}
            print(f"  task {i}: {k}: {json.dumps(d)[:700]}", file=out)
        print(f"VIOLATION property={prop} replay={path}", file=out)
        out.flush()
        os._exit(1)
    if errors:
        print(f"CHECK ERROR in {len(errors)} task(s); first: task "
              f"{errors[0][0]}\n{errors[0][1]}", file=out)
        out.flush()
        os._exit(2)
    if not totals["states"]:
        print("CHECK ERROR: nothing was explored", file=out)
        out.flush()
        os._exit(2)
    out.flush()
    os._exit(0)
